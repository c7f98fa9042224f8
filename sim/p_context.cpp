// Contexts, pass-through, rest state, pausing, commands, virtual keys, injection.
#include "props.h"
#include <utility>
#include <algorithm>
#include <linux/input.h>

namespace sim {

// Points in time which keep away from every multiple of 10 ms relative to each other,
// so that small differences in speed cannot change which timeouts elapse.
struct SafeTime {
  int64_t last = 0;
  int n = 0;
  int64_t gap(int64_t about) {
    auto t = (last + about) / 10000 * 10000 + (n++ % 24 + 1) * 400;
    if (t <= last + 100) t += 10000;
    auto g = t - last;
    last = t;
    return g;
  }
};

std::string projection(Time from, bool commands) {
  std::string r;
  for (auto& e : desktop_events(from))
    r += event_text(e.key, e.value) + " ";
  if (commands) {
    r += "|";
    for (auto& e : W->log)
      if (e.type == R_EXEC && e.t >= from)
        r += " " + e.s;
  }
  return r;
}

std::string compare_projection(const char* what, const std::vector<Outcome>& o) {
  if (o[0].projection == o[1].projection)
    return {};
  auto a = o[0].projection, b = o[1].projection;
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  while (i > 0 && a[i - 1] != ' ') --i;
  auto from = i > 40 ? i - 40 : 0;
  return std::string(what) + ": '" + a.substr(from, 90) + "' instead of '" + b.substr(from, 90) + "'";
}

//---------------------------------------------------------------- C02
static void gen_c02(Scenario& s, Rng& r) {
  ConfOpts b;
  b.history = false;
  auto opts = swarm(r, b);
  if (opts.virt) opts.context_active = false;
  auto conf = random_config(r, opts);
  Setup u;
  u.conf = conf.text;
  u.keyboards = (int)r.range(1, 2);
  u.mice = conf.mouse ? 1 : 0;
  u.windows = WINDOWS;
  u.focus = (int)r.range(0, 3);
  prologue(s, r, u);
  if (r.chance(0.6))
    add_faults(s, r, FS_TIMING | (r.chance(0.3) ? FS_FRAG | FS_EINTR : 0) | (r.chance(0.2) ? FS_SLOW : 0));
  s.set("base_cost_ns", 500);
  auto keys = pick_keys(r, u, 0.6, 0.4, 0.2);
  s.pin(0, "mark", { "history" });
  {
    Typist t{ s, r, {} };
    auto n = r.range(4, 30);
    auto events = r.range(0, 3);
    auto rude = r.chance(0.3);
    for (auto i = 0; i < n; ++i) {
      auto g = human_gap(r);
      if (u.mice && r.chance(0.1)) { t.wheel(g, "m0", r.chance(0.2), r.chance(0.5) ? 1 : -1, true); continue; }
      if (events && r.chance(0.12)) {
        --events;
        switch (r.range(0, rude ? 7 : 4)) {
          case 0: case 1: s.add(g, "focus", { S(r.range(-1, 3)) }); break;
          case 2: s.add(g, "ctl", { r.chance(0.5) ? "--toggle" : "--press", "Virtual" + S(r.range(1, 4)) }); break;
          case 3: s.add(g, "tray", { "Reload" }); break;
          case 4: s.add(g, "ctl", { "--input", "A S" }); break;
          case 5: s.add(g, "kill", { "client" }); s.add(human_gap(r), "ensure", { "client" }); break;
          case 6: { auto k = S(r.range(0, u.keyboards - 1)); s.add(g, "unplug", { "kb" + k }); s.add(human_gap(r) * 4, "replug", { "kb" + k }); break; }
          case 7: s.add(g, "kill", { "daemon", r.chance(0.5) ? "15" : "9" }); s.add(human_gap(r), "ensure", { "daemon" }); break;
        }
        continue;
      }
      t.random(g, keys);
    }
  }
  s.pin(100000, "calm", { "1" });
  for (auto i = 0; i < u.keyboards; ++i) s.pin(1000, "replug", { "kb" + S(i) });
  s.pin(1000, "focus", { S(u.focus) });
  s.pin(1000, "releaseall");
  s.pin(1500000, "ensure", { "daemon" });
  s.pin(1000, "ensure", { "client" });
  s.pin(3000000, "wait");
  // ends an unfinished sequence
  s.pin(1000, "key", { "kb0", S(key_code("F7")), "1" });
  s.pin(50000, "key", { "kb0", S(key_code("F7")), "0" });
  for (auto v = 1; v <= 4; ++v)
    s.pin(300000, "ctl", { "--release", "Virtual" + S(v) });
  s.pin(3000000, "mark", { "rest" });
  SafeTime st;
  Typist t{ s, r, {} };
  auto m = r.range(4, 22);
  for (auto i = 0; i < m; ++i) {
    auto g = st.gap(std::min<int64_t>(human_gap(r), 700000));
    if (u.mice && r.chance(0.1)) t.wheel(g, "m0", false, r.chance(0.5) ? 1 : -1, true);
    else t.random(g, keys, 4, 0);
  }
  s.pin(st.gap(300000), "releaseall");
  s.pin(2000000, "mark", { "end" });
}

static void variant_c02(Scenario& s, int) {
  std::vector<Op> ops;
  auto drop = false;
  int64_t gap = 0;
  for (auto& op : s.ops) {
    if (op.name == "mark" && op.args[0] == "history") drop = true;
    if (op.name == "calm") drop = false;
    if (drop && op.name != "mark") { gap += op.gap; continue; }
    ops.push_back(op);
    ops.back().gap += gap;
    gap = 0;
  }
  s.ops = ops;
}

static void check_c02(const Scenario&, Outcome& o) {
  if (!conf_accepted()) { o.probes["rejected"] = 1; return; }
  auto rest = mark_time("rest");
  o.projection = projection(rest);
  o.probes["probe_events"] = desktop_events(rest).size();
  // the devices must be under control again, otherwise there is nothing to compare
  auto live_grabs = 0;
  for (auto& d : W->devs) live_grabs += d->grab != nullptr;
  if (!live_grabs) fail(o, "not restored: no device is grabbed after the programs were restarted");
}

static std::string compare_c02(const Scenario&, std::vector<Outcome>& o) {
  return compare_projection("past input matters: after a rest the system answers", o);
}

//---------------------------------------------------------------- C03
static void gen_c03(Scenario& s, Rng& r) {
  ConfOpts b;
  b.any = b.not_any_out = b.strings = false;
  auto opts = swarm(r, b);
  auto conf = random_config(r, opts);
  Setup u;
  u.conf = conf.text;
  u.keyboards = (int)r.range(1, 2);
  u.mice = conf.mouse ? 1 : 0;
  u.windows = WINDOWS;
  u.focus = (int)r.range(-1, 3);
  prologue(s, r, u);
  if (r.chance(0.6))
    add_faults(s, r, FS_TIMING | (r.chance(0.3) ? FS_FRAG | FS_EINTR : 0));
  // keys without mapping on one keyboard each
  std::vector<std::pair<std::string, std::string>> keys, plain;
  for (size_t i = 0; i < PLAIN.size(); ++i)
    plain.push_back({ "kb" + S((int64_t)i % u.keyboards), PLAIN[i] });
  // and keys which cannot be named
  if (r.chance(0.3))
    for (auto i = 0; i < 6; ++i) {
      auto code = S(r.chance(0.5) ? r.range(1, 248) : r.range(0x160, 0x1ff));
      if (key_name(key_code(code)) == code && !std::count_if(plain.begin(), plain.end(), [&](auto& p) { return p.second == code; }))
        plain.push_back({ "kb" + S((int64_t)i % u.keyboards), code });
    }
  for (auto i = 0; i < u.keyboards; ++i) {
    for (auto& k : TRIG) if (r.chance(0.5)) keys.push_back({ "kb" + S(i), k });
    for (auto& k : MODS) if (r.chance(0.3)) keys.push_back({ "kb" + S(i), k });
  }
  if (u.mice) for (auto& k : BUTTONS) if (r.chance(0.5)) keys.push_back({ "m0", k });
  if (keys.empty()) keys = plain;
  auto others = r.chance(0.3) ? 0.2 : 0.6;
  auto repeats = !opts.virt && !opts.timeouts && !opts.not_timeouts && !opts.delays && !opts.history && r.chance(0.5);
  Typist t{ s, r, {} };
  auto n = r.range(8, 60);
  auto events = r.range(0, 5);
  auto conf2 = random_config(r, opts);
  for (auto i = 0; i < n; ++i) {
    auto g = human_gap(r);
    if (events && r.chance(0.12)) {
      --events;
      switch (r.range(0, 7)) {
        case 0: case 1: s.add(g, "focus", { S(r.range(-1, 3)) }); break;
        case 2: if (!repeats) s.add(g, "ctl", { r.chance(0.5) ? "--toggle" : "--press", "Virtual" + S(r.range(1, 4)) }); break;
        case 3: s.add(g, "tray", { "Reload" }); break;
        case 4: s.add(g, "tray", { "Active" }); break;
        case 5: if (conf2.mouse == conf.mouse) { s.add(g, "conf", { CONF, conf2.text }); s.add(r.range(0, 2000), "tray", { "Reload" }); } break;
        case 6: if (u.keyboards == 2) { s.add(g, "unplug", { "kb1" }); s.add(human_gap(r) * 2, "replug", { "kb1" }); } break;
        case 7: if (!repeats) s.add(g, "ctl", { "--input", "A S" }); break;
      }
      continue;
    }
    if (repeats && t.down.size() == 1 && r.chance(0.5)) {
      // only the key pressed last repeats, and only until another one is pressed
      auto last = t.down.back();
      for (size_t k = s.ops.size(); k > 0; --k)
        if (s.ops[k - 1].name == "key") {
          if (s.ops[k - 1].args[0] == last.first && s.ops[k - 1].args[1] == S(last.second) && s.ops[k - 1].args[2] != "0")
            s.add(g, "key", { last.first, S(last.second), "2" });
          break;
        }
      continue;
    }
    // some keys are typed several times in a row
    if (r.chance(0.06) && t.down.empty()) {
      auto& k = plain[(size_t)r.range(0, (int64_t)plain.size() - 1)];
      for (auto m = r.range(2, 4); m > 0; --m, g = r.range(2000, 120000)) {
        s.add(g, "key", { k.first, S(key_code(k.second)), "1" });
        s.add(r.range(2000, 60000), "key", { k.first, S(key_code(k.second)), "0" });
      }
      continue;
    }
    t.random(g, r.chance(others) ? keys : plain, 4, 0);
  }
  if (repeats) s.set("repeats", 1);
  if (opts.delays) s.set("delays", 1);
  s.pin(500000, "releaseall");
  s.pin(3000000, "mark", { "end" });
}

static void check_c03(const Scenario& s, Outcome& o) {
  if (!conf_accepted()) { o.probes["rejected"] = 1; return; }
  auto ready = mark_time("ready"), end = mark_time("end");
  std::set<int> plain;
  for (auto& k : PLAIN) plain.insert(key_code(k));
  for (auto i = 1; i < 0x200; ++i) if (key_name(i) == S(i)) plain.insert(i);
  struct Ev { Time t; int key, value; Time phys; };   // t: when the daemon read it
  std::vector<Ev> want, got;
  // a later stage may get a key it waits for and the keys following it at once
  auto slack = 600 * MS;
  for (auto& op : s.ops)
    if (op.name == "conf" && op.args[1].find("[stage]") != std::string::npos) slack = 2000 * MS;
  auto near = slack + 100 * MS;
  std::map<int, std::vector<std::pair<Time, Time>>> skip;      // per key intervals which are not judged
  std::set<std::pair<int64_t, int64_t>> down;
  // strokes during which the configuration was loaded again, the device was not
  // under control, or another key was involved are not judged
  std::vector<Time> reload;
  std::map<int, std::pair<Time, Time>> grabs;     // device, time under control
  for (auto& e : W->log) {
    if (e.type == R_OP && (e.s == "tray Reload" || e.s.rfind("unplug", 0) == 0 || e.s.rfind("replug", 0) == 0)) reload.push_back(e.t);
    if (e.type == R_GRAB && !grabs.count((int)e.a)) grabs[(int)e.a] = { e.t, end };
    if (e.type == R_UNPLUG && grabs.count((int)e.a)) grabs[(int)e.a].second = e.t;
  }
  std::map<std::pair<int, int>, size_t> open;
  std::map<int, const Rec*> last_key;
  std::map<int, std::deque<const Rec*>> phys;
  auto seq_unknown = false;
  for (auto& e : W->log) {
    if (e.type == R_PHYS && e.b == EV_KEY && e.t >= ready) phys[(int)e.a].push_back(&e);
    if (e.type != R_DREAD || e.b != EV_KEY || e.t < ready) continue;
    auto& q = phys[(int)e.a];
    while (!q.empty() && (q.front()->c != e.c || q.front()->d != e.d)) q.pop_front();
    if (q.empty()) { seq_unknown = true; break; }
    auto t = q.front()->t;
    q.pop_front();
    if (!plain.count((int)e.c)) continue;
    want.push_back({ e.t, (int)e.c, (int)e.d, t });
    // the device was taken over while it was held for long
    if (e.d == 0 && !down.count({ e.a, e.c })) skip[(int)e.c].push_back({ e.t - 1 * MS, e.t + near });
    if (e.d == 1) down.insert({ e.a, e.c });
    if (e.d == 0) down.erase({ e.a, e.c });
  }
  if (seq_unknown) return;
  // events which were made but never read, while the devices stayed under control
  Time first_ungrab = W->now;
  for (auto& e : W->log)
    if (e.type == R_UNGRAB && e.proc >= 0 && e.t >= ready) { first_ungrab = e.t; break; }
  for (auto& e : W->log) {
    if (e.type != R_PHYS || e.b != EV_KEY || e.t < ready || !plain.count((int)e.c) || e.t > first_ungrab - 6 * SEC) continue;
    auto g = grabs.find((int)e.a);
    if (g == grabs.end() || e.t < g->second.first || e.t > g->second.second - 50 * MS) continue;
    auto n = std::count_if(W->log.begin(), W->log.end(), [&](const Rec& x) {
      return x.type == R_DREAD && x.a == e.a && x.b == EV_KEY && x.c == e.c && x.d == e.d && x.t >= e.t; });
    auto m = std::count_if(W->log.begin(), W->log.end(), [&](const Rec& x) {
      return x.type == R_PHYS && x.a == e.a && x.b == EV_KEY && x.c == e.c && x.d == e.d && x.t >= e.t; });
    auto gone = std::any_of(reload.begin(), reload.end(), [&](Time t) { return t >= e.t; });
    if (n < m && !gone) { fail(o, "not passed through: " + event_text((int)e.c, (int)e.d) + " was never read"); return; }
  }
  for (auto& e : desktop_events(ready))
    if (plain.count(e.key)) got.push_back({ e.t, e.key, e.value, e.t });
  for (size_t i = 0; i < want.size(); ++i) {
    if (want[i].value != 1) continue;
    Time up = W->now;
    for (auto j = i + 1; j < want.size(); ++j)
      if (want[j].key == want[i].key && want[j].value == 0) { up = want[j].t; break; }
    for (auto t : reload)
      if (t + near >= want[i].t && t - 100 * MS <= up)
        skip[want[i].key].push_back({ want[i].t, up + near });
  }
  // a press that was never read by the daemon was seen directly
  for (auto& e : W->log)
    if (e.type == R_DESK && !e.d && plain.count((int)e.b)) skip[(int)e.b].push_back({ e.t - 1 * MS, e.t + near });
  // neighbouring strokes of the same key cannot be told apart
  for (auto& [key, list] : skip)
    for (auto changed = true; changed; ) {
      changed = false;
      for (auto& [a, b] : list)
        for (auto& e : want)
          if (e.key == key && e.t >= a - near && e.t <= b + near && (e.t < a || e.t + near > b)) {
            a = std::min(a, e.t);
            b = std::max(b, e.t + near);
            changed = true;
          }
    }
  auto skipped = [&](const Ev& e) {
    for (auto& [a, b] : skip[e.key])
      if (e.t >= a && e.t <= b) return true;
    return false;
  };
  auto filter = [&](std::vector<Ev>& v) {
    std::vector<Ev> r;
    for (auto& e : v) if (!skipped(e)) r.push_back(e);
    v = r;
  };
  filter(want);
  filter(got);
  // repeats are only promised for undisturbed single keys
  auto single = true;
  auto pressed = 0;
  auto on_release = false;
  for (auto& op : s.ops) on_release |= op.name == "conf" && op.args[1].find('^') != std::string::npos;
  auto last = true, before = true;         // presses of keys without a mapping
  for (auto& e : W->log)
    if (e.type == R_PHYS && e.b == EV_KEY && e.t >= ready) {
      if (e.d == 2 && pressed != 1) single = false;
      // a press can end what was held back, its output on release then waits for this key
      if (e.d == 1) before = std::exchange(last, plain.count((int)e.c) > 0);
      if (e.d == 2 && on_release && last && !before) single = false;
      if (e.d != 2) pressed += e.d ? 1 : -1;
    }
  if (!s.num("repeats") || !single) {
    auto no_rep = [](std::vector<Ev>& v) { v.erase(std::remove_if(v.begin(), v.end(), [](const Ev& e) { return e.value == 2; }), v.end()); };
    no_rep(want);
    no_rep(got);
  }
  o.probes["passed_events"] = want.size();
  for (size_t i = 0; i < std::max(want.size(), got.size()); ++i) {
    auto w = i < want.size() ? event_text(want[i].key, want[i].value) : "nothing";
    auto g = i < got.size() ? event_text(got[i].key, got[i].value) : "nothing";
    if (w != g) {
      fail(o, "not passed through: unmapped key, desktop saw " + g + " instead of " + w);
      return;
    }
    // a device is only taken over while none of its keys is down, others have to wait
    auto waiting = std::any_of(reload.begin(), reload.end(), [&](Time t) { return t <= want[i].phys && want[i].phys - t < 6 * SEC; });
    if (!s.num("delays") && !waiting && (got[i].t < want[i].phys || got[i].t - want[i].phys > slack)) {
      fail(o, "delayed: unmapped key, desktop saw " + g + " " + S((got[i].t - want[i].phys) / MS) + " ms after it happened");
      return;
    }
  }
}

//---------------------------------------------------------------- C05
static std::string condition(Rng& r, bool dbus) {
  static const std::vector<std::string> w = { "Editor", "Firefox", "Term", "Other", "page", "file", "second" };
  static const std::vector<std::string> cl = { "editor", "browser", "term", "other", "edit" };
  static const std::vector<std::string> pa = { "editor", "bin/", "/opt/other", "firefox", "usr" };
  auto pick = [&](const std::vector<std::string>& v) { return v[(size_t)r.range(0, (int64_t)v.size() - 1)]; };
  std::string c;
  bool device[2] = { };
  auto comma = r.chance(0.2);
  auto add = [&](const std::string& x) { c += (c.empty() ? "" : comma ? ", " : " ") + x; };
  auto n = r.chance(0.1) ? 3 : r.range(1, 2);
  for (auto i = 0; i < n; ++i) {
    std::string op = r.chance(0.25) ? "!=" : "=";
    if (r.chance(0.2)) op = " " + op + " ";
    // regular expressions
    if (r.chance(0.25)) {
      static const std::vector<std::string> we = { "^Editor", "term$", "TERM", "Fire.*page", "(Other|Editor)", "file\\.txt", "^Firefox$", "e.*e", "[O-T]" };
      static const std::vector<std::string> ce = { "^edit", "r$", "BROWSER|term", "^o", "^edit$", "[bt]" };
      static const std::vector<std::string> de = { "One", "two", "^Keyboard", "(One|Two)$", "board.T", "kb1", "kb0-", "^usb" };
      auto e = [&](const std::vector<std::string>& v) { return "/" + pick(v) + "/" + (r.chance(0.5) ? "i" : ""); };
      switch (r.range(0, 4)) {
        case 0: case 1: if (c.find("title") == std::string::npos) add("title" + op + e(we)); break;
        case 2: if (c.find("class") == std::string::npos) add("class" + op + e(ce)); break;
        case 3: {
          auto id = r.chance(0.5);
          if (!std::exchange(device[id], true)) add((id ? "device-id" : "device") + op + e(de));
          break;
        }
        case 4: if (c.find("system") == std::string::npos) add("system" + op + (r.chance(0.7) ? "\"Linux\"" : "\"Windows\"")); break;
      }
      continue;
    }
    switch (r.range(0, 5)) {
      case 0: case 1: if (c.find("title") == std::string::npos) add("title" + op + "\"" + pick(w) + "\""); break;
      case 2: if (c.find("class") == std::string::npos) add("class" + op + "\"" + pick(cl) + "\""); break;
      case 3: if (!dbus && c.find("path") == std::string::npos) add("path" + op + "\"" + pick(pa) + "\""); break;
      case 4: {
        auto id = device[0] ? r.chance(0.7) : r.chance(0.3);
        if (std::exchange(device[id], true)) break;
        if (id) add("device-id" + op + "\"usb-kb" + S(r.range(0, 1)) + "-event-kbd\"");
        else add("device" + op + "\"Keyboard " + (r.chance(0.5) ? "One" : "Two") + "\"");
        break;
      }
      case 5: if (c.find("modifier") == std::string::npos) {
          auto key = [&] { return (r.chance(0.3) ? "!" : "") + (r.chance(0.5) ? "Virtual" + S(r.range(1, 3)) : MODS[(size_t)r.range(0, 3)]); };
          auto keys = key();
          if (r.chance(0.3)) keys += " " + key();
          add("modifier" + op + "\"" + keys + "\"");
        }
        break;
    }
  }
  return c.empty() ? "default" : c;
}

// indices of contexts and commands do not fit in few bits
static std::string many_contexts(Rng& r) {
  std::string t;
  auto n = r.range(100, 400);
  for (auto i = 0; i < n; ++i)
    t += "[title=\"Nowhere" + S(i) + "\"]\n" + (r.chance(0.3) ? "A >> Z\n" : "F12 >> F11\n");
  return t;
}
static std::string many_commands(Rng& r) {
  std::string t = "[title=\"Nowhere\"]\n";
  auto n = r.range(100, 400);
  for (auto i = 0; i < n; ++i)
    t += std::string(1, (char)('A' + i / 26)) + " " + std::string(1, (char)('A' + i % 26)) + " >> $(filler" + S(i) + ")\n";
  return t + "[default]\n";
}

static void gen_c05(Scenario& s, Rng& r) {
  Setup u;
  u.windows = WINDOWS;
  u.focus = r.chance(0.1) ? -1 : (int)r.range(0, 3);
  u.keyboards = r.chance(0.5) ? 2 : 1;
  if (r.chance(0.5)) {
    // model: mappings of few keys in many contexts
    // X11, a desktop announcing windows using D-Bus or a Wayland compositor, the last two maybe with some X11 windows
    auto dbus = r.chance(0.2), wayland = !dbus && r.chance(0.4);
    if (dbus) s.set("dbus", 1);
    if (wayland) s.set("wayland", 1);
    if (dbus || wayland) {
      s.set("x11", r.chance(0.3));
      if (s.num("x11", 1)) s.set("native", r.range(1, 255));
    }
    std::string t;
    auto trig = std::vector<std::string>{ "A", "S", "D", "CapsLock" };
    auto n = r.range(2, 7);
    auto out = 0;
    if (r.chance(0.3)) t += "A >> " + OUTK[(size_t)out++ % OUTK.size()] + "\n";
    if (r.chance(0.02)) t += many_contexts(r);
    for (auto i = 0; i < n; ++i) {
      if (i && t.find(">>") != std::string::npos && r.chance(0.1)) t += "[stage]\n";
      t += "[" + condition(r, dbus || wayland) + "]\n";
      if (r.chance(0.25) && i < n - 1) continue;
      if (r.chance(0.1)) t += "ContextActive >> " + OUTK[(size_t)out++ % OUTK.size()] + "\n";
      else if (r.chance(0.25)) t += "ContextActive >> $(active" + S(i) + ") ^ " + OUTK[(size_t)out++ % OUTK.size()] + "\n";
      auto m = r.range(1, 3);
      for (auto k = 0; k < m; ++k) {
        auto key = trig[(size_t)r.range(0, 3)];
        t += (r.chance(0.2) ? MODS[(size_t)r.range(0, 3)] + "{" + key + "}" : key) + " >> " + OUTK[(size_t)out++ % OUTK.size()] + "\n";
      }
    }
    if (r.chance(0.5)) t += "[default]\nF1 >> Virtual" + S(r.range(1, 3)) + "\n";
    u.conf = t;
    // windows are only announced when they get the focus
    if (dbus) u.focus = -1;
    prologue(s, r, u);
    if (dbus) { s.pin(600000, "focus", { S(r.range(0, 3)) }); s.pin(600000, "wait"); }
    s.set("variants", 1);
    if (r.chance(0.4)) add_faults(s, r, FS_TIMING | (r.chance(0.3) ? FS_FRAG | FS_EINTR : 0));
    std::vector<std::pair<std::string, std::string>> keys;
    for (auto i = 0; i < u.keyboards; ++i) {
      for (auto& k : trig) keys.push_back({ "kb" + S(i), k });
      keys.push_back({ "kb" + S(i), "F1" });
      for (auto k = 0; k < 4; ++k) if (r.chance(0.4)) keys.push_back({ "kb" + S(i), MODS[(size_t)k] });
    }
    Typist ty{ s, r, {} };
    auto strokes = r.range(10, 50);
    std::vector<int> open = { 0, 1, 2, 3 };
    auto windows = 4;
    for (auto i = 0; i < strokes; ++i) {
      if (r.chance(0.15)) {
        auto c = r.range(0, 13);
        auto w = (size_t)r.range(0, (int64_t)open.size() - 1);
        if (c < 6) s.add(600000, "focus", { S(open[w]) });
        else if (c < 8) s.add(600000, "retitle", { S(open[w]), r.chance(0.5) ? "Editor - second" : "Firefox - file" });
        else if (c < 9) s.add(600000, "winstate", { S(open[w]), r.chance(0.5) ? "max" : r.chance(0.5) ? "min" : "" });
        else if (c < 10 && open.size() > 1) {
          s.add(600000, "close", { S(open[w]) });
          open.erase(open.begin() + (long)w);
        }
        else if (c < 12 && windows < 8) {
          s.pin(600000, "window", WINDOWS[(size_t)r.range(0, 3)]);
          open.push_back(windows++);
        }
        else if (c < 13 && r.chance(0.3)) {
          ty.release_all(600000);
          if (r.chance(0.4)) s.add(600000, "tray", { "Reload" });
          else {
            auto p = dbus || r.chance(0.5) ? "daemon" : "client";
            s.add(600000, "kill", { p });
            s.add(600000, "ensure", { p });
            s.add(4000000, "wait");
          }
        }
        else if (c < 13 && r.chance(0.5)) s.add(600000, "tray", { "Active" });
        else s.add(600000, "ctl", { "--toggle", "Virtual" + S(r.range(1, 3)) });
        s.add(600000, "wait");
        continue;
      }
      ty.random(std::min<int64_t>(human_gap(r), 200000), keys, 3, 0.03);
    }
  }
  else {
    // contexts which are never active are added and must not change anything
    ConfOpts b;
    b.mouse = b.history = false;
    auto conf = random_config(r, swarm(r, b));
    u.conf = conf.text;
    prologue(s, r, u);
    s.set("variants", 2);
    s.set("base_cost_ns", 500);
    ConfOpts o = swarm(r, b);
    o.contexts = o.stages = o.abstract = o.forward_mods = false;
    auto add = random_config(r, o).text;
    // own names for commands, so that they are told apart
    for (size_t p = 0; (p = add.find("$(prog", p)) != std::string::npos; p += 9) add.replace(p, 6, "$(never");
    static const std::vector<std::string> never = { "title=\"No such window\"", "class=\"none\"", "class=\"edito\"", "modifier=\"Virtual77\"", "title=\"Editor\" class=\"none\"", "title!=\"\" class=\"none\"" };
    s.set("never", "[" + never[(size_t)r.range(0, 4)] + "]\n" + add);
    s.set("never_at", r.range(0, 3));
    auto keys = pick_keys(r, u, 0.6, 0.4, 0.2);
    SafeTime st;
    Typist ty{ s, r, {} };
    auto strokes = r.range(6, 40);
    for (auto i = 0; i < strokes; ++i) {
      if (r.chance(0.08)) { s.add(st.gap(700000), "focus", { S(r.range(-1, 3)) }); s.add(st.gap(700000), "wait"); continue; }
      if (r.chance(0.04)) { s.add(st.gap(700000), "ctl", { "--toggle", "Virtual" + S(r.range(1, 4)) }); s.add(st.gap(700000), "wait"); continue; }
      ty.random(st.gap(std::min<int64_t>(human_gap(r), 700000)), keys, 4, 0);
    }
    s.pin(st.gap(300000), "wait");
  }
  s.pin(600000, "releaseall");
  s.pin(2500000, "mark", { "end" });
}

static void variant_c05(Scenario& s, int) {
  auto never = s.get("never");
  if (never.empty()) return;
  for (auto& op : s.ops)
    if (op.name == "conf") {
      auto& t = op.args[1];
      // before the n-th context or at the end
      size_t pos = 0;
      std::vector<size_t> at;
      while ((pos = t.find("\n[", pos)) != std::string::npos) {
        // consecutive blocks share mappings, so they are not to be separated
        auto last = t.find_last_not_of('\n', pos);
        if (t.compare(pos + 2, 5, "stage") != 0 && (last == std::string::npos || t[last] != ']')) at.push_back(pos + 1);
        ++pos;
      }
      auto n = (size_t)s.num("never_at");
      auto where = n < at.size() ? at[n] : t.size();
      t = t.substr(0, where) + "\n" + never + "\n" + t.substr(where);
    }
}

static void check_c05(const Scenario& s, Outcome& o) {
  if (!conf_accepted()) { o.probes["rejected"] = 1; return; }
  if (s.get("never").empty()) {
    ModelOptions m;
    m.check_commands = true;
    compare_with_model(s, o, m);
  }
  else {
    o.projection = projection(mark_time("ready"));
    o.probes["metamorphic_runs"] = 1;
    o.probes["compared_events"] = desktop_events(mark_time("ready")).size();
  }
}

static std::string compare_c05(const Scenario&, std::vector<Outcome>& o) {
  if (o[1].get("rejected")) return {};
  return compare_projection("inactive context matters: the system answers", o);
}

//---------------------------------------------------------------- C11
// keys only start commands, which tell their key and configuration, while configurations are exchanged
static const std::vector<std::string> RACE_KEYS = { "A", "B", "C", "D", "E", "F" };
static std::string race_config(Rng& r, int64_t generation, bool delays) {
  auto keys = RACE_KEYS;
  for (size_t i = keys.size(); i > 1; --i) std::swap(keys[i - 1], keys[(size_t)r.range(0, (int64_t)i - 1)]);
  std::string text;
  auto delay = [&]() { return delays && r.chance(0.5) ? S(r.range(5, 300)) + "ms " : std::string(); };
  for (auto& k : keys) text += k + " >> " + delay() + delay() + "$(cmd" + S(generation) + "-" + k + ") " + delay() + "^\n";
  return text;
}
static void gen_c11_race(Scenario& s, Rng& r) {
  Setup u;
  auto delays = r.chance(0.4);
  u.conf = race_config(r, 0, delays);
  auto update = r.chance(0.5);
  if (update) u.client_args = { "-u" };
  prologue(s, r, u);
  s.set("race", 1);
  if (r.chance(0.4))
    add_faults(s, r, FS_TIMING | (r.chance(0.5) ? FS_FRAG | FS_EINTR : 0));
  auto generations = r.range(1, 4);
  for (int64_t g = 1; g <= generations; ++g) {
    auto taps = [&](int64_t n) {
      for (int64_t i = 0; i < n; ++i) {
        auto c = S(key_code(RACE_KEYS[(size_t)r.range(0, (int64_t)RACE_KEYS.size() - 1)]));
        s.add(r.chance(0.7) ? r.range(200, 60000) : r.range(60000, 400000), "key", { "kb0", c, "1" });
        s.add(r.range(200, 60000), "key", { "kb0", c, "0" });
      }
    };
    taps(r.range(0, 6));
    auto text = race_config(r, g, delays);
    auto other = std::string(CONF) + ".other" + S(g);
    if (!update && r.chance(0.4)) {
      s.add(r.range(0, 50000), "conf", { other, text });
      s.add(r.range(200, 100000), "ctl", { "--set-config", other });
    }
    else {
      s.add(r.range(0, 50000), "conf", { CONF, text });
      if (!update) s.add(r.range(200, 100000), "tray", { "Reload" });
    }
    taps(r.range(2, delays ? 6 : 20));
    s.add(r.range(0, 3000000), "wait");
  }
  s.pin(600000, "releaseall");
  s.pin(delays ? 30000000 : 1500000, "mark", { "end" });
}
static void check_c11_race(const Scenario& s, Outcome& o) {
  for (auto& op : s.ops)
    if (op.name == "conf")
      for (auto& k : RACE_KEYS)
        if (("\n" + op.args[1]).find("\n" + k + " >>") == std::string::npos) return;
  for (auto& e : W->log)
    if (e.type == R_EXIT && (W->procs[(size_t)e.proc]->kind == P_DAEMON || W->procs[(size_t)e.proc]->kind == P_CLIENT)) { o.probes["ended"] = 1; return; }
  struct Press { std::string key; bool passed; };
  std::vector<Press> presses;
  auto next = size_t{ };
  auto generation = 0;
  Time ready = mark_time("ready"), reload = -1;
  // a new configuration and the contexts which are active in it are two messages,
  // keys are not mapped in between
  auto skip = [&]() { while (next < presses.size() && presses[next].passed) { ++next; ++o.probes["unmapped_during_reload"]; } };
  for (auto& e : W->log) {
    if (e.type == R_OP && (e.s.rfind("tray", 0) == 0 || e.s.rfind("ctl", 0) == 0 || e.s.rfind("conf", 0) == 0)) reload = e.t;
    if (e.type == R_PHYS && e.b == EV_KEY && e.d == 1 && e.t > ready) presses.push_back({ key_name((int)e.c), false });
    if (e.type == R_DESK && e.c == 1) {
      auto key = key_name((int)e.b);
      auto it = std::find_if(presses.rbegin(), presses.rend(), [&](auto& p) { return p.key == key; });
      if (reload < 0 || e.t > reload + 3 * SEC || it == presses.rend() || it->passed)
        return fail(o, "output: " + key + " was sent, although all keys start commands");
      it->passed = true;
    }
    if (e.type != R_EXEC || e.s.rfind("cmd", 0) != 0) continue;
    ++o.probes["commands"];
    ++o.probes["compared_events"];
    auto g = atoi(e.s.c_str() + 3);
    auto key = e.s.substr(e.s.find('-') + 1);
    skip();
    if (next >= presses.size()) return fail(o, "additional command: " + e.s + " was started without a key");
    if (presses[next].key != key)
      return fail(o, "exchanged command: " + presses[next].key + " started " + e.s);
    if (g < generation) return fail(o, "old command: " + e.s + " was started after one of configuration " + S(generation));
    generation = g;
    ++next;
  }
  skip();
  if (next < presses.size()) return fail(o, "lost command: " + presses[next].key + " started nothing");
}

// commands are whole shell scripts
static std::string long_command(Rng& r, int64_t i) {
  static const std::vector<std::string> words = { "-a", "\"two words\"", "'single #1'", "a=b", "(sub)", "; then", "&& next", "| sort", "> file", "2>&1",
    "\xc3\xa4\xc3\xb6", "a\\\\b", "*.txt", "[x]", "{1,2}", "a >> b", "~/x", "%d", "--key=A", "<in" };
  auto t = "long" + S(i);
  auto len = (size_t)(r.chance(0.8) ? r.range(10, 120) : r.chance(0.8) ? r.range(120, 3000) : r.range(3000, 70000));
  while (t.size() < len) t += " " + words[(size_t)r.range(0, (int64_t)words.size() - 1)];
  return t;
}

static void gen_c11(Scenario& s, Rng& r) {
  if (r.chance(0.25)) return gen_c11_race(s, r);
  ConfOpts b;
  b.timeouts = b.not_timeouts = b.delays = b.strings = b.history = b.forward_mods = b.mouse = false;
  auto o = swarm(r, b);
  o.commands = true;
  auto conf = random_config(r, o);
  auto extra = [&](std::string& text) {
    std::string t;
    auto n = r.range(1, 5);
    for (auto i = 0; i < n; ++i) {
      auto k = TRIG[(size_t)r.range(0, 9)];
      switch (r.chance(0.1) ? 5 : r.range(0, 4)) {
        case 0: t += k + " >> $(run" + S(i) + " -a) ^\n"; break;
        case 1: t += k + " >> $(run" + S(i) + " -b)\n"; break;
        case 2: t += k + " >> $(run" + S(i) + ") ^ $(after" + S(i) + ")\n"; break;
        case 3: t += k + " >> X $(run" + S(i) + ") Y ^\n"; break;
        case 4: t += "Control{" + k + "} >> $(run" + S(i) + ") $(then" + S(i) + ") ^\n"; break;
        case 5: t += k + " >> $(" + long_command(r, i) + ") ^\n"; break;
      }
    }
    text = t + text;
  };
  extra(conf.text);
  if (r.chance(0.02)) conf.text = many_commands(r) + conf.text;
  Setup u;
  u.conf = conf.text;
  u.keyboards = r.chance(0.3) ? 2 : 1;
  u.windows = WINDOWS;
  u.focus = r.chance(0.1) ? -1 : (int)r.range(0, 3);
  prologue(s, r, u);
  if (r.chance(0.6))
    add_faults(s, r, FS_TIMING | (r.chance(0.5) ? FS_FRAG | FS_EINTR : 0));
  auto keys = pick_keys(r, u, 0.8, 0.3, 0.1);
  Typist t{ s, r, {} };
  auto n = r.range(6, 50);
  auto others = r.range(0, 4);
  auto restarts = r.chance(0.15);
  for (auto i = 0; i < n; ++i) {
    if (others && r.chance(0.12)) {
      --others;
      auto c = r.range(0, 9);
      if (c < 4) s.add(600000, "focus", { S(r.range(0, 3)) });
      else if (c < 6) s.add(600000, "ctl", { r.chance(0.6) ? "--toggle" : "--is-pressed", "Virtual" + S(r.range(1, 4)) });
      else if (c < 8) {
        t.release_all(600000);
        auto k = r.range(0, 9);
        // the message about an error is no command
        if (k < 2) s.add(600000, "conf", { CONF, r.chance(0.5) ? "[title=\"NoSuchKey\"] $(other" + S(i) + ")\n" : "@include \"NoSuchKey`other" + S(i) + "`\"\n" });
        else if (k < 7) { auto c2 = random_config(r, o); extra(c2.text); s.add(600000, "conf", { CONF, c2.text }); }
        s.add(600000, "tray", { "Reload" });
      }
      else if (restarts) {
        t.release_all(600000);
        auto p = r.chance(0.5) ? "client" : "daemon";
        s.add(600000, "kill", { p });
        s.add(600000, "ensure", { p });
        s.add(4000000, "wait");
      }
      s.add(600000, "wait");
      continue;
    }
    t.random(human_gap(r), keys, 4, 0.1);
  }
  s.pin(600000, "releaseall");
  s.pin(1500000, "mark", { "end" });
}

static void check_c11(const Scenario& s, Outcome& o) {
  if (!conf_accepted()) { o.probes["rejected"] = 1; return; }
  if (s.num("race")) return check_c11_race(s, o);
  ModelOptions m;
  m.check_commands = true;
  m.quiet = 500 * MS;
  compare_with_model(s, o, m);
}

//---------------------------------------------------------------- C12
static void gen_c12(Scenario& s, Rng& r) {
  Setup u;
  u.keyboards = r.chance(0.3) ? 2 : 1;
  u.windows = WINDOWS;
  u.focus = r.chance(0.1) ? -1 : (int)r.range(0, 3);
  // names which are defined in some of the configurations
  static const std::vector<std::string> names = { "Mode", "Layer2", "Boss_Key" };
  auto use_aliases = r.chance(0.3);
  std::set<std::string> defined;
  auto vname = [&](bool any = false) {
    if (use_aliases && r.chance(0.4)) {
      auto& n = names[(size_t)r.range(0, 2)];
      if (any || defined.count(n)) return n;
    }
    return "Virtual" + S(r.chance(0.15) ? r.range(5, 255) : r.range(1, 4));
  };
  auto make_conf = [&]() {
    std::string t;
    defined.clear();
    if (use_aliases)
      for (auto& n : names)
        if (r.chance(0.7)) {
          auto v = vname();
          if (!defined.count(n) && v != n) t += n + " = " + v + "\n";
          defined.insert(n);
        }
    auto n = r.range(2, 7);
    for (auto i = 0; i < n; ++i) {
      auto k = TRIG[(size_t)r.range(0, 7)], v = vname();
      if (r.chance(0.1)) t += "[title=\"Editor\"]\n";
      switch (r.range(0, 7)) {
        case 0: case 1: t += k + " >> " + v + "\n"; break;
        case 2: t += k + " >> " + v + " ^ " + v + "\n"; break;
        case 3: t += v + "{" + k + "} >> " + OUTK[(size_t)i] + "\n"; break;
        case 4: t += "!" + v + " " + k + " >> " + OUTK[(size_t)i] + "\n"; break;
        case 5:
          t += k + " >> X " + v + " Y";
          if (r.chance(0.2)) for (auto m = r.range(1, 5); m > 0; --m) t += " " + vname();
          t += "\n";
          break;
        case 6: t += "[modifier=\"" + std::string(r.chance(0.4) ? "!" : "") + v + "\"]\n" + k + " >> " + OUTK[(size_t)i] + "\n"; break;
        case 7: t += v + " >> " + OUTK[(size_t)i] + (r.chance(0.5) ? " ^ " + OUTK[(size_t)i + 3] : "") + "\n"; break;
      }
    }
    return t;
  };
  u.conf = make_conf();
  prologue(s, r, u);
  if (r.chance(0.6))
    add_faults(s, r, FS_TIMING | (r.chance(0.5) ? FS_FRAG | FS_EINTR : 0));
  std::vector<std::pair<std::string, std::string>> keys;
  for (auto i = 0; i < u.keyboards; ++i)
    for (size_t k = 0; k < 8; ++k) if (r.chance(0.7)) keys.push_back({ "kb" + S(i), TRIG[k] });
  if (keys.empty()) keys.push_back({ "kb0", "A" });
  Typist t{ s, r, {} };
  auto n = r.range(4, 25);
  auto restarts = r.chance(0.2);
  auto query = [&]() {
    std::set<std::string> used = { "1", "2", "3", "4" };
    for (auto& op : s.ops)
      for (auto& a : op.args)
        for (size_t p = 0; (p = a.find("Virtual", p)) != std::string::npos; ++p) {
          auto e = p + 7;
          while (e < a.size() && isdigit((unsigned char)a[e])) ++e;
          used.insert(a.substr(p + 7, e - p - 7));
        }
    for (auto& v : used) s.add(500000, "ctl", { r.chance(0.5) ? "--is-pressed" : "--is-released", "Virtual" + v });
    s.add(500000, "wait");
  };
  auto changes = r.range(0, 2);
  for (auto i = 0; i < n; ++i) {
    auto c = r.range(0, 99);
    if (c < 55) { t.random(human_gap(r), keys, 3, 0.05); continue; }
    s.add(500000, "wait");
    if (c < 75) s.add(500000, "ctl", { r.chance(0.4) ? "--toggle" : r.chance(0.5) ? "--press" : "--release", vname(true) });
    else if (c < 82) s.add(500000, "focus", { S(r.range(0, 3)) });
    else if (c < 92) { if (r.chance(0.3)) query(); else s.add(500000, "ctl", { "--is-pressed", vname(true) }); }
    else if (changes) {
      --changes;
      t.release_all(500000);
      if (restarts && r.chance(0.5)) {
        auto p = r.chance(0.5) ? "client" : "daemon";
        s.add(500000, "kill", { p });
        s.add(500000, "ensure", { p });
        s.add(4000000, "wait");
      }
      else {
        if (r.chance(0.5)) s.add(500000, "conf", { CONF, make_conf() });
        s.add(500000, "tray", { "Reload" });
      }
      query();
    }
    s.add(500000, "wait");
  }
  t.release_all(600000);
  query();
  s.pin(1000000, "mark", { "end" });
}

static void check_c12(const Scenario& s, Outcome& o) {
  if (!conf_accepted()) { o.probes["rejected"] = 1; return; }
  compare_with_model(s, o, { });
}

//---------------------------------------------------------------- C14
static void gen_c14(Scenario& s, Rng& r) {
  ConfOpts b;
  b.timeouts = b.not_timeouts = b.delays = b.strings = b.history = b.forward_mods = b.mouse = false;
  auto conf = random_config(r, swarm(r, b));
  Setup u;
  u.conf = conf.text;
  u.windows = WINDOWS;
  u.focus = r.chance(0.1) ? -1 : (int)r.range(0, 3);
  prologue(s, r, u);
  if (r.chance(0.5))
    add_faults(s, r, FS_TIMING | (r.chance(0.5) ? FS_FRAG | FS_EINTR : 0));
  auto keys = pick_keys(r, u, 0.5, 0.3, 0.3);
  Typist t{ s, r, {} };
  auto n = r.range(3, 14);
  auto key = [&](bool in) {
    auto& v = in ? (r.chance(0.7) ? TRIG : PLAIN) : r.chance(0.7) ? OUTK : TRIG;
    return v[(size_t)r.range(0, (int64_t)v.size() - 1)];
  };
  for (auto i = 0; i < n; ++i) {
    if (r.chance(0.5)) { t.random(human_gap(r), keys, 3, 0); continue; }
    auto in = r.chance(0.5);
    std::string q;
    auto len = r.chance(0.1) ? r.range(10, 120) : r.range(1, 4);
    for (auto k = 0; k < len; ++k) {
      if (k) q += " ";
      auto c = r.range(0, 9);
      static const std::vector<std::string> lm = { "Shift", "Control", "AltLeft", "Meta", "ShiftRight" };
      if (c < 5) q += key(in);
      else if (c < 8) q += lm[(size_t)r.range(0, 4)] + "{" + key(in) + "}";
      else q += lm[(size_t)r.range(0, 1)] + "{" + lm[(size_t)r.range(2, 4)] + "{" + key(in) + "}}";
    }
    if (r.chance(0.1)) q += r.chance(0.5) ? " NoSuchKey" : " A{";
    s.add(600000, "ctl", { in ? "--input" : "--output", q });
    s.add(600000, "wait");
  }
  s.pin(600000, "releaseall");
  s.pin(1000000, "mark", { "end" });
}

static void check_c14(const Scenario& s, Outcome& o) {
  if (!conf_accepted()) { o.probes["rejected"] = 1; return; }
  compare_with_model(s, o, { });
  o.probes["injections"] = 0;
  for (auto& op : s.ops) if (op.name == "ctl") ++o.probes["injections"];
}

//---------------------------------------------------------------- C19
static void gen_c19(Scenario& s, Rng& r) {
  ConfOpts b;
  b.timeouts = b.not_timeouts = b.delays = b.strings = b.history = b.forward_mods = b.mouse = false;
  auto o = swarm(r, b);
  auto conf = random_config(r, o);
  Setup u;
  u.conf = conf.text;
  u.keyboards = r.chance(0.3) ? 2 : 1;
  u.windows = WINDOWS;
  u.focus = r.chance(0.1) ? -1 : (int)r.range(0, 3);
  prologue(s, r, u);
  if (r.chance(0.5))
    add_faults(s, r, FS_TIMING | (r.chance(0.3) ? FS_FRAG | FS_EINTR : 0));
  auto keys = pick_keys(r, u, 0.6, 0.4, 0.2);
  Typist t{ s, r, {} };
  auto n = r.range(6, 50);
  for (auto i = 0; i < n; ++i) {
    if (r.chance(0.2)) {
      auto c = r.range(0, 11);
      s.add(600000, "wait");
      if (c < 5) s.add(600000, "tray", { "Active" });
      else if (c < 7) s.add(600000, "focus", { S(r.range(0, 3)) });
      else if (c < 8) s.add(600000, "ctl", { "--toggle", "Virtual" + S(r.range(1, 4)) });
      else if (c < 10) {
        t.release_all(600000);
        if (r.chance(0.4)) s.add(600000, "conf", { CONF, random_config(r, o).text });
        s.add(600000, "tray", { "Reload" });
      }
      else if (c < 11 && r.chance(0.3)) {
        t.release_all(600000);
        auto p = r.chance(0.5) ? "client" : "daemon";
        s.add(600000, "kill", { p });
        s.add(600000, "ensure", { p });
        s.add(4000000, "wait");
      }
      s.add(600000, "wait");
      continue;
    }
    t.random(human_gap(r), keys);
  }
  s.pin(600000, "releaseall");
  s.pin(1500000, "mark", { "end" });
}

static void check_c19(const Scenario& s, Outcome& o) {
  if (!conf_accepted()) { o.probes["rejected"] = 1; return; }
  compare_with_model(s, o, { });
  for (auto& op : s.ops) if (op.name == "tray" && op.args[0] == "Active") ++o.probes["pauses"];
  // the menu shows whether it is paused
  std::map<int, bool> paused;
  for (auto& e : W->log) {
    if (e.type == R_TRAY && e.s == "Active" && e.a) paused[e.proc] ^= true;
    if (e.type == R_SHOWN && e.s == "Active" && (e.a != 0) == paused[e.proc])
      return fail(o, std::string("wrong menu: mapping is shown as ") + (e.a ? "active" : "paused"));
  }
}

void register_context(std::vector<Property>& list) {
  auto compared = [](const Outcome& o) { return o.get("compared_events") >= 4; };
  list.push_back({ "C02", "past input has no influence after a rest", gen_c02, check_c02, 2, variant_c02, compare_c02,
    "the configuration was accepted and at least 4 key events after the rest were compared with a fresh start",
    [](const Outcome& o) { return o.get("probe_events") >= 4; }, 12000, "" });
  list.push_back({ "C03", "unmapped keys pass through", gen_c03, check_c03, 1, nullptr, nullptr,
    "the configuration was accepted and at least 4 events of unmapped keys were compared",
    [](const Outcome& o) { return o.get("passed_events") >= 4; }, 20000, "" });
  list.push_back({ "C05", "contexts", gen_c05, check_c05, 2, variant_c05, compare_c05,
    "at least 4 key events were compared with the model or between the configurations with and without inactive contexts", compared, 20000, "" });
  list.push_back({ "C11", "terminal commands", gen_c11, check_c11, 1, nullptr, nullptr,
    "at least one triggered command and 4 key events were compared with the model",
    [](const Outcome& o) { return o.get("compared_events") >= 4 && o.get("compared_commands") >= 1; }, 20000, "" });
  list.push_back({ "C12", "virtual keys", gen_c12, check_c12, 1, nullptr, nullptr,
    "at least 4 key events and 2 queries were compared with the model",
    [](const Outcome& o) { return o.get("compared_queries") >= 2; }, 20000, "" });
  list.push_back({ "C14", "injected sequences", gen_c14, check_c14, 1, nullptr, nullptr,
    "at least one injected sequence and 4 key events were compared with the model",
    [](const Outcome& o) { return o.get("compared_events") >= 4 && o.get("injections") >= 1; }, 20000, "" });
  list.push_back({ "C19", "pausing", gen_c19, check_c19, 1, nullptr, nullptr,
    "mapping was paused at least once and 4 key events were compared with the model",
    [](const Outcome& o) { return o.get("compared_events") >= 4 && o.get("pauses") >= 1; }, 20000, "" });
}

}  // namespace sim
