#include <set>
// Life cycle: handing the keyboard back, emergency exit, restarts.
#include "props.h"
#include <algorithm>
#include <linux/input.h>
#include <signal.h>

namespace sim {

static void tap(Scenario& s, int64_t gap, const std::string& dev, const std::string& key, int64_t hold = 40000) {
  s.pin(gap, "key", { dev, S(key_code(key)), "1" });
  s.pin(hold, "key", { dev, S(key_code(key)), "0" });
}

struct Holdings { int grabbed = 0, virt = 0; };
static Holdings holdings(Time at) {
  std::set<int64_t> grabbed, virt;
  for (auto& e : W->log) {
    if (e.t > at) break;
    if (e.type == R_GRAB) grabbed.insert(e.a);
    if (e.type == R_UNGRAB || e.type == R_UNPLUG) grabbed.erase(e.a);
    if (e.type == R_VCREATE) virt.insert(e.a);
    if (e.type == R_VDESTROY) virt.erase(e.a);
  }
  return { (int)grabbed.size(), (int)virt.size() };
}

// every key operation in the interval must be seen by the desktop unchanged, and nothing else
static void expect_plain(const Scenario& s, Outcome& o, Time from, Time to, const char* when) {
  auto times = op_times(s);
  struct E { Time t; int key, value; };
  std::vector<E> want;
  for (size_t i = 0; i < s.ops.size(); ++i) {
    auto t = W->start + times.at[i];
    if (s.ops[i].name == "key" && t >= from && t < to)
      want.push_back({ t, atoi(s.ops[i].args[1].c_str()), atoi(s.ops[i].args[2].c_str()) });
  }
  size_t i = 0;
  for (auto& e : desktop_events(from)) {
    if (e.t >= to) break;
    if (i >= want.size() || e.key != want[i].key || e.value != want[i].value)
      return fail(o, std::string(when) + ": the desktop saw " + event_text(e.key, e.value) + " instead of " +
        (i < want.size() ? event_text(want[i].key, want[i].value) : "nothing"));
    if (e.t < want[i].t || e.t > want[i].t + 500 * MS)
      return fail(o, std::string(when) + ": " + event_text(e.key, e.value) + " came " + std::to_string((e.t - want[i].t) / MS) + " ms after the key");
    ++i;
  }
  if (i < want.size())
    fail(o, std::string(when) + ": " + event_text(want[i].key, want[i].value) + " did not reach the desktop");
  o.probes["plain_events"] += i;
}

// devices are only given back when their keys are released or held for more than five seconds
static std::string given_back_while_held() {
  struct D { std::map<int64_t, Time> held; Time polls = -1, poll = -1; };
  std::map<int64_t, D> devs;
  for (auto& e : W->log) {
    if (e.type == R_PHYS && e.b == EV_KEY) {
      auto& h = devs[e.a].held;
      if (!e.d) h.erase(e.c);
      else h.emplace(e.c, e.t);
    }
    if (e.type == R_UNPLUG) devs.erase(e.a);
    if (e.type == R_KEYQ) {
      auto& d = devs[e.a];
      if (d.poll < 0 || e.t - d.poll > SEC) d.polls = e.t;
      d.poll = e.t;
    }
    if (e.type != R_UNGRAB) continue;
    if (e.proc < 0) {
      auto ended = false;
      for (auto& p : W->procs) ended |= p->exited && p->exit_time == e.t;
      if (ended) continue;
    }
    auto& d = devs[e.a];
    auto polled = d.poll >= 0 && e.t - d.poll < 2 * SEC;
    if (polled && e.t - d.polls > 4900 * MS) continue;
    for (auto& [code, since] : d.held) {
      if (e.t - since < 50 * MS || e.t - since > 4900 * MS) continue;
      if (polled && since >= d.poll) continue;     // pressed in between
      return key_name((int)code);
    }
  }
  return "";
}

static const Proc* last_proc(ProcKind kind) {
  const Proc* r = nullptr;
  for (size_t i = 0; i < W->procs.size(); ++i)
    if (W->procs[i]->kind == kind) r = W->procs[i].get();
  return r;
}

//---------------------------------------------------------------- C07
static void gen_c07(Scenario& s, Rng& r) {
  auto kind = r.range(0, 6);     // client: crash, term, exit; daemon: term, int; read error, write error
  ConfOpts b;
  b.any = b.context_active = false;
  if (kind >= 5) b.virt = b.held_virtual = b.delays = false;   // mapping goes on
  auto conf = random_config(r, swarm(r, b));
  Setup u;
  u.conf = conf.text;
  if (kind < 5 && r.chance(0.4)) u.conf += "\nG >> O 700ms P\n";
  if (kind < 5 && r.chance(0.3)) u.conf += "\nH{Any} >> U 300ms I 300ms W\n";
  if (r.chance(0.2)) u.conf += "\nA >> $(prog dur=60000) ^\n";
  u.keyboards = (int)r.range(1, 3);
  u.mice = conf.mouse || r.chance(0.2) ? 1 : 0;
  u.windows = WINDOWS;
  u.focus = r.chance(0.1) ? -1 : (int)r.range(0, 3);
  prologue(s, r, u);
  if (r.chance(0.6))
    add_faults(s, r, FS_TIMING | (r.chance(0.3) ? FS_FRAG | FS_EINTR : 0) | (r.chance(0.2) ? FS_SLOW : 0));
  if (kind == 5) s.set("fault.evdev_read_error", S(r.range(500, 20000)) + ",1,1");
  if (kind == 6) s.set("fault.uinput_error", S(r.range(500, 20000)) + ",1,1");
  s.set("kind", kind);
  auto keys = pick_keys(r, u, 0.6, 0.4, 0.3);
  keys.push_back({ "kb0", "G" });
  Typist t{ s, r, {} };
  auto stop = [&](int64_t g) {
    switch (kind) {
      case 0: s.pin(g, "kill", { "client", "9" }); break;
      case 1: s.pin(g, "kill", { "client", r.chance(0.5) ? "15" : "2" }); break;
      case 2: s.pin(g, "tray", { "Exit" }); break;
      case 3: s.pin(g, "kill", { "daemon", "15" }); break;
      case 4: s.pin(g, "kill", { "daemon", "2" }); break;
    }
  };
  auto n = r.range(2, 30);
  auto events = r.range(0, 2);
  for (auto i = 0; i < n; ++i) {
    auto g = human_gap(r);
    if (u.mice && r.chance(0.1)) { t.wheel(g, "m0", r.chance(0.2), (int)r.range(-2, 2), true); continue; }
    if (events && r.chance(0.12)) {
      --events;
      switch (r.range(0, 6)) {
        case 0: s.add(g, "focus", { S(r.range(0, 3)) }); break;
        case 1: s.add(g, "ctl", { "--timeout", "500", "--toggle", "Virtual" + S(r.range(1, 4)) }); break;
        case 2: s.add(g, "tray", { "Reload" }); break;
        case 3: s.add(g, "tray", { "Active" }); break;
        case 4: s.add(g, "freeze", { r.chance(0.5) ? "client" : "daemon", S(r.range(1000, 800000)) }); break;
        case 5: { auto k = S(r.range(0, u.keyboards - 1)); s.add(g, "unplug", { "kb" + k }); s.add(human_gap(r) * 4, "replug", { "kb" + k }); break; }
        case 6: s.add(g, "ctl", { "--timeout", "500", "--output", "X Y" }); break;
      }
      continue;
    }
    t.random(g, keys);
  }
  stop(r.chance(0.5) ? r.range(0, 3000) : human_gap(r));
  n = r.range(0, 4);
  for (auto i = 0; i < n; ++i) t.random(human_gap(r), keys);
  s.pin(200000, "calm", { "1" });
  for (auto i = 0; i < u.keyboards; ++i) s.pin(1000, "replug", { "kb" + S(i) });
  s.pin(10000, "releaseall");
  tap(s, 2500000, "kb0", "F7");     // ends an unfinished sequence
  s.pin(2500000, "mark", { "handed" });
  for (auto i = 0; i < u.keyboards; ++i) {
    tap(s, 100000, "kb" + S(i), "F7");
    tap(s, 100000, "kb" + S(i), "N");
  }
  s.pin(800000, "mark", { "again" });
  if (kind < 3) s.pin(1000, "ensure", { "client" });
  else if (kind < 5) s.pin(1000, "ensure", { "daemon" });
  s.pin(3000000, "wait");
  for (auto i = 0; i < u.keyboards; ++i)
    tap(s, 100000, "kb" + S(i), "F7");
  s.pin(800000, "mark", { "end" });
}

static void check_c07(const Scenario& s, Outcome& o) {
  if (!conf_accepted()) { o.probes["rejected"] = 1; return; }
  auto kind = s.num("kind");
  auto handed = mark_time("handed"), again = mark_time("again");
  if (kind == 2) {
    // the menu may be closed in the moment of the click
    auto clicked = false;
    for (auto& e : W->log) clicked |= e.type == R_TRAY && e.s == "Exit" && e.a;
    if (!clicked) return;
  }
  auto h = holdings(handed);
  o.probes["grabs"] = (uint64_t)count(R_GRAB);
  auto stuck = stuck_keys();
  if (!stuck.empty()) return fail(o, "stuck key: " + stuck[0]);
  auto held = given_back_while_held();
  if (!held.empty()) return fail(o, "given back too early: a device was given back while " + held + " was held");
  // told to stop before it had taken over the first time, it is simply ended
  if (kind < 5) {
    if (h.grabbed) return fail(o, "still grabbed: " + S(h.grabbed) + " devices are not given back");
    if (h.virt) return fail(o, "still there: " + S(h.virt) + " virtual devices are not removed");
  }
  for (size_t i = 0; i < W->procs.size(); ++i) {
    auto& p = *W->procs[i];
    if (p.kind != P_DAEMON || !p.exited) continue;
    if (kind < 3 ) return fail(o, "daemon ended because the client went away");
    if (p.exit_signal && p.exit_signal != SIGTERM && p.exit_signal != SIGINT)
      return fail(o, "daemon crashed with signal " + S(p.exit_signal));
  }
  if (kind == 3 || kind == 4) {
    auto first = W->procs[0].get();
    for (size_t i = 0; i < W->procs.size(); ++i)
      if (W->procs[i]->kind == P_DAEMON) { first = W->procs[i].get(); break; }
    if (!first->exited || first->exit_time > handed) return fail(o, "daemon did not terminate");
  }
  expect_plain(s, o, handed, again, "after the end of mapping");
  expect_plain(s, o, again, mark_time("end"), "after mapping started again");
  if (kind < 5) {
    auto g = holdings(mark_time("end"));
    if (!g.grabbed) fail(o, "not taken over again: no device is grabbed");
  }
}

//---------------------------------------------------------------- C08
static void gen_c08(Scenario& s, Rng& r) {
  auto conf = random_config(r, swarm(r));
  static const std::vector<std::string> extra = {
    "Escape >> X", "K >> Y", "ShiftLeft >> Z", "ShiftLeft{Escape} >> W", "Shift{K} >> X", "K >>", "Escape >>", "ShiftLeft >>",
    "Escape K >> U", "(ShiftLeft Escape) >> I", "ShiftLeft{!300ms} >> O", "Escape{400ms} >> P", "K{200ms} >> X", "Any >>", "Any >> X",
    "ShiftLeft >> X 500ms Y", "Escape >> X 900ms Y", "Shift Escape K >> Home", "ShiftLeft{Escape{K}} >> End", "ShiftLeft >> Virtual1",
    "Escape >> Virtual2", "Virtual1{Escape} >> X", "ShiftLeft !300ms Escape >> Z", "ShiftLeft !Escape >> A", "K >> $(run dur=3000)", "Escape >> $(run dur=50)",
    "Escape !K >> A", "ShiftLeft{Any} >> X", "Escape >> ^ X", "CapsLock >> ShiftLeft Escape K", "ShiftLeft Escape 500ms K >> Delete",
  };
  auto lines = r.range(0, 4);
  std::string text = conf.text;
  for (auto i = 0; i < lines; ++i) {
    auto& l = extra[(size_t)r.range(0, (int64_t)extra.size() - 1)];
    if (r.chance(0.5)) text = l + "\n" + text;
    else text += "\n" + l + "\n";
  }
  // configurations without an active mapping
  static const std::vector<std::string> idle = {
    "", "# nothing\n", "[system=\"Windows\"]\nA >> B\n", "[title=\"Nowhere\"]\nAny >>\n", "[device=\"Nothing\"]\nK >>\n", "[stage]\n[stage]\n[stage]\n",
    "Foo = A\n", "@options verbose\n",
  };
  if (r.chance(0.06)) text = idle[(size_t)r.range(0, (int64_t)idle.size() - 1)];
  Setup u;
  u.conf = text;
  u.keyboards = (int)r.range(1, 2);
  u.mice = conf.mouse || r.chance(0.2) ? 1 : 0;
  u.windows = WINDOWS;
  u.focus = (int)r.range(-1, 3);
  prologue(s, r, u);
  if (r.chance(0.6))
    add_faults(s, r, FS_TIMING | (r.chance(0.3) ? FS_FRAG | FS_EINTR : 0) | (r.chance(0.2) ? FS_SLOW : 0));
  auto keys = pick_keys(r, u, 0.6, 0.2, 0.3);
  keys.push_back({ "kb0", "Escape" });
  keys.push_back({ "kb0", "K" });
  auto no_combo = [](auto& k) { return k.second == "ShiftLeft"; };
  keys.erase(std::remove_if(keys.begin(), keys.end(), no_combo), keys.end());
  Typist t{ s, r, {} };
  auto n = r.range(0, 14);
  auto reload = r.chance(0.5);      // otherwise a held up client may reload in the middle of the combination
  auto event = [&](int64_t g, bool mid) {
    switch (r.range(0, mid ? 5 : 8)) {
      case 0: s.add(g, "focus", { S(r.range(0, 3)) }); break;
      case 1: s.add(g, "ctl", { "--toggle", "Virtual" + S(r.range(1, 4)) }); break;
      case 2: s.add(g, "ctl", { "--is-pressed", "Virtual" + S(r.range(1, 4)) }); break;
      case 3: s.add(g, "tray", { "Active" }); break;
      case 4: if (!reload) s.add(g, "freeze", { "client", S(r.range(1000, 20000000)) }); break;
      case 5: s.add(g, "kill", { "client", r.chance(0.5) ? "9" : "15" }); break;
      case 6: if (reload) s.add(g, "tray", { "Reload" }); break;
      case 7: { auto k = S(r.range(0, u.keyboards - 1)); s.add(g, "unplug", { "kb" + k }); s.add(human_gap(r) * 4, "replug", { "kb" + k }); s.add(1000000, "wait"); break; }
      case 8: s.add(g, "ctl", { "--output", "X Y" }); break;
    }
  };
  auto events = r.range(0, 2);
  for (auto i = 0; i < n; ++i) {
    if (events && r.chance(0.2)) { --events; event(human_gap(r), false); continue; }
    t.random(human_gap(r), keys);
  }
  // similar ones do not
  if (r.chance(0.3)) {
    s.pin(human_gap(r), "releaseall");
    static const std::vector<std::vector<std::string>> near = {
      { "+S", "-S", "+E", "-E", "+K", "-K" }, { "+S", "-S", "+E", "+K", "-E", "-K" }, { "+S", "+E", "-S", "+K", "-K", "-E" }, { "+S", "+E", "-E", "+K", "-K", "-S" },
      { "+E", "-E", "+S", "+K", "-K", "-S" }, { "+R", "+E", "+K", "-K", "-E", "-R" }, { "+S", "+E", "+J", "-J", "-E", "-S" }, { "+S", "+E", "-E", "-S", "+K", "-K" },
      { "+S", "+K", "-K", "+E", "-E", "-S" }, { "+E", "+K", "-E", "+S", "-K", "-S" }, { "+S", "+E", "-E", "-S", "+E", "+K", "-E", "-K" },
    };
    auto rounds = r.range(1, 3);
    for (auto i = 0; i < rounds; ++i)
      for (auto& k : near[(size_t)r.range(0, (int64_t)near.size() - 1)]) {
        auto name = k[1] == 'S' ? "ShiftLeft" : k[1] == 'R' ? "ShiftRight" : k[1] == 'E' ? "Escape" : k[1] == 'K' ? "K" : "J";
        s.pin(r.chance(0.5) ? r.range(1000, 50000) : human_gap(r), "key", { "kb0", S(key_code(name)), k[0] == '+' ? "1" : "0" });
        if (k[0] == '+' && r.chance(0.1)) s.add(human_gap(r), "key", { "kb0", S(key_code(name)), "2" });
      }
    s.pin(1000000, "wait");
  }
  if (reload) s.pin(5000000, "wait");
  if (r.chance(0.6)) s.add(human_gap(r), "releaseall");
  // keys of the combination may be in use by the strokes above
  for (auto i = 0; i < u.keyboards; ++i)
    for (auto k : { "ShiftLeft", "Escape", "K" })
      s.pin(1000, "key", { "kb" + S(i), S(key_code(k)), "0" });
  s.pin(human_gap(r) + 20000, "mark", { "combo" });
  auto fast = r.chance(0.3);
  auto gap = [&]() { return fast ? r.range(0, 2000) : human_gap(r); };
  auto dev = [&]() { return "kb" + S(r.chance(0.9) ? 0 : r.range(0, u.keyboards - 1)); };
  auto mids = r.chance(0.3) ? r.range(1, 3) : 0;
  auto mid = [&]() {
    if (mids && r.chance(0.5)) { --mids; event(gap(), true); }
    if (u.mice && r.chance(0.1)) t.move(gap(), "m0", 3, 1);
  };
  s.pin(gap(), "key", { dev(), S(key_code("ShiftLeft")), "1" });
  if (r.chance(0.2)) s.add(gap(), "key", { s.ops.back().args[0], S(key_code("ShiftLeft")), "2" });
  mid();
  s.pin(gap(), "key", { dev(), S(key_code("Escape")), "1" });
  if (r.chance(0.2)) s.add(gap(), "key", { s.ops.back().args[0], S(key_code("Escape")), "2" });
  mid();
  s.pin(gap(), "key", { dev(), S(key_code("K")), "1" });
  s.pin(gap(), "mark", { "pressed" });
  mid();
  s.pin(100000 + r.range(0, 1000000), "calm", { "1" });
  s.pin(1000, "releaseall");
  s.pin(2000000, "mark", { "handed" });
  for (auto i = 0; i < u.keyboards; ++i)
    tap(s, 100000, "kb" + S(i), "F7");
  s.pin(800000, "mark", { "end" });
}

static void check_c08(const Scenario& s, Outcome& o) {
  if (!conf_accepted()) { o.probes["rejected"] = 1; return; }
  auto combo = mark_time("combo"), handed = mark_time("handed");
  // other keys do not stop it
  std::set<std::pair<int64_t, int64_t>> held;
  auto stopped = false, together = false;
  for (auto& e : W->log) {
    if (e.t >= combo || together) break;
    if (e.type == R_EXIT && W->procs[(size_t)e.proc]->kind == P_DAEMON) stopped = true;
    if (e.type != R_PHYS || e.b != EV_KEY) continue;
    if (e.d) held.insert({ e.c, e.a });
    else held.erase({ e.c, e.a });
    auto has = [&](int64_t key) { return std::any_of(held.begin(), held.end(), [&](auto& h) { return h.first == key; }); };
    if (has(KEY_ESC) && e.c == KEY_K && e.d == 1) ++o.probes["similar"];
    together = has(KEY_LEFTSHIFT) && has(KEY_ESC) && has(KEY_K);
  }
  if (stopped && !together) return fail(o, "terminated: the daemon ended although the combination was not pressed");
  // the devices have to be under control of the daemon, with the three keys arriving one after the other
  std::vector<std::pair<int, int>> got;
  Time k_read = -1;
  std::set<int64_t> shift_down;
  for (auto& e : W->log) {
    if (e.type != R_DREAD || e.b != EV_KEY) continue;
    if (e.c >= 0x110 && e.c < 0x160) continue;
    if (e.t < combo) {
      if (e.c == KEY_LEFTSHIFT) { if (e.d) shift_down.insert(e.a); else shift_down.erase(e.a); }
      continue;
    }
    if (e.d == 2) continue;
    got.push_back({ (int)e.c, (int)e.d });
    if (got.size() == 3) k_read = e.t;
  }
  for (auto& e : W->log)
    if ((e.type == R_CONF || (e.type == R_TRAY && e.s == "Reload")) && e.t > combo - 3 * SEC && e.t > mark_time("ready")) return;
  static const std::vector<std::pair<int, int>> want = { { KEY_LEFTSHIFT, 1 }, { KEY_ESC, 1 }, { KEY_K, 1 } };
  auto complete = got.size() >= 3 && std::equal(want.begin(), want.end(), got.begin()) && shift_down.empty();
  auto h = holdings(handed);
  auto stuck = stuck_keys();
  if (!stuck.empty()) return fail(o, "stuck key: " + stuck[0]);
  auto d = last_proc(P_DAEMON);
  o.probes["combos"] = complete;
  if (!complete && !h.grabbed) return;       // was not in control of the devices
  for (auto& e : W->log)
    if (e.type == R_OP && e.s.rfind("key", 0) == 0 && e.t >= combo && e.t < handed) ++o.probes["combo_keys"];
  if (o.get("combo_keys") < 3) return;
  if (!complete) {
    // in control, but the events did not reach the daemon in this session or were preceded by others
    if (got.size() < 3 && d && !d->exited && holdings(combo).grabbed && h.grabbed)
      fail(o, "hung: the daemon does not read its devices");
    return;
  }
  // the session may have been ended by a lost client before the last key was processed
  auto lost = false;
  for (auto& e : W->log)
    if (e.type == R_UNGRAB && e.t > combo) lost = true;
  (void)k_read;
  if (!d->exited && !lost) return fail(o, "not terminated: the daemon ignored the combination");
  if (!d->exited && holdings(handed).grabbed) return fail(o, "not terminated: devices were taken over again");
  if (h.grabbed) return fail(o, "still grabbed: devices are not given back");
  if (h.virt) return fail(o, "still there: virtual devices are not removed");
  if (d->exited && d->exit_signal) return fail(o, "crashed with signal " + S(d->exit_signal));
  expect_plain(s, o, handed, mark_time("end"), "after the combination");
}

//---------------------------------------------------------------- C09
static void gen_c09(Scenario& s, Rng& r) {
  ConfOpts b;
  b.timeouts = b.not_timeouts = b.delays = b.strings = b.history = b.forward_mods = b.virt = b.held_virtual = b.context_active = b.commands = false;
  b.min_map = 3;
  auto opts = swarm(r, b);
  if (r.chance(0.5)) opts.contexts = true;
  auto conf = random_config(r, opts);
  Setup u;
  u.conf = conf.text;
  u.keyboards = r.chance(0.3) ? 2 : 1;
  u.mice = conf.mouse ? 1 : 0;
  u.windows = WINDOWS;
  u.focus = r.chance(0.1) ? -1 : (int)r.range(0, 3);
  u.client_first = r.chance(0.3);
  u.ready_us = r.chance(0.3) ? r.range(0, 400000) : 1500000;
  prologue(s, r, u);
  s.ops.back().args[0] = "up";
  if (r.chance(0.5))
    add_faults(s, r, FS_TIMING | (r.chance(0.3) ? FS_FRAG | FS_EINTR : 0));
  if (r.chance(0.4)) s.set("fault.crash", S(r.range(200, 20000)) + "," + S(r.range(1, 3)) + ",1");
  if (r.chance(0.2)) s.set("fault.sigterm", S(r.range(200, 20000)) + "," + S(r.range(1, 3)) + ",1");
  auto keys = pick_keys(r, u, 0.6, 0.4, 0.2);
  Typist t{ s, r, {} };
  auto n = r.chance(0.95) ? r.range(1, 4) : r.range(5, 20);
  auto dead = std::string();
  for (auto i = 0; i < n; ++i) {
    auto m = r.range(0, 5);
    for (auto k = 0; k < m; ++k) t.random(human_gap(r), keys, 2);
    if (r.chance(0.3)) s.add(human_gap(r), "focus", { S(r.range(0, 3)) });
    auto who = r.chance(0.6) ? "daemon" : "client";
    auto g = r.chance(0.3) ? r.range(0, 5000) : human_gap(r) * 2;
    if (r.chance(0.15)) s.add(g, "freeze", { who, S(r.range(1000, 1500000)) });
    else s.add(g, "kill", { who, r.chance(0.6) ? "9" : r.chance(0.7) ? "15" : "2" });
    g = r.chance(0.3) ? r.range(0, 5000) : human_gap(r) * 3;
    if (r.chance(0.8)) s.add(g, "ensure", { who });
  }
  s.pin(200000, "calm", { "1" });
  s.pin(1000, "releaseall");
  // also after a long time
  s.pin(r.chance(0.97) ? 2000000 : r.range(10, 200) * 1000000, "ensure", { "daemon" });
  s.pin(r.chance(0.97) ? r.range(0, 300000) : r.range(10, 200) * 1000000, "ensure", { "client" });
  s.pin(r.chance(0.5) ? 1000 : 2000000, "focus", { S(r.range(0, 3)) });
  s.pin(4000000, "wait");
  tap(s, 1000, "kb0", "F7");
  s.pin(600000, "mark", { "ready" });
  t.down.clear();
  n = r.range(6, 25);
  for (auto i = 0; i < n; ++i) t.random(human_gap(r), keys);
  s.pin(600000, "releaseall");
  s.pin(1000000, "mark", { "end" });
}

static void check_c09(const Scenario& s, Outcome& o) {
  auto ready = mark_time("ready");
  auto kills = 0;
  for (auto& e : W->log) kills += e.type == R_EXIT && e.t < ready;
  o.probes["exits"] = (uint64_t)kills;
  for (size_t i = 0; i < W->procs.size(); ++i) {
    auto& p = *W->procs[i];
    if ((p.kind != P_DAEMON && p.kind != P_CLIENT) || !p.exited) continue;
    if (p.exit_signal && p.exit_signal != SIGKILL && p.exit_signal != SIGTERM && p.exit_signal != SIGINT)
      return fail(o, "crashed: " + p.name + " ended with signal " + S(p.exit_signal));
    if (p.exit_signal) continue;
    auto told = false, established = p.kind == P_DAEMON;
    for (auto& e : W->log) {
      if (e.type == R_SIGNAL && e.proc == p.index && e.a != SIGCHLD) told = true;
      if (e.type == R_RECV && e.proc == p.index) established = true;
    }
    if (told || !established) continue;
    // only a repeated end of the daemon within the handshake is outside of the property
    auto lost_handshakes = 0;
    std::set<int> accepted;
    if (p.kind == P_CLIENT) for (auto& e : W->log) {
      if (e.proc == p.index && e.type == R_RECV) { lost_handshakes = 0; accepted.clear(); }
      if (e.proc == p.index && e.type == R_EXIT) break;
      if (e.proc >= 0 && W->procs[e.proc]->kind == P_DAEMON) {
        if (e.type == R_ACCEPT) accepted.insert(e.proc);
        if (e.type == R_EXIT) lost_handshakes += accepted.count(e.proc) != 0;
      }
    }
    if (lost_handshakes >= 2) { o.probes["lost_handshakes"] = 1; continue; }
    return fail(o, "gave up: " + p.name + " ended by itself with " + S(p.exit_code));
  }
  if (!holdings(ready).grabbed) {
    // nothing to take over only when the configuration is not accepted at all
    Scenario c = s;
    model::Config conf;
    if (!model::parse_config(conf_text(s), &conf)) { o.probes["rejected"] = 1; return; }
    return fail(o, "not restored: no device is grabbed after the programs were restarted");
  }
  compare_with_model(s, o, { });
}

void register_life(std::vector<Property>& list) {
  list.push_back({ "C07", "keyboard handed back cleanly", gen_c07, check_c07, 1, nullptr, nullptr,
    "devices had been grabbed and plain key strokes after the end of mapping were compared",
    [](const Outcome& o) { return o.get("grabs") > 0 && o.get("plain_events") >= 4; }, 20000, "" });
  list.push_back({ "C08", "emergency combination", gen_c08, check_c08, 1, nullptr, nullptr,
    "the daemon read the complete combination",
    [](const Outcome& o) { return o.get("combos") > 0; }, 20000, "" });
  list.push_back({ "C09", "mapping resumes after restarts", gen_c09, check_c09, 1, nullptr, nullptr,
    "a program ended before and at least 4 key events were compared with the model afterwards",
    [](const Outcome& o) { return o.get("exits") > 0 && o.get("compared_events") >= 4; }, 15000, "" });
}

}  // namespace sim
