// Properties decided by comparing with the reference model.
#include "props.h"
#include <algorithm>
#include <list>
#include <linux/input.h>

namespace sim {

Times op_times(const Scenario& s) {
  Times r;
  Time t = 0;
  for (auto& op : s.ops) {
    t += op.gap * US;
    r.at.push_back(t);
  }
  return r;
}

static int wheel_key(int code, int value) {
  if (code == REL_WHEEL || code == REL_WHEEL_HI_RES) return value > 0 ? 0x150 : 0x151;
  return value > 0 ? 0x153 : 0x152;
}

std::vector<Seen> desktop_events(Time from) {
  std::vector<Seen> r;
  for (auto& e : W->log) {
    if (e.t < from)
      continue;
    if (e.type == R_DESK)
      r.push_back({ e.t, (int)e.b, (int)e.c, (int)e.a, e.d != 0 });
    else if (e.type == R_DESKEV && e.b == EV_REL && (e.c == REL_WHEEL || e.c == REL_HWHEEL)) {
      auto k = wheel_key((int)e.c, (int)e.d);
      for (auto i = std::abs((int)e.d); i > 0; --i)
        r.push_back({ e.t, k, 0, (int)e.a, true });
    }
  }
  return r;
}

std::string event_text(int key, int value) {
  if (model::is_wheel(key)) {
    static const char* n[] = { "WheelUp", "WheelDown", "WheelLeft", "WheelRight" };
    return n[key - 0x150];
  }
  return (value == 1 ? "+" : value == 2 ? "=" : "-") + key_name(key);
}

Time mark_time(const std::string& name) {
  for (auto& e : W->log)
    if (e.type == R_MARK && e.s == name)
      return e.t;
  return -1;
}

void fail(Outcome& o, const std::string& text) {
  if (!o.verdict.empty())
    return;
  o.verdict = text;
  std::replace(o.verdict.begin(), o.verdict.end(), '\n', ' ');     // one line
}

std::string conf_text(const Scenario& s) {
  for (auto& op : s.ops)
    if (op.name == "conf")
      return op.args[1];
  return {};
}

// key names, Name{...} and (A B), as accepted for injection
bool parse_sequence(const std::string& text, std::vector<std::pair<int, bool>>* out) {
  static const std::map<std::string, std::string> logical = { { "Shift", "ShiftLeft" }, { "Control", "ControlLeft" }, { "Meta", "MetaLeft" } };
  size_t i = 0;
  std::vector<int> open;
  auto last = -1;         // pressed, not yet released
  auto done = [&]() { if (last >= 0) { out->push_back({ last, false }); last = -1; } };
  while (i < text.size()) {
    if (text[i] == ' ') { ++i; continue; }
    if (text[i] == '{') {
      if (last < 0) return false;
      open.push_back(last);
      last = -1;
      ++i;
      continue;
    }
    if (text[i] == '}') {
      if (open.empty()) return false;
      done();
      last = -1;
      out->push_back({ open.back(), false });
      open.pop_back();
      ++i;
      continue;
    }
    done();
    auto e = i;
    while (e < text.size() && isalnum((unsigned char)text[e])) ++e;
    if (e == i) return false;
    auto name = text.substr(i, e - i);
    if (auto it = logical.find(name); it != logical.end()) name = it->second;
    auto c = key_code(name);
    if (c < 0) return false;
    out->push_back({ c, true });
    last = c;
    i = e;
  }
  done();
  return open.empty();
}

static bool uses_mouse(const model::Config& conf) {
  for (auto& st : conf.stages)
    for (auto& c : st.contexts)
      for (auto& mp : c.maps)
        for (auto& i : mp.in)
          if (model::is_button(i.key) || model::is_wheel(i.key))
            return true;
  return false;
}

const Proc* ctl_proc(int ordinal) {
  for (auto& p : W->procs)
    if (p->kind == P_CTL && p->ordinal == ordinal)
      return p.get();
  return nullptr;
}

bool compare_with_model(const Scenario& s, Outcome& o, const ModelOptions& opt) {
  std::list<model::Config> confs;
  auto parse = [&](const std::string& text) {
    confs.emplace_back();
    if (model::parse_config(text, &confs.back()))
      return true;
    o.probes["outside_model"] = 1;
    return false;
  };
  auto times = op_times(s);
  auto ready = mark_time("ready");
  size_t ready_op = 0;
  std::vector<std::string> devices, keys;
  std::vector<Window> windows;
  auto focus = -1, ctls = 0;
  std::string text;
  // state when everything is up
  for (; ready_op < s.ops.size(); ++ready_op) {
    auto& op = s.ops[ready_op];
    if (op.name == "mark" && op.args[0] == "ready") break;
    if (op.name == "window") windows.push_back({ op.args[0], op.args[1], op.args[2] });
    else if (op.name == "focus") focus = atoi(op.args[0].c_str());
    else if (op.name == "retitle") windows[(size_t)atoi(op.args[0].c_str())].title = op.args[1];
    else if (op.name == "conf") text = op.args[1];
    else if (op.name == "ctl") ++ctls;
    else if (op.name == "dev") {
      keys.push_back(op.args[0]);
      devices.push_back(op.args[2] + "\n" + (op.args.size() > 3 ? op.args[3] : ""));
    }
  }
  if (ready < 0 || !parse(text))
    return false;
  auto mouse = uses_mouse(confs.back());
  for (auto& op : s.ops)
    if (op.name == "dev" && op.args[1].rfind("mouse", 0) == 0 && !mouse)
      return false;
  auto window = [&]() { return focus >= 0 && focus < (int)windows.size() ? &windows[(size_t)focus] : nullptr; };
  model::Server m(confs.back());
  model::ambiguous = false;
  auto conf = &confs.back(), pending_conf = conf;
  auto invalid = false;
  auto enabled = true;
  auto daemon_up = true, client_up = true, fresh_client = false;
  struct Exp { Time t; int key, value; };
  std::vector<Exp> expected;
  std::vector<std::pair<size_t, size_t>> unordered;
  std::vector<std::pair<Time, std::string>> actions;
  size_t seen_desk = 0, seen_actions = 0;
  auto take = [&](Time t) {
    for (; seen_desk < m.desk.size(); ++seen_desk)
      expected.push_back({ t, m.desk[seen_desk].key, m.desk[seen_desk].value });
    for (; seen_actions < m.actions.size(); ++seen_actions)
      actions.push_back({ t, conf->actions[(size_t)m.actions[seen_actions]] });
  };
  m.devices = devices;
  // before the client knows the window, contexts are those without one
  m.set_window(nullptr, enabled);
  m.set_window(window(), enabled);
  take(W->start);
  expected.clear();
  actions.clear();
  // what the daemon read; events of several devices may be read in another order than they happened
  struct Read { Time t, phys; std::string dev; int type, code, value; };
  std::vector<Read> reads;
  std::map<int64_t, std::vector<const Rec*>> pending;
  for (auto& e : W->log) {
    if (e.t < ready || (e.b != EV_KEY && e.b != EV_REL))
      continue;
    if (e.type == R_PHYS)
      pending[e.a].push_back(&e);
    if (e.type == R_DREAD) {
      auto& q = pending[e.a];
      if (q.empty() || q[0]->b != e.b || q[0]->c != e.c || q[0]->d != e.d)
        return false;
      if (!opt.swallowed.count((size_t)(&e - W->log.data())))
        reads.push_back({ e.t, q[0]->t, W->devs[(size_t)e.a]->key, (int)e.b, (int)e.c, (int)e.d });
      q.erase(q.begin());
    }
  }
  size_t next = 0;
  auto down = 0;
  auto feed = [&](Time until) {
    for (; next < reads.size() && reads[next].t <= until; ++next) {
      auto& e = reads[next];
      auto dev = (int)(std::find(keys.begin(), keys.end(), e.dev) - keys.begin());
      if (e.type == EV_KEY) {
        if (e.value != 2) down += e.value ? 1 : -1;
        m.input(e.code, e.value != 0, dev, devices);
      }
      else if (e.code == REL_WHEEL_HI_RES || e.code == REL_HWHEEL_HI_RES)
        m.input(wheel_key(e.code, e.value), false, dev, devices);
      take(e.phys);
    }
  };
  Time last_key = -1, last_other = -1, quiet = opt.quiet;
  for (auto i = ready_op + 1; i < s.ops.size(); ++i) {
    auto& op = s.ops[i];
    auto& n = op.name;
    auto& a = op.args;
    auto t = W->start + times.at[i];
    auto key_op = n == "key" || n == "ev" || n == "releaseall";
    auto other = n == "focus" || n == "ctl" || n == "tray" || n == "retitle" || n == "close" || n == "window" || n == "winstate" || n == "kill" || n == "ensure" || n == "conf";
    if (key_op) {
      if (!daemon_up || !client_up || (last_other >= 0 && t - last_other < quiet)) return false;
      last_key = t;
    }
    if (other) {
      if ((last_key >= 0 && t - last_key < opt.quiet) || (last_other >= 0 && t - last_other < quiet)) return false;
      last_other = t;
      quiet = opt.quiet;
    }
    feed(t - 1);
    if (n == "focus") {
      auto to = atoi(a[0].c_str());
      if (to >= (int)windows.size() || (to >= 0 && !windows[(size_t)to].open)) continue;
      focus = to;
      if (focus >= 0) m.set_window(window(), enabled);
    }
    else if (n == "window") windows.push_back({ a[0], a[1], a[2] });
    else if (n == "winstate") { }
    else if (n == "close") {
      // the contexts of the last window stay active until another one is focused
      auto w = (size_t)atoi(a[0].c_str());
      if (w < windows.size()) windows[w].open = false;
    }
    else if (n == "retitle") {
      auto w = (size_t)atoi(a[0].c_str());
      if (w >= windows.size() || !windows[w].open) continue;
      windows[w].title = a[1];
      m.set_window(window(), enabled);
    }
    else if (n == "conf" && a[1].find("NoSuchKey") != std::string::npos) {
      invalid = true;                  // the one in force stays
      pending_conf = conf;
    }
    else if (n == "conf") {
      invalid = false;
      if (!parse(a[1]) || uses_mouse(confs.back()) != mouse) return false;
      pending_conf = &confs.back();
    }
    else if (n == "tray" && a[0] == "Active") {
      enabled = !enabled;
      m.set_window(window(), enabled);
    }
    else if (n == "tray" && a[0] == "Reload") {
      if (down) return false;
      m.reset(*pending_conf);
      take(t);
      conf = pending_conf;
      m.set_window(window(), enabled);
    }
    else if (n == "tray" && (a[0] == "About" || a[0] == "Help" || a[0] == "Configuration")) {
    }
    else if (n == "kill") {
      if (down) return false;
      auto from = expected.size();
      m.reset(*conf);
      take(t);
      // keys of a device which disappears are released in no particular order
      if (a[0] == "daemon") unordered.push_back({ from, expected.size() });
      (a[0] == "client" ? client_up : daemon_up) = false;
      if (a[0] == "client") fresh_client = true;
      if (a[0] == "client") enabled = true;
    }
    else if (n == "ensure") {
      auto& up = a[0] == "client" ? client_up : daemon_up;
      if (up) continue;
      up = true;
      quiet = opt.restart_quiet;
      if (daemon_up && client_up) {
        // until the devices are known, contexts with a device filter are active
        for (auto& st : conf->stages)
          for (auto& c : st.contexts)
            for (auto& d : c.conds)
              for (auto& mp : c.maps)
                if ((!d.device.empty() || !d.device_id.empty()) && mp.in[0].key == model::CTXACTIVE) return false;
        if (a[0] == "client") {
          if (invalid) return false;
          conf = pending_conf;
        }
        m.reset(*conf);
        // a client which stayed still knows the window
        if (fresh_client) m.set_window(nullptr, enabled);
        if (fresh_client && focus >= 0 && !windows[(size_t)focus].open) focus = -1;
        fresh_client = false;
        m.set_window(window(), enabled);
        take(W->start);
      }
    }
    else if (n == "ctl") {
      if (a.size() != 2 || !daemon_up || !client_up) return false;
      auto proc = ctl_proc(ctls++);
      if (!proc) return false;
      if (a[0] == "--input" || a[0] == "--output") {
        std::vector<std::pair<int, bool>> seq;
        auto ok = parse_sequence(a[1], &seq);
        if (proc->exited && ok == (proc->exit_code != 0)) {
          fail(o, std::string("wrong result: '") + a[1] + "' was " + (ok ? "rejected" : "accepted"));
          return true;
        }
        if (ok)
          for (auto [k, d] : seq) {
            if (a[0] == "--input") m.input(k, d, -1, devices);
            else m.output({ { d ? model::Out::Down : model::Out::Up, k } });
          }
        take(t);
        continue;
      }
      auto v = model::VIRT + atoi(a[1].c_str() + std::min<size_t>(7, a[1].size()));
      if (a[1].rfind("Virtual", 0) != 0) {
        auto it = conf->aliases.find(a[1]);
        if (it == conf->aliases.end()) {
          ++o.probes["unknown_names"];
          if (!proc->exited || proc->exit_code != 5) {
            fail(o, "wrong result: " + a[0] + " " + a[1] + " ended with " + (proc->exited ? S(proc->exit_code) : "nothing") + " although there is no such key");
            return true;
          }
          continue;
        }
        v = it->second;
        ++o.probes["aliases"];
      }
      if (a[0] == "--press") m.set_virtual(v, 1);
      else if (a[0] == "--release") m.set_virtual(v, 0);
      else if (a[0] == "--toggle") m.set_virtual(v, 2);
      else if (a[0] == "--is-pressed" || a[0] == "--is-released") {
        auto want = (a[0] == "--is-pressed") == m.virtual_down(v) ? 0 : 1;
        ++o.probes["compared_queries"];
        if (!proc->exited || proc->exit_code != want) {
          fail(o, "wrong state: " + a[0] + " " + a[1] + " ended with " + (proc->exited ? S(proc->exit_code) : "nothing") + " instead of " + S(want));
          return true;
        }
      }
      else return false;
    }
    else if (n != "mark" && n != "wait" && n != "calm" && n != "killcmds" && !key_op)
      return false;
    take(t);
  }
  feed(W->now);
  if (model::ambiguous) {
    o.probes["outside_model"] = 1;
    return false;
  }
  for (auto& [id, q] : pending)
    if (!q.empty()) {
      fail(o, "input not read: events of " + W->devs[(size_t)id]->name + " were not processed");
      return true;
    }
  auto seen = desktop_events(ready);
  auto by_key = [](auto& a, auto& b) { return a.key < b.key; };
  for (auto [from, to] : unordered)
    if (to <= seen.size()) {
      std::sort(expected.begin() + (long)from, expected.begin() + (long)to, by_key);
      std::sort(seen.begin() + (long)from, seen.begin() + (long)to, by_key);
    }
  o.probes["compared_events"] = expected.size();
  o.probes["model_runs"] = 1;
  for (size_t i = 0; i < std::max(seen.size(), expected.size()); ++i) {
    auto window_text = [&]() {
      std::string r = " (previous:";
      for (auto k = i > 6 ? i - 6 : 0; k < i; ++k) r += " " + event_text(seen[k].key, seen[k].value);
      return r + ")";
    };
    if (i >= expected.size()) {
      fail(o, "wrong output: unexpected " + event_text(seen[i].key, seen[i].value) + " at the end" + window_text());
      return true;
    }
    if (i >= seen.size()) {
      fail(o, "wrong output: missing " + event_text(expected[i].key, expected[i].value) + " at the end" + window_text());
      return true;
    }
    if (seen[i].key != expected[i].key || seen[i].value != expected[i].value) {
      fail(o, "wrong output: desktop saw " + event_text(seen[i].key, seen[i].value) + " instead of " +
        event_text(expected[i].key, expected[i].value) + window_text());
      return true;
    }
    if (expected[i].t > W->start && (seen[i].t < expected[i].t || seen[i].t > expected[i].t + opt.latency)) {
      fail(o, "late output: " + event_text(seen[i].key, seen[i].value) + " came " +
        std::to_string((seen[i].t - expected[i].t) / MS) + " ms after its cause");
      return true;
    }
  }
  if (opt.check_commands) {
    std::vector<std::string> ran;
    for (auto& e : W->log)
      if (e.type == R_EXEC && e.t >= ready && e.s.rfind("notify-send", 0) != 0 && e.s.rfind("xdg-open", 0) != 0) ran.push_back(e.s);
    o.probes["compared_commands"] = actions.size();
    for (size_t i = 0; i < std::max(ran.size(), actions.size()); ++i) {
      std::string e = i < actions.size() ? actions[i].second : "nothing", a = i < ran.size() ? ran[i] : "nothing";
      if (e != a) {
        fail(o, "wrong command: executed '" + a + "' instead of '" + e + "'");
        return true;
      }
    }
  }
  return true;
}

//---------------------------------------------------------------- C04
std::vector<std::pair<std::string, std::string>> pick_keys(Rng& r, const Setup& u, double trig, double mods, double plain) {
  std::vector<std::pair<std::string, std::string>> keys;
  for (auto i = 0; i < u.keyboards; ++i) {
    for (auto& k : TRIG) if (r.chance(trig)) keys.push_back({ "kb" + S(i), k });
    for (auto& k : MODS) if (r.chance(mods)) keys.push_back({ "kb" + S(i), k });
    for (auto& k : PLAIN) if (r.chance(plain)) keys.push_back({ "kb" + S(i), k });
  }
  if (u.mice)
    for (auto& k : BUTTONS) if (r.chance(0.5)) keys.push_back({ "m0", k });
  if (keys.empty()) keys.push_back({ "kb0", "A" });
  return keys;
}

static void gen_c04(Scenario& s, Rng& r) {
  ConfOpts b;
  b.timeouts = b.not_timeouts = b.delays = b.strings = b.history = b.forward_mods = false;
  auto conf = random_config(r, swarm(r, b));
  Setup u;
  u.conf = conf.text;
  u.keyboards = r.chance(0.3) ? 2 : 1;
  u.mice = conf.mouse ? 1 : 0;
  u.windows = WINDOWS;
  u.focus = r.chance(0.1) ? -1 : (int)r.range(0, 3);
  prologue(s, r, u);
  if (r.chance(0.5))
    add_faults(s, r, FS_TIMING | (r.chance(0.3) ? FS_FRAG | FS_EINTR : 0));
  auto keys = pick_keys(r, u, 0.6, 0.4, 0.2);
  Typist t{ s, r, {} };
  auto n = r.range(6, 50);
  auto others = r.chance(0.5) ? r.range(0, 4) : 0;
  for (auto i = 0; i < n; ++i) {
    if (others && r.chance(0.1)) {
      --others;
      if (r.chance(0.6)) s.add(600000, "focus", { S(r.range(0, 3)) });
      else s.add(600000, "ctl", { r.chance(0.6) ? "--toggle" : "--press", "Virtual" + S(r.range(1, 4)) });
      s.add(600000, "wait");
      continue;
    }
    auto g = human_gap(r);
    if (u.mice && r.chance(0.1)) { t.wheel(g, "m0", r.chance(0.2), r.chance(0.5) ? 1 : -1, true); continue; }
    t.random(g, keys);
  }
  s.pin(600000, "releaseall");
  s.pin(1000000, "mark", { "end" });
}

static void check_c04(const Scenario& s, Outcome& o) {
  if (!conf_accepted()) {
    o.probes["rejected"] = 1;
    return;
  }
  compare_with_model(s, o, { });
}

void register_core(std::vector<Property>& list) {
  list.push_back({ "C04", "mapped keys produce the configured output", gen_c04, check_c04, 1, nullptr, nullptr,
    "the configuration was accepted and at least 4 key events were compared with the model",
    [](const Outcome& o) { return o.get("compared_events") >= 4; }, 20000, "" });
}

}  // namespace sim
