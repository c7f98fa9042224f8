#include "gen.h"
#include <algorithm>
#include <linux/input.h>

namespace sim {

std::string S(int64_t v) { return std::to_string(v); }

const std::vector<std::string> TRIG = { "A", "S", "D", "F", "G", "H", "CapsLock", "Space", "Tab", "F1" };
const std::vector<std::string> MODS = { "ShiftLeft", "ControlLeft", "AltLeft", "MetaLeft", "ShiftRight", "ControlRight" };
const std::vector<std::string> PLAIN = { "N", "M", "B", "V", "Digit1", "Digit2", "Enter", "ArrowLeft", "F7", "Comma" };
const std::vector<std::string> OUTK = { "X", "Y", "Z", "W", "U", "I", "O", "P", "Digit8", "Digit9", "F8", "Home", "End", "Delete" };
const std::vector<std::string> BUTTONS = { "ButtonLeft", "ButtonRight", "ButtonMiddle", "ButtonBack", "ButtonForward" };
const std::vector<std::string> WHEELS = { "WheelUp", "WheelDown", "WheelLeft", "WheelRight" };

ConfOpts swarm(Rng& r, ConfOpts b) {
  auto flip = [&](bool& f, double keep) { if (f && !r.chance(keep)) f = false; };
  flip(b.timeouts, 0.4);
  flip(b.not_timeouts, 0.4);
  flip(b.delays, 0.3);
  flip(b.virt, 0.5);
  flip(b.contexts, 0.4);
  flip(b.stages, 0.3);
  flip(b.mouse, 0.3);
  flip(b.any, 0.3);
  flip(b.strings, 0.3);
  flip(b.commands, 0.4);
  flip(b.history, 0.2);
  flip(b.logical, 0.4);
  flip(b.context_active, 0.3);
  flip(b.modifier_filter, 0.3);
  flip(b.device_filter, 0.2);
  flip(b.on_release, 0.5);
  flip(b.forward_mods, 0.2);
  flip(b.abstract, 0.4);
  flip(b.chords, 0.5);
  flip(b.sequences, 0.6);
  flip(b.not_keys, 0.5);
  flip(b.not_any_out, 0.3);
  flip(b.held_virtual, 0.5);
  return b;
}

namespace {
struct ConfGen {
  Rng& r;
  const ConfOpts& o;
  ConfInfo info;
  int abstract_used = 0, cmd = 0;
  std::string pick(const std::vector<std::string>& v) { return v[(size_t)r.range(0, (int64_t)v.size() - 1)]; }
  std::string trig() {
    if (o.mouse && r.chance(0.15)) { info.mouse = true; return pick(r.chance(0.5) ? BUTTONS : WHEELS); }
    return pick(TRIG);
  }
  std::string key_trig() { return pick(TRIG); }
  std::string mod() {
    if (o.logical && r.chance(0.4)) {
      static const std::vector<std::string> l = { "Shift", "Control", "Alt", "Meta" };
      return pick(l);
    }
    return pick(MODS);
  }
  std::string virt() {
    auto i = (int)r.range(1, 4);
    info.virtuals.insert(i);
    return "Virtual" + S(i);
  }
  std::string input() {
    for (;;) {
      switch (r.range(0, 17)) {
        case 0: case 1: case 2: return trig();
        case 3: case 4: return mod() + "{" + trig() + "}";
        case 5: { auto a = mod(), b = mod(); if (a == b) break;
          return r.chance(0.5) ? a + "{" + b + "{" + key_trig() + "}}" : "(" + a + " " + b + "){" + key_trig() + "}"; }
        case 6: if (!o.sequences) break; { auto a = key_trig(), b = key_trig();
          return r.chance(0.3) ? a + " " + b + " " + key_trig() : a + " " + b; }
        case 7: if (!o.chords) break; { auto a = key_trig(), b = key_trig(); if (a == b) break; return "(" + a + " " + b + ")"; }
        case 8: if (!o.not_keys) break; return "!" + mod() + " " + trig();
        case 9: { auto a = key_trig(), b = key_trig(); if (a == b) break; return a + "{" + b + "}"; }
        case 10: if (!o.any) break; return (r.chance(0.5) ? mod() : key_trig()) + "{Any}";
        case 11: if (!o.timeouts) break; { auto k = key_trig(), t = S(r.range(2, 12) * 50) + "ms";
          return !o.sequences || r.chance(0.7) ? k + "{" + t + "}" : r.chance(0.6) ? k + " " + t : k + "{" + t + "} " + key_trig(); }
        case 12: if (!o.not_timeouts) break; return (r.chance(0.5) ? mod() : key_trig()) + "{!" + S(r.range(2, 8) * 50) + "ms}";
        case 13: if (!o.not_timeouts || !o.sequences) break; { auto k = key_trig(), t = "!" + S(r.range(2, 8) * 50) + "ms", l = r.chance(0.3) ? k : key_trig();
          return r.chance(0.6) ? k + " " + t + " " + l : r.chance(0.5) ? k + "{" + t + "} " + l : k + "{" + t + "} " + t + " " + l; }
        case 14: if (!o.virt) break; return virt() + "{" + trig() + "}";
        case 15: if (!o.virt || !o.not_keys) break; return "!" + virt() + " " + trig();
        case 16: if (!o.virt || !o.held_virtual) break; return virt();
        case 17: if (!o.history) break; { static const std::vector<std::string> w = { "as", "sad", "dfg", "gah" }; return "? '" + pick(w) + "'"; }
      }
    }
  }
  std::string outkey() { return pick(OUTK); }
  std::string output(bool on_virtual = false) {
    for (;;) {
      switch (r.range(0, 15)) {
        case 0: case 1: case 2: return outkey();
        case 3: return mod() + "{" + outkey() + "}";
        case 4: return outkey() + " " + outkey();
        case 5: { auto a = outkey(), b = outkey(); if (a == b) break; return "(" + a + " " + b + ")"; }
        case 6: if (!o.on_release) break; return outkey() + " ^";
        case 7: if (!o.on_release) break; return outkey() + " ^ " + outkey();
        case 8: if (!o.on_release) break; return "^ " + outkey();
        case 9: if (!o.virt || on_virtual) break; return r.chance(0.2) ? "!" + virt() : virt();
        case 10: if (!o.delays) break; return outkey() + " " + S(r.range(1, 10) * 20) + "ms " + outkey();
        case 11: if (!o.delays) break; return outkey() + "{" + S(r.range(1, 10) * 20) + "ms}";
        case 12: if (!o.strings) break; { static const std::vector<std::string> w = { "\"xy\"", "'X1'", "\"wu \"" }; return pick(w); }
        case 13: if (!o.commands) break; return "$(prog" + S(cmd++) + ") ^";
        case 14: if (!o.not_keys) break; return r.chance(0.3) && o.not_any_out ? "!Any " + outkey() : "!" + mod() + " " + outkey();
        case 15: { static const std::vector<std::string> two = { "", }; if (r.chance(0.7)) break; return ""; }
      }
    }
  }
  std::string mapping() {
    auto in = input();
    if (o.any && in.find("{Any}") != std::string::npos)
      return in + " >> " + (r.chance(0.5) ? "Any" : mod() + "{Any}");
    auto on_virtual = in.rfind("Virtual", 0) == 0 && in.find('{') == std::string::npos;
    if (o.abstract && r.chance(0.15)) {
      auto name = "cmd" + S(abstract_used++);
      return in + " >> " + name;
    }
    return in + " >> " + output(on_virtual);
  }
};
}  // namespace

ConfInfo random_config(Rng& r, const ConfOpts& o) {
  ConfGen g{ r, o, {} };
  std::string t;
  if (o.forward_mods)
    t += "@forward-modifiers Shift Control\n";
  auto n = (int)r.range(o.min_map, o.max_map);
  std::set<int> stage_at;
  for (auto more = o.stages; more; more = stage_at.size() < 4 && r.chance(0.25)) stage_at.insert((int)r.range(1, n));
  g.info.titles = { "Editor", "Firefox", "Terminal" };
  std::string pending_abstract;
  auto done_abstract = 0;
  auto close_stage = [&]() {
    if (done_abstract == g.abstract_used)
      return;
    auto from = done_abstract;
    t += "\n[default]\n";
    for (auto i = from; i < g.abstract_used; ++i)
      t += "cmd" + S(i) + " >> " + g.output() + "\n";
    if (o.contexts && r.chance(0.6)) {
      t += "\n[title=\"" + g.pick(g.info.titles) + "\"]\n";
      t += "cmd" + S(r.range(from, g.abstract_used - 1)) + " >> " + g.output() + "\n";
    }
    done_abstract = g.abstract_used;
  };
  for (auto i = 0; i < n; ++i) {
    if (stage_at.count(i)) {
      close_stage();
      t += "\n[stage]\n";
    }
    if (i && o.contexts && r.chance(0.3)) {
      std::string blocks;
      for (auto again = true; again; again = r.chance(0.2)) switch (r.range(0, 5)) {
        case 0: blocks += "\n[title=\"" + g.pick(g.info.titles) + "\"]\n"; break;
        case 1: blocks += "\n[title!=\"" + g.pick(g.info.titles) + "\"]\n"; break;
        case 2: blocks += "\n[class=\"editor\"]\n"; break;
        case 3: blocks += "\n[path=\"bin/term\"]\n"; break;
        case 4: if (o.modifier_filter) { blocks += "\n[modifier=\"" + std::string(r.chance(0.3) ? "!" : "") + (o.virt && r.chance(0.5) ? g.virt() : g.mod()) + "\"]\n"; break; } [[fallthrough]];
        case 5: if (o.device_filter) { blocks += r.chance(0.7) ? "\n[device=\"Keyboard One\"]\n" : "\n[device=\"Keyboard Two\"]\n"; break; }
          blocks += "\n[default]\n"; break;
      }
      // without an empty line in between consecutive blocks share mappings
      for (size_t p = 1; (p = blocks.find("]\n\n[", p)) != std::string::npos; ++p)
        if (r.chance(0.7)) blocks.erase(p + 1, 1);
      t += blocks;
      if (o.context_active && r.chance(0.4))
        t += o.virt && r.chance(0.6) ? [&] { auto v = g.virt(); return "ContextActive >> " + v + " ^ " + v + "\n"; }() :
          "ContextActive >> $(active" + S(g.cmd++) + ") ^ " + g.outkey() + "\n";
      // releasing all keys does not concern what is held by a context
      if (o.context_active && o.not_keys && o.not_any_out && r.chance(0.3)) t += g.key_trig() + " >> !Any " + g.outkey() + "\n";
    }
    t += g.mapping() + "\n";
  }
  close_stage();
  g.info.text = t;
  return g.info;
}

int64_t human_gap(Rng& r) {
  auto c = r.range(0, 99);
  if (c < 8) return r.range(50, 900);              // chord or bounce
  if (c < 45) return r.range(1000, 30000);         // fast roll
  if (c < 80) return r.range(30000, 160000);
  if (c < 96) return r.range(160000, 600000);
  return r.range(600000, 1500000);
}

bool Typist::is_down(const std::string& dev, int code) const {
  return std::find(down.begin(), down.end(), std::make_pair(dev, code)) != down.end();
}
void Typist::press(int64_t gap, const std::string& dev, const std::string& key) {
  auto c = key_code(key);
  s.add(gap, "key", { dev, S(c), "1" });
  down.push_back({ dev, c });
}
void Typist::release(int64_t gap, const std::string& dev, const std::string& key) {
  auto c = key_code(key);
  s.add(gap, "key", { dev, S(c), "0" });
  down.erase(std::remove(down.begin(), down.end(), std::make_pair(dev, c)), down.end());
}
void Typist::random(int64_t gap, const std::vector<std::pair<std::string, std::string>>& keys, int maxdown, double repeat) {
  if (!down.empty() && r.chance(repeat)) {
    auto& d = down.back();
    s.add(gap, "key", { d.first, S(d.second), "2" });
    return;
  }
  if (!down.empty() && ((int)down.size() >= maxdown || r.chance(0.5))) {
    auto i = r.range(0, (int64_t)down.size() - 1);
    auto d = down[(size_t)i];
    s.add(gap, "key", { d.first, S(d.second), "0" });
    down.erase(down.begin() + i);
    return;
  }
  for (auto t = 0; t < 8; ++t) {
    auto& k = keys[(size_t)r.range(0, (int64_t)keys.size() - 1)];
    auto c = key_code(k.second);
    if (is_down(k.first, c))
      continue;
    s.add(gap, "key", { k.first, S(c), "1" });
    down.push_back({ k.first, c });
    return;
  }
  s.add(gap, "wait");
}
void Typist::wheel(int64_t gap, const std::string& dev, bool horizontal, int value, bool hires) {
  std::vector<std::string> a = { dev, S(EV_REL), S(horizontal ? REL_HWHEEL : REL_WHEEL), S(value) };
  if (hires) {
    a.insert(a.end(), { S(EV_REL), S(horizontal ? REL_HWHEEL_HI_RES : REL_WHEEL_HI_RES), S(value * 120) });
  }
  s.add(gap, "ev", a);
}
void Typist::move(int64_t gap, const std::string& dev, int dx, int dy) {
  s.add(gap, "ev", { dev, S(EV_REL), S(REL_X), S(dx), S(EV_REL), S(REL_Y), S(dy) });
}
void Typist::release_all(int64_t gap) {
  s.pin(gap, "releaseall");
  down.clear();
}

void add_faults(Scenario& s, Rng& r, unsigned sets) {
  auto set = [&](FaultKind k, int ppm, int mask, int64_t max) {
    s.set(std::string("fault.") + fault_names[k], S(ppm) + "," + S(mask) + "," + S(max));
  };
  if (sets & FS_TIMING) {
    if (r.chance(0.6)) set(F_STALL, (int)r.range(500, 20000), (int)r.range(1, 7), r.chance(0.3) ? 30000 : 2000);
    if (r.chance(0.6)) set(F_WAKE, (int)r.range(500, 50000), (int)r.range(1, 7), r.chance(0.3) ? 20000 : 2000);
  }
  if (sets & FS_SLOW && r.chance(0.4))
    set(F_STALL, (int)r.range(200, 3000), (int)r.range(1, 7), 300000);
  if (sets & FS_FRAG) {
    if (r.chance(0.6)) set(F_SHORT_RECV, (int)r.range(5000, 400000), 7, r.chance(0.5) ? 4 : 40);
    if (r.chance(0.6)) set(F_SHORT_SEND, (int)r.range(5000, 400000), 7, r.chance(0.5) ? 4 : 40);
    if (r.chance(0.4)) set(F_SEND_AGAIN, (int)r.range(1000, 100000), 7, 1);
  }
  if (sets & FS_EINTR && r.chance(0.5))
    set(F_EINTR, (int)r.range(1000, 50000), 7, 1);
  s.set("base_cost_ns", r.chance(0.5) ? 2000 : r.range(300, 15000));
}

void prologue(Scenario& s, Rng& r, const Setup& u) {
  s.set("phase_us", r.range(0, 999999));
  static const char* kn[] = { "Keyboard One", "Keyboard Two", "Keyboard Three" };
  static const char* mn[] = { "Mouse One", "Mouse Two" };
  for (auto i = 0; i < u.keyboards; ++i)
    s.pin(0, "dev", { "kb" + S(i), "keyboard", kn[i % 3], "usb-kb" + S(i) + "-event-kbd" });
  for (auto i = 0; i < u.mice; ++i)
    s.pin(0, "dev", { "m" + S(i), u.hires ? "mousehires" : "mouse", mn[i % 2], "usb-mouse" + S(i) + "-event-mouse" });
  for (auto& w : u.windows)
    s.pin(0, "window", w);
  if (u.focus >= 0)
    s.pin(0, "focus", { S(u.focus) });
  s.pin(0, "conf", { CONF, u.conf });
  auto dargs = u.daemon_args, cargs = u.client_args;
  dargs.insert(dargs.begin(), "daemon");
  cargs.insert(cargs.begin(), "client");
  if (u.client_first) {
    s.pin(0, "start", cargs);
    s.pin(r.range(0, 300000), "start", dargs);
  }
  else {
    s.pin(0, "start", dargs);
    s.pin(r.range(0, 300000), "start", cargs);
  }
  s.pin(u.ready_us, "mark", { "ready" });
}

void settle(Scenario& s, int64_t us, const std::set<int>& virtuals) {
  s.pin(100000, "calm", { "1" });
  s.pin(10000, "releaseall");
  s.pin(us, "mark", { "released" });
  for (auto v : virtuals)
    s.pin(300000, "ctl", { "--release", "Virtual" + S(v) });
  s.pin(us, "mark", { "settled" });
}

bool conf_accepted() {
  for (auto& r : W->log)
    if (r.type == R_GRAB)
      return true;
  return false;
}

std::vector<std::string> stuck_keys() {
  std::vector<std::string> r;
  for (auto& d : W->devs)
    if (d->present)
      for (auto k = 0; k < KEYS; ++k)
        if (d->deskdown.test((size_t)k)) {
          // press the desktop saw last
          Time pressed = -1, grabbed = -1, query = -1, waiting = -1;
          for (auto& e : W->log) {
            if (e.type == R_DESK && e.a == d->id && e.b == k && e.c == 1) { pressed = e.t; grabbed = -1; }
            if (e.type == R_UNGRAB && e.a == d->id && grabbed < 0) waiting = -1;
            if (e.type == R_KEYQ && e.a == d->id && grabbed < 0) {
              query = e.t;
              if (!e.b) waiting = -1;
              else if (waiting < 0) waiting = e.t;
            }
            if (e.type == R_GRAB && e.a == d->id && grabbed < 0 && pressed >= 0) grabbed = e.t;
          }
          if (!d->virt && grabbed >= 0 && (pressed >= query || (waiting >= 0 && grabbed - waiting >= 4900 * MS)))
            continue;
          r.push_back(key_name(k) + "@" + d->name);
        }
  return r;
}

int count(RecType type) {
  auto n = 0;
  for (auto& r : W->log)
    n += r.type == type;
  return n;
}

}  // namespace sim
