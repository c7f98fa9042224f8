#include <sstream>
// Selecting, plugging and unplugging devices.
#include <deque>
#include <tuple>
#include <utility>
#include "props.h"
#include <csignal>
#include <algorithm>
#include <linux/input.h>
#include <optional>
#include <regex>

namespace sim {

//---------------------------------------------------------------- C16
namespace {
struct DevType { const char* type; const char* name; const char* id; };
}
static const std::vector<DevType> DEVS = {
  { "keyboard", "Keyboard One", "usb-Maker_Keyboard_One-event-kbd" },
  { "keyboard", "Keyboard Two", "usb-Maker_Keyboard_Two-event-kbd" },
  { "keyboard", "Keyboard Two", "usb-Maker_Keyboard_Two-if02-event-kbd" },
  { "keyboardrel", "Wireless Receiver", "usb-Receiver-event-kbd" },
  { "keyboardvolume", "keyboard one", "" },
  { "mouse", "Mouse One", "usb-Maker_Mouse-event-mouse" },
  { "mousehires", "Mouse Two", "" },
  { "touchpad", "Touchpad", "platform-touchpad-event" },
  { "gamepad", "Game Controller", "usb-Controller-event-joystick" },
  { "power", "Power Button", "" },
  { "lid", "Lid Switch", "" },
  { "switchonly", "Video Switch", "" },
  { "media", "Media Remote", "usb-Remote-event" },
  { "tablet", "Pen Tablet", "usb-Tablet-event-kbd" },
};

// a key the devices of the type have
static int c16_key(const std::string& type) {
  if (type.find("mouse") == 0 || type == "touchpad") return BTN_LEFT;
  if (type == "gamepad") return BTN_SOUTH;
  if (type == "power") return KEY_POWER;
  if (type == "lid") return KEY_WAKEUP;
  if (type == "media") return KEY_VOLUMEDOWN;
  return KEY_A;
}

static std::string c16_filter(Rng& r, const std::vector<DevType>& devs, bool by_id) {
  auto& d = devs[(size_t)r.range(0, (int64_t)devs.size() - 1)];
  std::string v = by_id ? d.id : d.name;
  switch (r.range(0, 5)) {
    case 0: return "/.*/";
    case 1: return "/" + std::string(by_id ? r.chance(0.5) ? "kbd" : "usb-" : r.chance(0.5) ? "Keyboard" : "One") + "/";
    case 2: return by_id ? "/^usb.*(mouse|Two)/" : r.chance(0.5) ? "/keyboard/i" : "/^(Mouse|Touch|Game|Lid|Pen)/";
    case 3: return v.empty() ? "/.+/" : "\"" + v.substr(0, v.size() - 1) + "\"";   // not the whole name
  }
  return v.empty() ? "/.+/" : "\"" + v + "\"";
}

static std::string c16_config(Rng& r, const std::vector<DevType>& devs, bool contexts) {
  std::string t;
  auto n = r.chance(0.35) ? 0 : r.range(1, 4);
  for (auto i = 0; i < n; ++i) {
    auto by_id = r.chance(0.35);
    t += std::string(r.chance(0.5) ? "@grab-device" : "@skip-device") + (by_id ? "-id " : " ") + c16_filter(r, devs, by_id) + "\n";
  }
  if (r.chance(0.4)) t += "ButtonBack >> Insert\n";
  t += "K >> Delete\n";
  if (contexts)
    for (auto i = 0; i < 3; ++i) {
      auto by_id = r.chance(0.4);
      t += std::string("[device") + (by_id ? "-id=" : "=") + c16_filter(r, devs, by_id) + "]\nA >> " + OUTK[(size_t)(3 * i) % OUTK.size()] + "\n";
    }
  return t;
}

static void gen_c16(Scenario& s, Rng& r) {
  std::vector<DevType> devs;
  auto count = r.chance(0.985) ? r.range(1, 6) : r.range(7, 60);
  static std::string long_names[80];
  for (auto i = 0; i < count; ++i) {
    devs.push_back(r.chance(0.5) ? DEVS[(size_t)r.range(0, 6)] : DEVS[(size_t)r.range(0, (int64_t)DEVS.size() - 1)]);
    if (r.chance(0.08)) {
      // the name does not fit in the name of a virtual device
      auto& n = long_names[i];
      n = devs.back().name;
      auto len = (size_t)r.range(60, 90);
      while (n.size() < len) n += " Edition " + S((int64_t)n.size());
      devs.back().name = n.c_str();
    }
  }
  auto keys = std::vector<int>();
  s.set("phase_us", r.range(0, 999999));
  if (r.chance(0.5)) s.set("link_delay_us", r.range(100, 40000));
  if (r.chance(0.5)) s.set("unplug_gap_us", r.range(5, 30000));
  auto plugged = std::vector<bool>();
  auto key = [](int i) { return "d" + S(i); };
  auto plug = [&](int64_t gap, int i) {
    auto& d = devs[(size_t)i];
    std::string id = d.id;
    if (!id.empty()) id += "-" + S(i);
    s.add(gap, "dev", { key(i), d.type, d.name, id });
  };
  for (auto i = 0; i < count; ++i) {
    plugged.push_back(i == 0 || r.chance(0.6));
    if (plugged.back()) plug(0, i);
  }
  auto known = plugged;                   // was plugged before
  auto contexts = r.chance(0.8);
  s.pin(0, "window", WINDOWS[0]);
  s.pin(0, "focus", { "0" });
  s.pin(0, "conf", { CONF, c16_config(r, devs, contexts) });
  s.pin(0, "start", { "daemon" });
  s.pin(r.range(0, 300000), "start", { "client" });
  if (r.chance(0.4)) add_faults(s, r, FS_TIMING | (r.chance(0.3) ? FS_FRAG | FS_EINTR : 0));
  if (r.chance(0.1)) s.set("fault.grab_busy", S(r.range(10000, 300000)) + ",1,1");
  if (r.chance(0.1)) s.set("fault.open_error", S(r.range(1000, 30000)) + ",1,1");
  auto hold = [&](int64_t gap, int i, int64_t us) {
    auto code = S(c16_key(devs[(size_t)i].type));
    s.add(gap, "key", { key(i), code, "1" });
    s.add(us, "key", { key(i), code, "0" });
  };
  auto gap = [&]() -> int64_t {
    switch (r.range(0, 4)) {
      case 0: return r.range(0, 300);
      case 1: return r.range(0, 5000);
      case 2: return r.range(0, 60000);
      default: return r.range(1000, 1500000);
    }
  };
  auto running = true;
  auto rounds = r.range(1, 4);
  for (auto k = 0; k < rounds; ++k) {
    auto n = r.range(k ? 1 : 0, 5);
    for (auto j = 0; j < n; ++j) {
      auto i = (int)r.range(0, count - 1);
      auto x = (size_t)i;
      switch (r.range(0, 9)) {
        case 0: case 1: case 2: case 3: case 4:
          if (!plugged[x]) {
            if (known[x]) s.add(gap(), "replug", { key(i) }); else plug(gap(), i);
            plugged[x] = known[x] = true;
            if (r.chance(0.3)) hold(gap() / 4, i, r.range(10000, 900000));
          }
          else if (r.chance(0.6)) {
            s.add(gap(), "unplug", { key(i) });
            plugged[x] = false;
            if (r.chance(0.3)) { s.add(gap() / 4, "replug", { key(i) }); plugged[x] = true; }
          }
          else if (r.chance(0.4)) {       // unplugged while a key is held
            s.add(gap(), "key", { key(i), S(c16_key(devs[x].type)), "1" });
            s.add(r.range(1000, 400000), "unplug", { key(i) });
            plugged[x] = false;
          }
          break;
        case 5: if (plugged[x]) hold(gap(), i, r.range(5000, 1200000)); break;
        case 6: case 7:
          s.add(gap(), "conf", { CONF, c16_config(r, devs, contexts) });
          s.add(r.range(50000, 150000), "tray", { "Reload" });
          break;
        case 8:
          if (running) s.add(gap(), "kill", { "client", r.chance(0.5) ? "9" : "15" });
          else s.add(gap(), "start", { "client" });
          running = !running;
          break;
        case 9: {
          // a key is held while another device is plugged
          auto o = (int)r.range(0, count - 1);
          if (o == i || !plugged[(size_t)o] || plugged[x]) break;
          auto code = S(c16_key(devs[(size_t)o].type));
          s.add(gap(), "unplug", { key(o) });
          s.add(r.range(1000, 300000), "replug", { key(o) });
          s.add(r.range(0, 200), "key", { key(o), code, "1" });
          if (known[x]) s.add(r.range(1000, 300000), "replug", { key(i) }); else plug(r.range(1000, 300000), i);
          plugged[x] = known[x] = true;
          s.add(r.range(1000, 800000), "key", { key(o), code, "0" });
          break;
        }
      }
    }
    s.pin(10000, "releaseall");
    s.pin(4200000, "mark", { "judge" });
    for (auto i = 0; i < count; ++i)
      if (plugged[(size_t)i]) hold(60000, i, r.range(5000, 30000));
    s.pin(300000, "wait");
  }
  s.pin(100000, "mark", { "end" });
}

namespace {
struct C16Filter { std::string text; std::optional<std::regex> re; bool by_id = false, skip = false; };
struct C16Context { C16Filter filter; std::string output; };
struct C16Conf { std::vector<C16Filter> filters; std::vector<C16Context> contexts; bool mice = false, ok = true; };
}
static bool c16_parse_filter(const std::string& text, C16Filter* f) {
  if (text.size() < 3) return false;
  if (text[0] == '"' && text.back() == '"') { f->text = text.substr(1, text.size() - 2); return true; }
  auto end = text.rfind('/');
  if (text[0] != '/' || end == 0) return false;
  auto flags = std::regex::ECMAScript;
  if (text.substr(end) == "/i") flags |= std::regex::icase;
  f->re = std::regex(text.substr(1, end - 1), flags);
  return true;
}
static bool c16_matches(const C16Filter& f, const Dev& d) {
  auto& v = f.by_id ? d.byid : d.name;
  return f.re ? std::regex_search(v, *f.re) : v == f.text;
}
static C16Conf c16_parse(const std::string& text) {
  C16Conf c;
  std::string line;
  for (auto ch : text + "\n") {
    if (ch != '\n') { line += ch; continue; }
    auto l = line;
    line.clear();
    if (l.empty()) continue;
    C16Filter f;
    if (l[0] == '@') {
      auto sp = l.find(' ');
      auto name = l.substr(1, sp - 1);
      f.skip = name.find("skip") == 0;
      f.by_id = name.find("-id") != name.npos;
      c.ok &= sp != l.npos && c16_parse_filter(l.substr(sp + 1), &f);
      c.filters.push_back(f);
    }
    else if (l[0] == '[') {
      auto eq = l.find('=');
      f.by_id = l.find("device-id") == 1;
      c.ok &= eq != l.npos && c16_parse_filter(l.substr(eq + 1, l.size() - eq - 2), &f);
      c.contexts.push_back({ f, "" });
    }
    else if (l.find("A >> ") == 0) {
      if (c.contexts.empty()) c.ok = false;
      else c.contexts.back().output = l.substr(5);
    }
    else if (l.find("Button") == 0) c.mice = true;
  }
  return c;
}
static bool c16_selected(const C16Conf& c, const Dev& d, const std::string& type) {
  if (type == "switchonly") return false;          // has no keys at all
  auto grab = type.find("keyboard") == 0 || type == "tablet" || type == "power" || type == "media";
  if (type.find("mouse") == 0) grab = c.mice;
  for (auto& f : c.filters)
    if (c16_matches(f, d)) grab = !f.skip;
  return grab;
}

static void check_c16(const Scenario& s, Outcome& o) {
  auto end = mark_time("end");
  if (end < 0) return;
  auto faulty = false;
  for (auto& p : s.params) if (p.first == "fault.stall" || p.first == "fault.late_wakeup") faulty = true;
  auto times = op_times(s);
  std::map<std::string, std::string> types;
  for (auto& op : s.ops) if (op.name == "dev") types[op.args[0]] = op.args[1];

  // grabs
  struct D { std::map<int64_t, Time> held; Time polls = -1, poll = -1; };
  std::map<int64_t, D> state;
  for (auto& e : W->log) {
    if (e.type == R_PHYS && e.b == EV_KEY) {
      auto& h = state[e.a].held;
      if (!e.d) h.erase(e.c);
      else h.emplace(e.c, e.t);
    }
    if (e.type == R_UNPLUG) state.erase(e.a);
    if (e.type == R_KEYQ) {
      auto& d = state[e.a];
      if (d.poll < 0 || e.t - d.poll > SEC) d.polls = e.t;
      d.poll = e.t;
    }
    if (e.type != R_GRAB) continue;
    auto& dev = *W->devs[(size_t)e.a];
    if (dev.virt) return fail(o, "the daemon took over the virtual device '" + dev.name + "'");
    if (W->procs[(size_t)e.proc]->kind != P_DAEMON) return fail(o, "a device was not taken over by the daemon");
    auto& d = state[e.a];
    for (auto& [code, since] : d.held) {
      if (d.poll >= 0 && since >= d.poll) continue;        // pressed in between
      if (d.poll >= 0 && e.t - d.polls > 4900 * MS && e.t - d.poll < 100 * MS) continue;
      return fail(o, "the daemon took over '" + dev.name + "' while " + key_name((int)code) + " was held");
    }
    o.probes["grabs"]++;
  }

  // when which configuration was loaded
  std::vector<std::pair<Time, C16Conf>> loaded;
  {
    std::string text;
    const auto prefix = std::string("conf ") + CONF + " ";
    for (auto& e : W->log) {
      if (e.type == R_OP && e.s.rfind(prefix, 0) == 0) {
        // written while it is being read
        if (!loaded.empty() && e.t < loaded.back().first + 500 * MS) { o.probes["rewritten"] = 1; return; }
        text = e.s.substr(prefix.size());
      }
      if ((e.type == R_START && W->procs[(size_t)e.proc]->kind == P_CLIENT) || (e.type == R_TRAY && e.a && e.s == "Reload")) {
        loaded.push_back({ e.t, c16_parse(text) });
        if (!loaded.back().second.ok) return;
      }
    }
  }

  // what is selected at each mark
  Time disturbed = W->start, held_until = W->start;
  auto client = false, tainted = false;
  std::map<std::string, int> down;
  struct Window { Time from, to; bool client; const C16Conf* conf; };
  std::vector<std::unique_ptr<C16Conf>> confs;
  std::vector<Window> windows;
  auto settle = 4 * SEC;
  Time tail = 0;
  for (auto& e : W->log)
    if (e.type == R_EXIT && W->procs[(size_t)e.proc]->kind == P_DAEMON) return;      // only by faults, or another property
  for (auto i = size_t{ }; i < s.ops.size(); ++i) {
    auto& op = s.ops[i];
    auto t = W->start + times.at[i];
    auto disturb = true;
    if (op.name == "start" && op.args[0] == "client") client = true;
    else if (op.name == "kill") client = false;
    else if (op.name == "conf" || op.name == "tray");
    else if (op.name == "dev" || op.name == "replug" || op.name == "unplug") { down.erase(op.args[0]); }
    else if (op.name == "key") {
      auto& n = down[op.args[0]];
      n = atoi(op.args[2].c_str()) ? 1 : 0;
      held_until = t;
      disturb = false;
    }
    else if (op.name == "releaseall") { down.clear(); held_until = t; disturb = false; }
    else disturb = false;
    if (disturb) { disturbed = t; continue; }
    if (op.name != "mark" || op.args[0] != "judge") continue;
    auto any = false;
    for (auto& d : down) any |= d.second != 0;
    if (any || t - held_until < settle || t - disturbed < settle) continue;
    auto conf = C16Conf();
    for (auto& l : loaded) if (l.first <= t) conf = l.second;
    // did the last scan fail
    tainted = false;
    for (auto& e : W->log) {
      if (e.t > t) break;
      if (e.type == R_FAULT && (e.s.find("grab_busy") != e.s.npos || e.s.find("open_error") != e.s.npos || e.a == F_GRAB_BUSY || e.a == F_OPEN_FAIL)) tainted = true;
      if (e.type == R_START && W->procs[(size_t)e.proc]->kind == P_CLIENT) tainted = false;
      if (e.type == R_PLUG || e.type == R_UNPLUG) tainted = false;
    }
    std::map<int64_t, bool> grabbed;
    std::map<int64_t, bool> present;
    for (auto& e : W->log) {
      if (e.t > t) break;
      if (e.type == R_PLUG) present[e.a] = true;
      if (e.type == R_UNPLUG) { present.erase(e.a); grabbed.erase(e.a); }
      if (e.type == R_GRAB) grabbed[e.a] = true;
      if (e.type == R_UNGRAB) grabbed.erase(e.a);
    }
    for (auto& [id, yes] : present) {
      auto& d = *W->devs[(size_t)id];
      auto want = client && c16_selected(conf, d, types[d.key]);
      auto is = grabbed.count(id) != 0;
      if (tainted && !is) continue;
      if (want != is)
        return fail(o, "'" + d.name + "' (" + d.byid + ") is " + (is ? "" : "not ") + "grabbed " + S((t - disturbed) / MS) + " ms after the last change");
      o.probes[is ? "judged_grabbed" : "judged_not_grabbed"]++;
    }
    if (tainted) { o.probes["tainted"]++; continue; }
    // which key strokes follow undisturbed
    Time to = end;
    for (auto j = i + 1; j < s.ops.size(); ++j)
      if (s.ops[j].name != "key" && s.ops[j].name != "wait") { to = W->start + times.at[j]; break; }
    // not the strokes which start the next disturbance
    for (auto j = i + 1; j < s.ops.size(); ++j)
      if (s.ops[j].name == "wait") { to = std::min(to, W->start + times.at[j] - 290 * MS); break; }
    confs.push_back(std::make_unique<C16Conf>(conf));
    windows.push_back({ t, to, client, confs.back().get() });
  }
  (void)tail;

  // key strokes are output as those of their device
  auto limit = (faulty ? 250 : 40) * MS;
  for (auto& w : windows)
    for (auto i = size_t{ }; i < s.ops.size(); ++i) {
      auto& op = s.ops[i];
      auto t = W->start + times.at[i];
      if (op.name != "key" || op.args[2] != "1" || t < w.from || t >= w.to) continue;
      // has to be a single stroke
      if (i + 1 >= s.ops.size() || s.ops[i + 1].name != "key" || s.ops[i + 1].args[0] != op.args[0] || s.ops[i + 1].args[2] != "0" ||
          (i > 0 && s.ops[i - 1].name == "key" && s.ops[i - 1].args[2] == "1")) break;
      if (t - W->start - times.at[i - 1] < 50 * MS) break;
      const Dev* d = nullptr;
      for (auto& e : W->log) {
        if (e.t > t) break;
        if (e.type == R_PLUG && W->devs[(size_t)e.a]->key == op.args[0]) d = W->devs[(size_t)e.a].get();
        if (e.type == R_UNPLUG && d && e.a == d->id) d = nullptr;
      }
      if (!d) continue;
      auto code = atoi(op.args[1].c_str());
      if (!d->keys.test((size_t)code)) continue;
      auto grabbed = w.client && c16_selected(*w.conf, *d, types[d->key]);
      auto want = code;
      if (grabbed && code == KEY_A)
        for (auto& c : w.conf->contexts)
          if (!c.output.empty() && c16_matches(c.filter, *d)) { want = key_code(c.output); break; }
      auto to = std::min<Time>(t + limit, i + 2 < s.ops.size() ? W->start + times.at[i + 2] : end);
      if (to - W->start - times.at[i + 1] < 30 * MS) continue;
      auto presses = 0, releases = 0;
      for (auto& e : desktop_events(t)) {
        if (e.t >= to) break;
        if (e.key != want || (e.virt ? !grabbed : grabbed || e.dev != d->id))
          return fail(o, "the desktop saw " + event_text(e.key, e.value) + (e.virt ? " of a virtual device" : "") + " instead of " +
            key_name(want) + " when " + key_name(code) + " was pressed on '" + d->name + "' at " + S((t - W->start) / MS) + " ms");
        (e.value ? presses : releases)++;
      }
      if (presses != 1 || releases != 1)
        return fail(o, "the desktop saw " + S(presses) + " presses and " + S(releases) + " releases of " + key_name(want) + " when " +
          key_name(code) + " was pressed on '" + d->name + "' at " + S((t - W->start) / MS) + " ms");
      o.probes["strokes"]++;
      if (want != code) o.probes["device_mappings"]++;
    }

  // others are not affected by plugging
  for (auto i = size_t{ }; i < W->log.size(); ++i) {
    auto& e = W->log[i];
    if (e.type != R_UNGRAB || !W->devs[(size_t)e.a]->present) continue;
    auto& d = *W->devs[(size_t)e.a];
    // by a client ending, a configuration, an unplugged device or a fault
    auto excused = false;
    for (auto j = i; j-- > 0 && !excused; ) {
      auto& x = W->log[j];
      if (x.t < e.t - 7 * SEC) break;
      if (x.type == R_UNPLUG || x.type == R_EXIT || x.type == R_TRAY || x.type == R_FAULT || (x.type == R_SIGNAL && x.a != SIGCHLD)) excused = true;
      if (x.type == R_OP && x.s.find("tray") == 0) excused = true;
      if (x.type == R_PLUG && x.a == e.a && W->link_delay) excused = true;     // the id was not known yet
    }
    if (!excused && e.t < end)
      return fail(o, "'" + d.name + "' was given up without reason at " + S((e.t - W->start) / MS) + " ms");
  }
}

//---------------------------------------------------------------- C20
namespace {
struct C20Dev { const char* type; const char* name; const char* byid; };
const C20Dev C20_OTHERS[] = {
  { "tablet", "Pen Tablet", "usb-Tablet-event" },
  { "touchpad", "Touchpad", "usb-Touchpad-event-mouse" },
  { "gamepad", "Game Controller", "usb-Controller-event-joystick" },
  { "lid", "Lid Switch", "" },
  { "media", "Media Keys", "usb-Media-event-kbd" },
};
}

static void c20_events(Scenario& s, Rng& r, const std::string& dev, const std::string& type, int64_t gap,
    std::map<std::string, int>& rest, bool* down) {
  std::vector<std::string> a = { dev };
  auto ev = [&](int t, int c, int64_t v) { a.insert(a.end(), { S(t), S(c), S(v) }); };
  auto pointer = type.find("mouse") == 0 || type.find("rel") != std::string::npos;
  auto hires = type.find("rel") != std::string::npos || type.find("hires") != std::string::npos;
  if (pointer) {
    auto k = r.range(0, 9);
    if (k < 5) {
      ev(EV_REL, REL_X, r.chance(0.1) ? 0 : r.range(-200, 200));
      if (r.chance(0.7)) ev(EV_REL, REL_Y, r.range(-20, 20));
    }
    else if (k < 7) {
      if (type.find("noscan") == std::string::npos) ev(EV_MSC, MSC_SCAN, 0x90001);
      *down = !*down;
      ev(EV_KEY, dev == "m0" ? BTN_LEFT : dev == "m1" ? BTN_RIGHT : BTN_MIDDLE, *down);
      if (r.chance(0.1)) ev(EV_REL, REL_X, r.range(1, 5));
    }
    else {
      auto h = r.chance(0.3);
      if (hires) {
        auto v = (int)(r.chance(0.3) ? r.range(1, 4) * 120 : r.chance(0.9) ? r.range(1, 119) : r.range(1, 4095)) * (r.chance(0.5) ? 1 : -1);
        auto& acc = rest[dev + (h ? "h" : "v")];
        acc += v;
        ev(EV_REL, h ? REL_HWHEEL_HI_RES : REL_WHEEL_HI_RES, v);
        if (acc / 120) ev(EV_REL, h ? REL_HWHEEL : REL_WHEEL, acc / 120);
        acc %= 120;
      }
      else
        ev(EV_REL, h ? REL_HWHEEL : REL_WHEEL, (r.chance(0.9) ? 1 : r.range(1, 34)) * (r.chance(0.5) ? 1 : -1));
      if (r.chance(0.1)) ev(EV_REL, REL_Y, r.range(1, 5));
    }
  }
  if (type == "tablet") {
    ev(EV_ABS, ABS_X, r.range(0, 2000));
    if (r.chance(0.6)) ev(EV_ABS, ABS_Y, r.range(0, 2000));
    if (r.chance(0.4)) ev(EV_ABS, ABS_PRESSURE, r.range(0, 2000));
    if (r.chance(0.3)) ev(EV_ABS, ABS_MISC, r.range(0, 2000));
    if (r.chance(0.3)) ev(EV_MSC, MSC_SERIAL, r.range(-1000, 100000));
    if (r.chance(0.1)) ev(EV_SW, SW_TABLET_MODE, r.range(0, 1));
  }
  if (type == "touchpad") {
    if (r.chance(0.4)) ev(EV_ABS, ABS_MT_SLOT, r.range(0, 3));
    if (r.chance(0.4)) ev(EV_ABS, ABS_MT_TRACKING_ID, r.range(-1, 3000));
    ev(EV_ABS, ABS_MT_POSITION_X, r.range(0, 4000));
    ev(EV_ABS, ABS_MT_POSITION_Y, r.range(0, 4000));
    ev(EV_ABS, ABS_X, r.range(0, 4000));
  }
  if (type == "gamepad")
    ev(EV_ABS, r.chance(0.5) ? ABS_X : r.chance(0.5) ? ABS_RX : ABS_RY, r.range(-32768, 32767));
  if (type == "lid" || type.find("switch") != std::string::npos)
    if (!pointer || r.chance(0.2)) ev(EV_SW, type == "lid" ? SW_LID : SW_TABLET_MODE, r.range(0, 1));
  if (type == "media" || type.find("volume") != std::string::npos)
    if (!pointer || r.chance(0.2)) ev(EV_ABS, ABS_VOLUME, r.range(0, 100));
  if (a.size() > 1) s.add(gap, "ev", a);
}

static void gen_c20(Scenario& s, Rng& r) {
  std::vector<std::pair<std::string, std::string>> devs;
  auto dev = [&](const std::string& key, const std::string& type, const std::string& name, const std::string& byid) {
    devs.push_back({ key, type });
    s.pin(0, "dev", { key, type, name, byid });
  };
  std::string kb = "keyboard";
  if (r.chance(0.2)) kb += "volume";
  if (r.chance(0.2)) kb += "rel";
  if (r.chance(0.2)) kb += "switch";
  dev("kb0", kb, "Keyboard One", "usb-kb0-event-kbd");
  auto mouse = [&]() { return std::string("mouse") + (r.chance(0.6) ? "hires" : "") + (r.chance(0.3) ? "noscan" : ""); };
  if (r.chance(0.9)) dev("m0", mouse(), "Mouse One", "usb-mouse0-event-mouse");
  if (r.chance(0.5)) dev("m1", mouse(), "Mouse Two", "usb-mouse1-event-mouse");
  Setup u;
  u.keyboards = 0;
  for (auto& d : C20_OTHERS)
    if (r.chance(0.2) && (std::string(d.type) != "media" || kb.find("volume") == std::string::npos)) {
      dev(d.type, d.type, d.name, d.byid);
      u.conf += std::string("@grab-device \"") + d.name + "\"\n";
    }
  u.conf += "ButtonBack >> Insert\nA >> B\n";
  // wheels mapped to others keep how far they were turned
  static const char* const WHEELS[] = { "WheelUp", "WheelDown", "WheelLeft", "WheelRight" };
  if (r.chance(0.25))
    for (auto w : WHEELS)
      if (r.chance(0.5)) u.conf += std::string(w) + " >> " + WHEELS[r.range(0, 3)] + (r.chance(0.3) ? std::string(" ") + WHEELS[r.range(0, 3)] : "") + "\n";
  if (r.chance(0.3)) u.conf += "W >> X " + S(r.range(20, 600)) + "ms Y\n";
  if (r.chance(0.2)) u.conf += "E{" + S(r.range(20, 600)) + "ms} >> F\n";
  if (r.chance(0.1)) u.conf += "R " + S(r.range(20, 600)) + "ms T >> G\n";
  prologue(s, r, u);
  if (r.chance(0.5))
    add_faults(s, r, FS_TIMING | (r.chance(0.3) ? FS_SLOW : 0) | (r.chance(0.2) ? FS_FRAG | FS_EINTR : 0));
  s.set("unplug_gap_us", S(r.range(100, 3000)));
  std::map<std::string, bool> down, gone;
  std::map<std::string, int> rest;
  Typist t{ s, r, {} };
  std::vector<std::pair<std::string, std::string>> keys = { { "kb0", "A" }, { "kb0", "W" }, { "kb0", "E" }, { "kb0", "R" }, { "kb0", "T" }, { "kb0", "Z" } };
  auto n = r.range(5, 80);
  auto plugs = r.chance(0.4);
  for (auto i = 0; i < n; ++i) {
    auto g = r.chance(0.6) ? r.range(200, 8000) : r.chance(0.1) ? 0 : r.range(8000, 400000);
    auto k = r.range(0, 19);
    auto& d = devs[(size_t)r.range(0, (int64_t)devs.size() - 1)];
    if (k < 2) t.random(g, keys, 2, 0.1);
    else if (k < 3 && plugs && d.first != "kb0") {
      s.add(g, gone[d.first] ? "replug" : "unplug", { d.first });
      gone[d.first] = !gone[d.first];
      down[d.first] = false;
      rest.erase(d.first + "h"); rest.erase(d.first + "v");
      if (r.chance(0.7)) s.add(r.range(1000, 600000), "wait");
    }
    else c20_events(s, r, d.first, d.second, g, rest, &down[d.first]);
  }
  settle(s, 1500000);
}

static void check_c20(const Scenario& s, Outcome& o) {
  if (!conf_accepted()) { o.probes["rejected"] = 1; return; }
  auto ready = mark_time("ready"), end = mark_time("settled");
  if (ready < 0 || end < 0) return;
  std::map<std::string, std::string> types;
  for (auto& op : s.ops) if (op.name == "dev") types[op.args[0]] = op.args[1];
  auto conf = conf_text(s);
  auto plain = conf.find("ms") == std::string::npos, buttons = plain;
  std::map<std::string, std::string> turned;
  {
    std::istringstream lines(conf);
    for (std::string line; std::getline(lines, line); ) {
      auto p = line.find(" >> ");
      if (line.find("Wheel") == 0 && p != std::string::npos) turned.emplace(line.substr(0, p), line.substr(p + 4));
    }
  }
  // disappearing devices release their buttons
  for (auto& op : s.ops) if (op.name == "unplug") buttons = false;
  for (auto& e : W->log) {
    if (e.type == R_EXIT && (W->procs[(size_t)e.proc]->kind == P_DAEMON || W->procs[(size_t)e.proc]->kind == P_CLIENT)) { o.probes["ended"] = 1; return; }
    // the daemon starts anew when a device disappears while it is read
    if (e.type == R_SOCKCLOSE && e.t > ready && e.proc >= 0 && W->procs[(size_t)e.proc]->kind == P_DAEMON) { o.probes["restarted"] = 1; return; }
  }
  auto is = [&](const Dev& d, const char* f) { return types[d.key].find(f) != std::string::npos; };
  auto finest = true;
  for (auto& [k, t] : types)
    if (t.find("mouse") == 0 && t.find("hires") == std::string::npos) finest = false;
  struct El { Time t; int type, code, value; int dev; bool optional = false; };
  std::vector<El> want, got;
  int64_t total[2] = { }, seen[2] = { };
  std::map<std::pair<int, int64_t>, bool> switched;
  std::map<int, Time> grabbed;
  std::map<int64_t, std::array<int64_t, 4>> wheels;     // of each virtual device: high and low resolution of both axes
  auto coarse = 0;                                      // those without high resolution, which keep a remainder
  for (auto& d : W->devs) coarse += d->virt && (d->rel >> REL_WHEEL & 1) && !(d->rel >> REL_WHEEL_HI_RES & 1);
  std::map<int64_t, Time> gone;
  for (auto& e : W->log) if (e.type == R_UNPLUG) gone[e.a] = e.t;
  int64_t loose[2] = { };
  auto button = [](int64_t c) { return c == BTN_LEFT || c == BTN_RIGHT || c == BTN_MIDDLE; };
  for (auto& e : W->log) {
    if (e.t >= ready && e.type == R_GRAB) grabbed[(int)e.a] = e.t;
    if (e.t < ready || (e.type != R_DREAD && e.type != R_DESKEV && e.type != R_DESK)) continue;
    auto& d = *W->devs[(size_t)e.a];
    if (e.type == R_DREAD) {
      if (e.b == EV_SYN) continue;
      // what a device sent right before it disappeared may get lost
      auto vanished = gone.count(d.id) && gone[d.id] - e.t < SEC;
      if (e.b == EV_KEY) {
        if (buttons && button(e.c) && e.d != 2) want.push_back({ e.t, EV_KEY, (int)e.c, (int)e.d, d.id });
        continue;
      }
      if (e.b == EV_MSC && e.c == MSC_SCAN && (e.d >> 16) == 7) continue;
      if (e.b == EV_REL && e.c != REL_X && e.c != REL_Y) {
        auto low = e.c == REL_WHEEL || e.c == REL_HWHEEL;
        if (low && (d.rel >> REL_WHEEL_HI_RES & 1)) continue;
        auto h = e.c == REL_HWHEEL || e.c == REL_HWHEEL_HI_RES;
        auto v = e.d * (low ? 120 : 1);
        auto it = turned.find(h ? (v < 0 ? "WheelLeft" : "WheelRight") : v < 0 ? "WheelDown" : "WheelUp");
        std::vector<std::pair<bool, int64_t>> parts = { { h, v } };
        if (it != turned.end()) {
          parts.clear();
          std::istringstream words(it->second);
          for (std::string w; words >> w; ++o.probes["mapped_wheel"])
            parts.push_back({ w == "WheelLeft" || w == "WheelRight", std::abs(v) * (w == "WheelLeft" || w == "WheelDown" ? -1 : 1) });
        }
        ++o.probes["wheel"];
        for (auto& [h, v] : parts) {
          total[h] += v;
          if (vanished) loose[h] += std::abs(v);
          if (finest && plain) want.push_back({ e.t, EV_REL, h ? REL_HWHEEL_HI_RES : REL_WHEEL_HI_RES, (int)v, d.id, vanished });
        }
        continue;
      }
      auto v = (int)e.d;
      // a switch may have changed before its device was grabbed
      if (e.b == EV_SW && !std::exchange(switched[{ d.id, e.c }], v != 0) && !v) continue;
      if (e.b == EV_ABS && e.c == ABS_VOLUME && is(d, "keyboard") && !is(d, "rel") && !is(d, "switch")) v = v * 1023 / 100;
      // the counterpart of a device starts at the position the device then has
      auto optional = vanished || (e.b == EV_ABS && grabbed.count(d.id) && e.t - grabbed[d.id] < SEC);
      want.push_back({ e.t, (int)e.b, (int)e.c, v, d.id, optional });
    }
    else if (d.virt) {
      if (e.type == R_DESK) {
        if (buttons && button(e.b) && e.c != 2) got.push_back({ e.t, EV_KEY, (int)e.b, (int)e.c, d.id });
        continue;
      }
      if (e.b == EV_REL && e.c != REL_X && e.c != REL_Y) {
        auto h = e.c == REL_HWHEEL || e.c == REL_HWHEEL_HI_RES;
        auto low = e.c == REL_HWHEEL || e.c == REL_WHEEL;
        auto& w = wheels[d.id];
        auto has = (d.rel >> REL_WHEEL_HI_RES & 1) != 0;
        w[h * 2 + low] += e.d;
        if (low ? !has : has) {
          seen[h] += e.d * (low ? 120 : 1);
          if (finest && plain) got.push_back({ e.t, EV_REL, (int)(h ? REL_HWHEEL_HI_RES : REL_WHEEL_HI_RES), (int)e.d * (low ? 120 : 1), d.id });
        }
        // the last event of a frame is the one in low resolution
        if (low && has && std::abs(w[h * 2] - w[h * 2 + 1] * 120) >= 120)
          return fail(o, "resolutions differ: the wheel was moved by " + S(w[h * 2]) + " in high, but by " + S(w[h * 2 + 1]) + " detents in low resolution");
        continue;
      }
      // scan codes of keys are of no interest
      if (e.b == EV_MSC && e.c == MSC_SCAN && (e.d >> 16) == 7) continue;
      got.push_back({ e.t, (int)e.b, (int)e.c, (int)e.d, d.id });
    }
  }
  for (auto& [id, w] : wheels) {
    auto has = (W->devs[(size_t)id]->rel >> REL_WHEEL_HI_RES & 1) != 0;
    if (!has) continue;
    for (auto h : { 0, 1 })
      if (std::abs(w[h * 2] - w[h * 2 + 1] * 120) >= 120)
        return fail(o, "resolutions differ: the wheel was moved by " + S(w[h * 2]) + " in high, but by " + S(w[h * 2 + 1]) + " detents in low resolution");
  }
  auto text = [](const El& e) { return S(e.type) + "/" + S(e.code) + "=" + S(e.value); };
  // the order is kept for each device, the events of different devices may pass each other
  std::map<int, int> counterpart;
  std::map<std::pair<int, bool>, std::deque<El>> queues;
  for (auto& e : want) queues[{ e.dev, e.type == EV_MSC }].push_back(e);
  auto describe = [&](const El& e) { return text(e) + " of " + W->devs[(size_t)e.dev]->name + " at " + S((e.t - W->start) / MS) + " ms"; };
  for (auto& b : got) {
    std::deque<El>* from = nullptr;
    auto candidates = 0;
    auto rank = [&](const El& e) { auto it = counterpart.find(e.dev); return std::make_tuple(it == counterpart.end() || it->second != b.dev, e.optional, e.t); };
    for (auto& [dev, q] : queues) {
      auto matches = [&](const El& e) {
        auto slack = e.type == EV_ABS && e.code == ABS_VOLUME && is(*W->devs[(size_t)e.dev], "volume") ? 1 : 0;
        return e.t <= b.t && !(e.optional && b.t - e.t > SEC) && e.type == b.type && e.code == b.code && std::abs(e.value - b.value) <= slack;
      };
      auto skip = size_t{ };
      while (skip < q.size() && q[skip].optional && !matches(q[skip])) ++skip;
      if (skip == q.size() || !matches(q[skip])) continue;
      q.erase(q.begin(), q.begin() + (std::ptrdiff_t)skip);
      auto& e = q.front();
      ++candidates;
      if (!from || rank(e) < rank(from->front())) from = &q;
    }
    if (!from) {
      std::string next;
      for (auto& [dev, q] : queues)
        if (!q.empty() && q.front().t <= b.t) next += (next.empty() ? " instead of " : " or ") + describe(q.front());
      return fail(o, (next.empty() ? "made up: " : "changed: ") + text(b) + " at " + S((b.t - W->start) / MS) + " ms" + next);
    }
    auto a = from->front();
    from->pop_front();
    if (b.t - a.t > SEC) return fail(o, "late: " + text(b) + " after " + S((b.t - a.t) / MS) + " ms");
    ++o.probes["compared_events"];
    if (candidates > 1 || a.type == EV_KEY || a.type == EV_MSC || (a.type == EV_REL && a.code != REL_X && a.code != REL_Y)) continue;
    auto [it, added] = counterpart.emplace(a.dev, b.dev);
    if (!added && it->second != b.dev) {
      auto destroyed = false;
      for (auto& e : W->log) destroyed |= e.type == R_VDESTROY && e.a == it->second && e.t <= b.t;
      if (!destroyed) return fail(o, "other device: " + text(b) + " of " + W->devs[(size_t)a.dev]->name + " came from another device than before");
      it->second = b.dev;
    }
  }
  for (auto& [dev, q] : queues)
    for (auto& e : q)
      if (!e.optional) return fail(o, "lost: " + describe(e));
  for (auto& [p, v] : counterpart)
    for (auto& [p2, v2] : counterpart)
      if (p < p2 && v == v2 && (W->devs[(size_t)p]->rel & 1) && (W->devs[(size_t)p2]->rel & 1) && W->devs[(size_t)p]->key != W->devs[(size_t)p2]->key)
        return fail(o, "mixed: two pointing devices share a counterpart");
  for (auto& [p, v] : counterpart) {
    auto& d = *W->devs[(size_t)p];
    auto& c = *W->devs[(size_t)v];
    for (auto& [axis, i] : d.absinfo) {
      if (axis == ABS_VOLUME) continue;
      auto it = c.absinfo.find(axis);
      if (it == c.absinfo.end() || it->second.min != i.min || it->second.max != i.max || it->second.fuzz != i.fuzz ||
          it->second.flat != i.flat || it->second.res != i.res)
        return fail(o, "other range: axis " + S(axis) + " of the counterpart of " + d.name);
      ++o.probes["axes"];
    }
    if (!d.absinfo.empty() && !is(d, "keyboard") && !is(d, "media") && c.props != d.props)
      return fail(o, "other properties: the counterpart of " + d.name);
  }
  for (auto h : { 0, 1 })
    if (std::abs(total[h] - seen[h]) > 119 * coarse + loose[h])
      return fail(o, std::string("wheel: moved by ") + S(total[h]) + " but the desktop saw " + S(seen[h]));
  auto stuck = stuck_keys();
  if (!stuck.empty()) return fail(o, "not released: " + stuck[0]);
}

void register_device(std::vector<Property>& list) {
  list.push_back({ "C20", "pointer, wheel and other events", gen_c20, check_c20, 1, nullptr, nullptr,
    "at least 5 events were compared with those which were read from the devices",
    [](const Outcome& o) { return o.get("compared_events") + o.get("wheel") >= 5; }, 20000, "" });
  list.push_back({ "C16", "exactly the intended devices grabbed", gen_c16, check_c16, 1, nullptr, nullptr,
    "devices were plugged or the configuration changed, and afterwards the set of grabbed devices and the key strokes of each device were compared with what the directives select",
    [](const Outcome& o) { return o.get("judged_grabbed") + o.get("judged_not_grabbed") >= 2 && o.get("strokes") >= 1; }, 20000, "" });
}

}  // namespace sim
