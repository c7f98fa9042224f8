#include "scenario.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <linux/input.h>
#include <sstream>

namespace sim {

std::string Scenario::text() const {
  std::ostringstream o;
  o << "kmsim-scenario 1\n";
  o << "property " << property << "\n";
  o << "seed " << seed << "\n";
  for (auto& [k, v] : params)
    o << "param " << k << " " << escape(v) << "\n";
  if (explicit_faults)
    o << "explicit-faults\n";
  for (auto& [k, v] : faults)
    o << "fault " << fault_names[k.kind] << " " << k.proc << " " << k.ord << " " << v << "\n";
  for (auto& op : ops) {
    o << (op.pinned ? "pin " : "op ") << op.gap << " " << op.name;
    for (auto& a : op.args)
      o << " " << escape(a);
    o << "\n";
  }
  o << "end\n";
  return o.str();
}

bool Scenario::parse(const std::string& text, Scenario* out, std::string* err) {
  std::istringstream in(text);
  std::string line;
  auto first = true, ended = false;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#')
      continue;
    std::istringstream ls(line);
    std::string word;
    ls >> word;
    if (first) {
      if (word != "kmsim-scenario") { *err = "not a scenario file"; return false; }
      first = false;
      continue;
    }
    if (word == "property") ls >> out->property;
    else if (word == "seed") ls >> out->seed;
    else if (word == "param") {
      std::string k, v;
      ls >> k >> v;
      out->params[k] = unescape(v);
    }
    else if (word == "explicit-faults") out->explicit_faults = true;
    else if (word == "fault") {
      std::string name, proc;
      uint64_t ord;
      int64_t value;
      ls >> name >> proc >> ord >> value;
      for (auto i = 0; i < F_NUM; ++i)
        if (name == fault_names[i])
          out->faults.push_back({ { i, proc, ord }, value });
    }
    else if (word == "op" || word == "pin") {
      Op op;
      op.pinned = (word == "pin");
      ls >> op.gap >> op.name;
      while (ls >> word)
        op.args.push_back(unescape(word));
      out->ops.push_back(std::move(op));
    }
    else if (word == "end") { ended = true; break; }
    else { *err = "unknown line: " + line; return false; }
  }
  if (!ended) { *err = "incomplete file"; return false; }
  return true;
}

//---------------------------------------------------------------- world
static void split_cfg(const std::string& s, FaultCfg* c) {
  long long ppm = 0, mask = 15, max = 1;
  sscanf(s.c_str(), "%lld,%lld,%lld", &ppm, &mask, &max);
  c->ppm = (uint32_t)ppm;
  c->procs = (uint32_t)mask;
  c->max = max;
}

void setup_world(const Scenario& s) {
  W = new World();
  W->seed = s.seed;
  W->log.reserve(4096);
  W->env["HOME"] = "/home/user";
  if (!s.get("xdg").empty()) W->env["XDG_CONFIG_HOME"] = s.get("xdg");
  W->explicit_faults = s.explicit_faults;
  for (auto& [k, v] : s.faults)
    W->given[k] = v;
  for (auto i = 0; i < F_NUM; ++i)
    if (auto v = s.get(std::string("fault.") + fault_names[i]); !v.empty())
      split_cfg(v, &W->fcfg[i]);
  W->sockcap = (size_t)s.num("sockcap", 200 * 1024);
  W->mtime_gran = s.num("mtime_gran", 1);
  W->link_delay = s.num("link_delay_us", 0) * US;
  W->unplug_gap = s.num("unplug_gap_us", 5) * US;
  W->base_cost = s.num("base_cost_ns", 2000);
  W->has_x11 = s.num("x11", 1);
  W->has_dbus = s.num("dbus", 0);
  W->has_wayland = s.num("wayland", 0);
  W->native_windows = (uint64_t)s.num("native", 0);
  W->has_tray = s.num("tray", 1);
  W->max_steps = (uint64_t)s.num("max_steps", 1500000);
  W->now = W->start = 1000 * SEC + s.num("phase_us", 0) * US;
}

static Dev& make_device(const std::string& key, const std::string& type, const std::string& name, const std::string& byid) {
  auto d = std::make_unique<Dev>();
  d->key = key;
  d->name = name;
  d->byid = byid;
  d->vendor = 0x1000 + (int)(hash_bytes(key.data(), key.size()) % 1000);
  auto keys = [&](int from, int to) { for (auto i = from; i <= to; ++i) d->keys.set((size_t)i); };
  d->ev = 1 << EV_SYN | 1 << EV_KEY;
  auto has = [&](const char* f) { return type.find(f) != std::string::npos; };
  if (has("keyboard")) {
    keys(1, 248);
    keys(0x160, 0x1ff);
    d->ev |= 1 << EV_MSC | 1 << EV_REP | 1 << EV_LED;
    d->msc = 1 << MSC_SCAN;
    d->rep = 3;
    d->led = 7;
    if (has("volume")) {
      d->ev |= 1 << EV_ABS;
      d->absb = 1ull << ABS_VOLUME;
      d->absinfo[ABS_VOLUME] = { 0, 0, 100, 0, 0, 0 };
    }
    if (has("switch")) {
      d->ev |= 1 << EV_SW;
      d->sw = 2;
    }
    if (has("rel")) {   // combined receiver: keyboard with pointer axes
      d->ev |= 1 << EV_REL;
      d->rel = 1 << REL_X | 1 << REL_Y | 1 << REL_WHEEL | 1 << REL_HWHEEL | 1 << REL_WHEEL_HI_RES | 1 << REL_HWHEEL_HI_RES;
      keys(0x110, 0x114);
    }
  }
  else if (has("mouse")) {
    keys(0x110, 0x114);
    d->ev |= 1 << EV_REL | 1 << EV_MSC;
    d->rel = 1 << REL_X | 1 << REL_Y | 1 << REL_WHEEL | 1 << REL_HWHEEL;
    if (has("hires"))
      d->rel |= 1 << REL_WHEEL_HI_RES | 1 << REL_HWHEEL_HI_RES;
    if (!has("noscan"))
      d->msc = 1 << MSC_SCAN;
    else d->ev &= ~(1ull << EV_MSC);
  }
  else if (has("touchpad")) {
    keys(0x110, 0x110);
    keys(0x145, 0x14f);
    d->ev |= 1 << EV_ABS;
    for (auto a : { ABS_X, ABS_Y, ABS_MT_SLOT, ABS_MT_POSITION_X, ABS_MT_POSITION_Y, ABS_MT_TRACKING_ID }) {
      d->absb |= 1ull << a;
      d->absinfo[a] = { 0, 0, 4000, 0, 0, 12 };
    }
    d->props = 5;
  }
  else if (has("gamepad")) {
    keys(0x130, 0x13e);
    d->ev |= 1 << EV_ABS;
    for (auto a : { ABS_X, ABS_Y, ABS_RX, ABS_RY }) {
      d->absb |= 1ull << a;
      d->absinfo[a] = { 0, -32768, 32767, 16, 128, 0 };
    }
  }
  else if (has("power")) {
    keys(116, 116);
  }
  else if (has("lid")) {
    d->ev = 1 << EV_SYN | 1 << EV_SW | 1 << EV_KEY;
    d->sw = 1;
    keys(143, 143);
  }
  else if (has("switchonly")) {
    d->ev = 1 << EV_SYN | 1 << EV_SW;
    d->sw = 1;
  }
  else if (has("media")) {
    keys(113, 115);
    keys(163, 165);
    d->ev |= 1 << EV_ABS | 1 << EV_MSC;
    d->msc = 1 << MSC_SCAN;
    d->absb = 1ull << ABS_VOLUME;
    d->absinfo[ABS_VOLUME] = { 0, 0, 1023, 0, 0, 0 };
  }
  else if (has("tablet")) {
    keys(0x140, 0x14f);
    keys(1, 60);
    d->ev |= 1 << EV_ABS | 1 << EV_SW | 1 << EV_MSC;
    d->sw = 2;
    d->msc = 1 << MSC_SERIAL;
    for (auto a : { ABS_X, ABS_Y, ABS_PRESSURE, ABS_MISC }) {
      d->absb |= 1ull << a;
      d->absinfo[a] = { 0, -a, 2000 + a, 1 + a % 3, 2 + a % 5, 10 + a };
    }
    d->props = 2;
  }
  return add_device(std::move(d));
}

static std::map<std::string, std::shared_ptr<Sock>> g_peers;

static Proc* proc_by_name(const std::string& name) {
  if (name == "daemon") return live(P_DAEMON);
  if (name == "client") return live(P_CLIENT);
  if (name == "ctl") return live(P_CTL);
  for (auto& p : W->procs)
    if (p->name == name && !p->exited)
      return p.get();
  return nullptr;
}

// version 1 of the protocol knows maximized, minimized and activated
void wayland_state(WlClient& c, int window) {
  auto& w = W->windows[(size_t)window];
  WlEvent e{ WL_STATE, window, "", {} };
  if (w.state.find("max") != std::string::npos) e.states.push_back(0);
  if (w.state.find("min") != std::string::npos) e.states.push_back(1);
  if (W->focus == window) e.states.push_back(2);
  c.queue.push_back(e);
  c.queue.push_back({ WL_DONE, window, "", {} });
}

void wayland_window(WlClient& c, int window, bool known) {
  auto& w = W->windows[(size_t)window];
  c.queue.push_back({ WL_NEW, window, "", {} });
  // a window which is just appearing gets its name later
  if (!known) wayland_state(c, window);
  c.queue.push_back({ WL_TITLE, window, w.title, {} });
  c.queue.push_back({ WL_APPID, window, w.cls, {} });
  if (known) wayland_state(c, window);
  else c.queue.push_back({ WL_DONE, window, "", {} });
}

void execute(const Op& op) {
  auto& a = op.args;
  auto arg = [&](size_t i) -> const std::string& {
    static std::string empty;
    return i < a.size() ? a[i] : empty;
  };
  auto num = [&](size_t i) { return (int)atoll(arg(i).c_str()); };
  auto& n = op.name;
  std::string joined = n;
  for (auto& x : a)
    joined += " " + x;
  record(R_OP, -1, 0, 0, 0, 0, joined);

  if (n == "dev") {          // dev key type name byid
    plug(make_device(arg(0), arg(1), arg(2), arg(3)));
  }
  else if (n == "replug") {  // same device appears again
    if (auto d = dev_by_key(arg(0)); d && !d->present) {
      auto c = std::make_unique<Dev>();
      c->key = d->key; c->name = d->name; c->byid = d->byid; c->bus = d->bus; c->vendor = d->vendor;
      c->product = d->product; c->version = d->version; c->ev = d->ev; c->rel = d->rel; c->absb = d->absb;
      c->msc = d->msc; c->sw = d->sw; c->led = d->led; c->rep = d->rep; c->props = d->props; c->keys = d->keys;
      c->absinfo = d->absinfo;
      plug(add_device(std::move(c)));
    }
  }
  else if (n == "unplug") {
    if (auto d = dev_by_key(arg(0)); d && d->present)
      unplug(*d);
  }
  else if (n == "key") {     // key dev code value
    if (auto d = dev_by_key(arg(0))) {
      auto before = d->frame.size();
      if (num(2) == 2 && (num(1) >= KEYS || !d->down.test((size_t)num(1))))
        return;              // only a held key repeats
      if (num(2) != 2 && d->down.test((size_t)num(1)) == (num(2) != 0))
        return;
      if (d->msc >> MSC_SCAN & 1 && num(2) != 2)
        dev_event(*d, EV_MSC, MSC_SCAN, 0x70000 + num(1));
      dev_event(*d, EV_KEY, (uint16_t)num(1), num(2));
      (void)before;
      dev_event(*d, EV_SYN, SYN_REPORT, 0);
    }
  }
  else if (n == "ev") {      // ev dev type code value [type code value]...
    if (auto d = dev_by_key(arg(0))) {
      for (size_t i = 1; i + 2 < a.size() + 0 || i + 2 == a.size() - 0; i += 3) {
        if (i + 2 >= a.size()) break;
        dev_event(*d, (uint16_t)num(i), (uint16_t)num(i + 1), num(i + 2));
      }
      dev_event(*d, EV_SYN, SYN_REPORT, 0);
    }
  }
  else if (n == "releaseall") {   // all physical keys go up
    // in the order in which the devices were first connected
    std::vector<std::string> order;
    for (auto& d : W->devs)
      if (!d->virt && std::find(order.begin(), order.end(), d->key) == order.end()) order.push_back(d->key);
    for (auto& key : order)
    for (size_t i = 0; i < W->devs.size(); ++i) {
      auto& d = *W->devs[i];
      if (d.virt || !d.present || d.key != key)
        continue;
      for (auto k = 0; k < KEYS; ++k)
        if (d.down.test((size_t)k)) {
          dev_event(d, EV_KEY, (uint16_t)k, 0);
          dev_event(d, EV_SYN, SYN_REPORT, 0);
          run_until(W->now + 300 * US);
        }
    }
  }
  else if (n == "window") {  // window title class path
    auto i = (int)W->windows.size();
    W->windows.push_back({ arg(0), arg(1), arg(2), arg(2).empty() ? 0 : 5000 + i, true, "" });
    for (auto& [index, c] : W->wayland)
      if (c.manager) wayland_window(c, i, false);
  }
  else if (n == "focus") {
    auto i = num(0), old = W->focus;
    if (i >= (int)W->windows.size() || (i >= 0 && !W->windows[(size_t)i].open)) return;
    if (i >= 0 && i < (int)W->windows.size()) {
      W->focus = i;
      auto& w = W->windows[(size_t)i];
      record(R_FOCUS, -1, i, 0, 0, 0, w.title);
      if (W->has_dbus)
        if (auto c = live(P_CLIENT))
          W->dbus_queue[c->index].push_back({ w.title, w.cls });
    }
    else {
      W->focus = -1;
      record(R_FOCUS, -1, -1);
    }
    for (auto& [index, c] : W->wayland)
      if (c.manager && old != W->focus) {
        if (old >= 0 && W->windows[(size_t)old].open) wayland_state(c, old);
        if (W->focus >= 0) wayland_state(c, W->focus);
      }
  }
  else if (n == "winstate") {   // winstate index states
    auto i = num(0);
    if (i < 0 || i >= (int)W->windows.size() || !W->windows[(size_t)i].open) return;
    W->windows[(size_t)i].state = arg(1);
    for (auto& [index, c] : W->wayland)
      if (c.manager) wayland_state(c, i);
  }
  else if (n == "close") {      // close index, the focus is not changed unless it had it
    auto i = num(0);
    if (i < 0 || i >= (int)W->windows.size() || !W->windows[(size_t)i].open) return;
    W->windows[(size_t)i].open = false;
    if (W->focus == i) {
      W->focus = -1;
      W->closing = i;
      W->closing_until = W->now + 60 * MS;
    }
    record(R_FOCUS, -1, W->focus);
    for (auto& [index, c] : W->wayland)
      if (c.manager) c.queue.push_back({ WL_CLOSED, i, "", {} });
  }
  else if (n == "retitle") {  // retitle index title
    auto i = num(0);
    if (i >= 0 && i < (int)W->windows.size() && W->windows[(size_t)i].open) {
      W->windows[(size_t)i].title = arg(1);
      for (auto& [index, c] : W->wayland)
        if (c.manager) {
          c.queue.push_back({ WL_TITLE, i, arg(1), {} });
          c.queue.push_back({ WL_DONE, i, "", {} });
        }
      record(R_FOCUS, -1, W->focus, 1, 0, 0, arg(1));
      if (W->has_dbus && W->focus == i)
        if (auto c = live(P_CLIENT))
          W->dbus_queue[c->index].push_back({ W->windows[(size_t)i].title, W->windows[(size_t)i].cls });
    }
  }
  else if (n == "conf") {    // conf path content [age of a restored file in s]
    write_file(arg(0), arg(1));
    if (op.args.size() > 2) W->files[arg(0)].mtime -= num(2) * SEC;
    record(R_CONF, -1, 0, 0, 0, 0, arg(0));
  }
  else if (n == "append") {
    auto it = W->files.find(arg(0));
    write_file(arg(0), (it == W->files.end() ? std::string() : it->second.content) + arg(1));
    record(R_CONF, -1, 1, 0, 0, 0, arg(0));
  }
  else if (n == "rmconf") { remove_file(arg(0)); record(R_CONF, -1, 2, 0, 0, 0, arg(0)); }
  else if (n == "readable") {
    if (auto it = W->files.find(arg(0)); it != W->files.end())
      it->second.readable = num(1);
  }
  else if (n == "tray") {
    if (auto c = live(P_CLIENT))
      W->tray_queue[c->index].push_back(arg(0));
  }
  else if (n == "ctl") { spawn(P_CTL, a); }
  else if (n == "start") {
    auto args = std::vector<std::string>(a.begin() + (a.empty() ? 0 : 1), a.end());
    if (arg(0) == "daemon") spawn(P_DAEMON, args);
    if (arg(0) == "client") spawn(P_CLIENT, args);
  }
  else if (n == "ensure") {  // start when not running
    auto args = std::vector<std::string>(a.begin() + (a.empty() ? 0 : 1), a.end());
    if (arg(0) == "daemon" && !live(P_DAEMON)) spawn(P_DAEMON, args);
    if (arg(0) == "client" && !live(P_CLIENT)) spawn(P_CLIENT, args);
  }
  else if (n == "kill") {
    if (auto p = proc_by_name(arg(0)))
      kill_proc(*p, num(1) ? num(1) : SIGKILL);
  }
  else if (n == "killcmds") {
    for (size_t i = 0; i < W->procs.size(); ++i)
      if (W->procs[i]->kind == P_CMD && !W->procs[i]->exited)
        kill_proc(*W->procs[i], SIGKILL);
  }
  else if (n == "freeze") {  // freeze proc us
    if (auto p = proc_by_name(arg(0)))
      p->frozen_until = std::max(p->frozen_until, W->now + (Time)num(1) * US);
  }
  else if (n == "peer") {    // peer id connect <name> | send <hex> | close | raw <text>
    auto& s = g_peers[arg(0)];
    if (arg(1) == "snapshot") {   // what the first program sent so far
      if (auto& list = W->streams[arg(2)]; !list.empty())
        list[0] = std::make_shared<std::string>(*list[0]);
    }
    else if (arg(1) == "connect") {
      if (s) sock_close(*s);
      s = peer_connect(arg(2));
    }
    else if (s && arg(1) == "send") {
      std::string data;
      for (size_t i = 0; i + 1 < arg(2).size(); i += 2)
        data += (char)strtol(arg(2).substr(i, 2).c_str(), nullptr, 16);
      peer_send(*s, data);
    }
    else if (s && arg(1) == "replay") {   // part of what the nth program connecting to name sent, optionally another version
      auto& list = W->streams[arg(2)];
      auto n = (size_t)num(3);
      if (n < list.size()) {
        auto data = *list[n];
        auto from = std::min<size_t>((size_t)num(4), data.size()), to = std::min<size_t>((size_t)num(5), data.size());
        if (arg(6) == "other" && !data.empty())
          data[(size_t)num(7) % std::min<size_t>(8, data.size())] ^= (char)(num(8) ? num(8) : 0x55);
        if (from < to)
          peer_send(*s, data.substr(from, to - from));
        record(R_MARK, -1, (int64_t)from, (int64_t)to, (int64_t)data.size(), to == data.size(), "peer");
      }
    }
    else if (s && arg(1) == "close") {
      sock_close(*s);
      s.reset();
    }
  }
  else if (n == "clockjump") { W->wall_offset += (Time)atoll(arg(0).c_str()) * MS; }
  else if (n == "calm") { W->calm = num(0) != 0; }
  else if (n == "mark") {
    record(R_MARK, -1, num(1), 0, 0, 0, arg(0));
    if (arg(0).rfind("idle", 0) == 0)
      for (auto& p : W->procs)
        if (!p->exited && p->kind != P_CMD)
          record(R_IDLE, p->index, (p->asleep + (p->asleep_since < 0 ? 0 : W->now - p->asleep_since)) / MS, p->wakes);
  }
  else if (n == "wait") {}
  else sim_error("unknown operation " + n);
}

void run_ops(const Scenario& s) {
  auto due = W->now;
  for (auto& op : s.ops) {
    due += op.gap * US;
    run_until(std::max(due, W->now));
    if (W->stop)
      return;
    execute(op);
  }
}

//---------------------------------------------------------------- helpers
uint64_t log_hash() {
  uint64_t h = 7;
  for (auto& r : W->log) {
    h = hash_of(h, (uint64_t)r.t, (uint64_t)r.type << 32 | (uint32_t)r.proc, (uint64_t)(uint32_t)r.a << 32 | (uint32_t)r.b);
    h = hash_of(h, (uint64_t)(uint32_t)r.c << 32 | (uint32_t)r.d, r.s.empty() ? 0 : hash_bytes(r.s.data(), r.s.size()));
  }
  return h;
}

static const std::map<int, std::string>& names() {
  static const std::map<int, std::string> m = [] {
    std::map<int, std::string> m;
    struct { int c; const char* n; } t[] = {
      { KEY_ESC, "Escape" }, { KEY_ENTER, "Enter" }, { KEY_TAB, "Tab" }, { KEY_SPACE, "Space" },
      { KEY_BACKSPACE, "Backspace" }, { KEY_LEFTSHIFT, "ShiftLeft" }, { KEY_RIGHTSHIFT, "ShiftRight" },
      { KEY_LEFTCTRL, "ControlLeft" }, { KEY_RIGHTCTRL, "ControlRight" }, { KEY_LEFTALT, "AltLeft" },
      { KEY_RIGHTALT, "AltRight" }, { KEY_LEFTMETA, "MetaLeft" }, { KEY_RIGHTMETA, "MetaRight" },
      { KEY_CAPSLOCK, "CapsLock" }, { KEY_UP, "ArrowUp" }, { KEY_DOWN, "ArrowDown" }, { KEY_LEFT, "ArrowLeft" },
      { KEY_RIGHT, "ArrowRight" }, { KEY_HOME, "Home" }, { KEY_END, "End" }, { KEY_PAGEUP, "PageUp" },
      { KEY_PAGEDOWN, "PageDown" }, { KEY_INSERT, "Insert" }, { KEY_DELETE, "Delete" }, { KEY_SCROLLLOCK, "ScrollLock" },
      { 0x110, "ButtonLeft" }, { 0x111, "ButtonRight" }, { 0x112, "ButtonMiddle" }, { 0x113, "ButtonBack" }, { 0x114, "ButtonForward" },
      { 0x150, "WheelUp" }, { 0x151, "WheelDown" }, { 0x152, "WheelLeft" }, { 0x153, "WheelRight" },
      { KEY_MINUS, "Minus" }, { KEY_EQUAL, "Equal" }, { KEY_COMMA, "Comma" }, { KEY_DOT, "Period" }, { KEY_SLASH, "Slash" },
    };
    for (auto& e : t) m[e.c] = e.n;
    const char* row1 = "QWERTYUIOP", * row2 = "ASDFGHJKL", * row3 = "ZXCVBNM";
    for (auto i = 0; row1[i]; ++i) m[KEY_Q + i] = row1[i];
    for (auto i = 0; row2[i]; ++i) m[KEY_A + i] = row2[i];
    for (auto i = 0; row3[i]; ++i) m[KEY_Z + i] = row3[i];
    for (auto i = 1; i <= 9; ++i) m[KEY_1 + i - 1] = "Digit" + std::to_string(i);
    m[KEY_0] = "Digit0";
    for (auto i = 1; i <= 10; ++i) m[KEY_F1 + i - 1] = "F" + std::to_string(i);
    m[KEY_F11] = "F11";
    m[KEY_F12] = "F12";
    for (auto i = 13; i <= 24; ++i) m[KEY_F13 + i - 13] = "F" + std::to_string(i);
    return m;
  }();
  return m;
}

std::string key_name(int code) {
  auto it = names().find(code);
  return it == names().end() ? std::to_string(code) : it->second;
}

int key_code(const std::string& name) {
  for (auto& [c, n] : names())
    if (n == name)
      return c;
  if (!name.empty() && name.find_first_not_of("0123456789") == std::string::npos)
    return std::stoi(name);
  return -1;
}

std::vector<std::string> desk_down() {
  std::vector<std::string> r;
  for (auto& d : W->devs)
    if (d->present)
      for (auto k = 0; k < KEYS; ++k)
        if (d->deskdown.test((size_t)k))
          r.push_back(key_name(k) + "@" + d->name);
  return r;
}

std::string format_rec(const Rec& r) {
  char b[256];
  auto proc = r.proc >= 0 && r.proc < (int)W->procs.size() ? W->procs[(size_t)r.proc]->name : std::string("-");
  std::string extra;
  if (r.type == R_PHYS || r.type == R_DREAD || r.type == R_OUT) {
    auto& d = *W->devs[(size_t)r.a];
    extra = d.key + " type=" + std::to_string(r.b) + " " + (r.b == EV_KEY ? key_name(r.c) : std::to_string(r.c)) + " = " + std::to_string(r.d);
  }
  else if (r.type == R_DESK) {
    auto& d = *W->devs[(size_t)r.a];
    extra = d.key + " " + key_name(r.b) + (r.c == 0 ? " UP" : r.c == 1 ? " DOWN" : " REPEAT");
  }
  else if (r.type == R_FAULT) {
    extra = std::string(fault_names[r.a]) + " #" + std::to_string(r.b) + " value " + std::to_string(r.c);
  }
  else {
    extra = std::to_string(r.a) + " " + std::to_string(r.b) + " " + std::to_string(r.c) + " " + std::to_string(r.d);
  }
  snprintf(b, sizeof(b), "%12.3f %-3s %-9s ", (r.t - W->start) / 1e6, proc.c_str(), rec_names[r.type]);
  return b + extra + (r.s.empty() ? "" : " | " + r.s);
}

}  // namespace sim
