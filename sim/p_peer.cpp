// Programs with another version, broken connections and peers which vanish or stall.
#include "props.h"
#include <algorithm>
#include <linux/input.h>
#include <signal.h>

namespace sim {

//---------------------------------------------------------------- C21
static const std::string CTL_ADDRESS = "keymapperctl#108", DAEMON_ADDRESS = "keymapper#108";

static void gen_c21(Scenario& s, Rng& r) {
  Setup u;
  u.conf = "A >> X\nB >> Virtual1\nVirtual1{C} >> Y\nD >> $(prog) ^\n";
  if (r.chance(0.3))
    for (auto i = r.range(1, 400); i > 0; --i) u.conf += "Virtual" + S(i % 200 + 20) + "{Q} >> W \"some text\" \n";
  u.conf += "\n[title=\"Firefox\"]\nE >> Z\n";
  u.windows = WINDOWS;
  u.focus = 0;
  prologue(s, r, u);
  if (r.chance(0.4))
    add_faults(s, r, FS_TIMING | (r.chance(0.5) ? FS_FRAG | FS_EINTR : 0));
  if (r.chance(0.5)) s.set("sockcap", S(r.chance(0.5) ? r.range(24, 300) : r.range(300, 5000)));
  if (r.chance(0.2)) s.set("fault.crash", S(r.range(200, 20000)) + ",4,1");
  s.pin(300000, "peer", { "-", "snapshot", DAEMON_ADDRESS });
  s.pin(1000, "ctl", { "--output", "F9" });     // recorded, its parts are what peers send
  s.pin(700000, "mark", { "recorded" });
  auto ctls = 1, peers = 0;
  auto vs_daemon = r.chance(0.5), freezes = r.chance(0.3);
  auto cut = [&](bool daemon) {
    static const std::vector<int64_t> edges = { 0, 1, 3, 4, 7, 8, 9, 11, 12, 13, 16, 17, 20, 24 };
    if (r.chance(0.15)) return (int64_t)10000000;
    if (r.chance(0.6)) return edges[(size_t)r.range(0, (int64_t)edges.size() - 1)];
    return daemon ? (r.chance(0.5) ? r.range(0, 300) : r.range(0, 30000)) : r.range(0, 26);
  };
  struct Open { int64_t id; bool daemon, other; int64_t pos, byte, bits; };
  std::vector<Open> open;
  auto tap = [&](int64_t g, const std::string& k) {
    s.add(g, "key", { "kb0", S(key_code(k)), "1" });
    s.add(r.range(20000, 60000), "key", { "kb0", S(key_code(k)), "0" });
  };
  auto piece = [&](int64_t g, Open& p) {
    auto to = std::max(p.pos, cut(p.daemon));
    s.add(g, "peer", { "p" + S(p.id), "replay", p.daemon ? DAEMON_ADDRESS : CTL_ADDRESS, "0", S(p.pos), S(to), p.other ? "other" : "same", S(p.byte), S(p.bits) });
    p.pos = to;
  };
  auto n = r.range(4, 20);
  for (auto i = 0; i < n; ++i) {
    int64_t g = r.chance(0.3) ? r.range(0, 5000) : r.range(5000, 900000);
    auto c = r.range(0, 99);
    if (c < 25 && peers < 12) {
      Open p{ peers++, vs_daemon && r.chance(0.5), r.chance(0.15), 0, 0, 0 };
      p.byte = r.range(0, 7);
      p.bits = r.chance(0.5) ? 1 << r.range(0, 7) : r.range(1, 255);
      s.add(g, "peer", { "p" + S(p.id), "connect", p.daemon ? DAEMON_ADDRESS : CTL_ADDRESS });
      if (r.chance(0.8)) piece(r.chance(0.5) ? 0 : r.range(0, 100000), p);
      if (r.chance(0.3)) s.add(r.range(0, 100000), "peer", { "p" + S(p.id), "close" });
      else open.push_back(p);
    }
    else if (c < 35 && !open.empty()) piece(g, open[(size_t)r.range(0, (int64_t)open.size() - 1)]);
    else if (c < 45 && !open.empty()) {
      auto k = r.range(0, (int64_t)open.size() - 1);
      s.add(g, "peer", { "p" + S(open[(size_t)k].id), "close" });
      open.erase(open.begin() + k);
    }
    else if (c < 55) {
      s.add(g, "ctl", { "--output", "F8" });
      auto name = "k" + S(ctls++);
      if (r.chance(0.6)) s.add(r.chance(0.5) ? r.range(0, 300) : r.range(0, 120000), "kill", { name, "9" });
      else if (r.chance(0.5)) s.add(r.chance(0.5) ? r.range(0, 300) : r.range(0, 120000), "freeze", { name, S(r.range(10000, 4000000)) });
    }
    else if (c < 60) { s.add(g, "ctl", { "--is-pressed", "Virtual3" }); ++ctls; }
    else if (c < 65 && freezes) {
      s.add(g, "freeze", { "client", S(r.range(50000, 4000000)) });
      for (auto m = r.range(0, 40); m > 0; --m) tap(r.range(10000, 40000), r.chance(0.8) ? "B" : "D");
    }
    else if (c < 70 && vs_daemon) {
      s.add(g, "kill", { r.chance(0.7) ? "client" : "daemon", r.chance(0.5) ? "9" : "15" });
      s.add(r.range(0, 2000000), "ensure", { "client" });
      s.add(r.range(0, 200000), "ensure", { "daemon" });
    }
    else if (c < 75) s.add(g, "focus", { S(r.range(0, 3)) });
    else {
      static const std::vector<std::string> keys = { "A", "B", "C", "D", "E", "K" };
      tap(g, keys[(size_t)r.range(0, 5)]);
    }
  }
  s.pin(300000, "calm", { "1" });
  s.pin(1000, "releaseall");
  for (auto& p : open) s.pin(r.range(0, 200000), "peer", { "p" + S(p.id), "close" });
  s.pin(5000000, "ensure", { "daemon" });       // also when frozen before
  s.pin(300000, "ensure", { "client" });
  s.pin(8000000, "mark", { "judge" });
  s.pin(1000, "ctl", { "--is-pressed", "Virtual3" });
  s.pin(1500000, "key", { "kb0", S(key_code("A")), "1" });
  s.pin(50000, "key", { "kb0", S(key_code("A")), "0" });
  s.pin(300000, "key", { "kb0", S(key_code("D")), "1" });
  s.pin(50000, "key", { "kb0", S(key_code("D")), "0" });
  s.pin(1500000, "mark", { "end" });
}

static void check_c21(const Scenario& s, Outcome& o) {
  auto end = mark_time("end"), judge = mark_time("judge"), recorded = mark_time("recorded");
  if (end < 0 || judge < 0 || recorded < 0) return;
  if (!conf_accepted()) { o.probes["rejected"] = 1; return; }
  auto conf = conf_text(s);
  for (auto line : { "A >> X\n", "D >> $(prog) ^\n", "Virtual1{C} >> Y\n" })
    if (conf.find(line) == std::string::npos) return;
  auto recorder = ctl_proc(0);
  if (!recorder || !recorder->exited || recorder->exit_signal || recorder->exit_code) { o.probes["nothing_recorded"] = 1; return; }
  // who is there, when
  struct Peer { std::string address; Time from = -1, to = -1, complete = -1; bool other = false; };
  std::vector<Peer> peers;
  std::map<std::string, size_t> current;
  std::vector<Time> f8;
  Time quiet_until = judge;        // nothing but control programs and their peers before
  auto times = op_times(s);
  auto mismatch = Time(-1);
  for (size_t i = 0; i < s.ops.size(); ++i) {
    auto& op = s.ops[i];
    auto t = W->start + times.at[i];
    if (op.name == "peer") {
      auto& id = op.args[0];
      if (op.args[1] == "connect") {
        current[id] = peers.size();
        peers.push_back({ op.args[2], t, end, -1, false });
        if (op.args[2] == DAEMON_ADDRESS) quiet_until = std::min(quiet_until, t);
      }
      else if (!current.count(id)) continue;
      else if (op.args[1] == "close") { peers[current[id]].to = t; current.erase(id); }
      else if (op.args[1] == "replay") {
        auto& p = peers[current[id]];
        if (op.args.size() > 6 && op.args[6] == "other") {
          p.other = true;
          if (p.address == DAEMON_ADDRESS && mismatch < 0) mismatch = t;
        }
        auto& list = W->streams[p.address];
        if (!list.empty() && atoll(op.args[5].c_str()) >= (int64_t)list[0]->size() && p.complete < 0) p.complete = t;
      }
    }
    else if (op.name == "ctl" && op.args.size() > 1 && op.args[1] == "F8") f8.push_back(t);
    else if (op.name == "freeze" && op.args[0] == "client") quiet_until = std::min(quiet_until, t);
    else if (op.name == "kill" && (op.args[0] == "client" || op.args[0] == "daemon")) quiet_until = std::min(quiet_until, t);
  }
  // what was sent in pieces is only complete when there are no gaps
  for (size_t n = 0; n < peers.size(); ++n) {
    int64_t pos = 0;
    auto p = (size_t)-1;
    std::map<std::string, size_t> cur;
    size_t k = 0;
    for (auto& op : s.ops) {
      if (op.name != "peer") continue;
      if (op.args[1] == "connect") cur[op.args[0]] = k++;
      else if (op.args[1] == "close") cur.erase(op.args[0]);
      else if (op.args[1] == "replay" && cur.count(op.args[0]) && cur[op.args[0]] == n) {
        if (atoll(op.args[4].c_str()) != pos) { o.probes["gaps"] = 1; return; }
        pos = atoll(op.args[5].c_str());
      }
    }
    (void)p;
  }
  // ends of programs
  for (auto& p : W->procs) {
    if (!p->exited || (p->kind != P_DAEMON && p->kind != P_CLIENT)) continue;
    auto told = false;
    for (auto& e : W->log)
      if (e.type == R_SIGNAL && e.proc == p->index && e.a != SIGCHLD && e.a != SIGPIPE) told = true;
    if (p->exit_signal == SIGKILL) told = true;
    if (told) continue;
    if (p->kind == P_CLIENT) {
      // the daemon was ended while it was connecting
      auto connected = false;
      for (auto& e : W->log) connected |= e.type == R_RECV && e.proc == p->index;
      if (!connected) { o.probes["client_not_connected"] = 1; return; }
      return fail(o, "the client ended: result " + S(p->exit_code));
    }
    if (mismatch < 0 || p->exit_time < mismatch) return fail(o, "the daemon ended: result " + S(p->exit_code));
    if (p->exit_code != 1) return fail(o, "mismatch: the daemon ended with result " + S(p->exit_code));
    ++o.probes["mismatches"];
    std::set<int64_t> grabbed;
    for (auto& e : W->log) {
      if (e.t > p->exit_time) break;
      if (e.type == R_GRAB) grabbed.insert(e.a);
      if (e.type == R_UNGRAB) grabbed.erase(e.a);
    }
    if (!grabbed.empty()) return fail(o, "mismatch: devices are left grabbed");
  }
  for (auto& e : W->log)
    if (e.type == R_GRAB && mismatch >= 0) {}
  o.probes["peers"] = peers.size();
  auto events = desktop_events();
  auto pressed = [&](const char* key, Time from, Time to) {
    auto n = 0;
    for (auto& e : events) n += e.key == key_code(key) && e.value == 1 && e.t >= from && e.t <= to;
    return n;
  };
  // only complete messages have an effect
  auto most = (int)1, least = (int)1;
  Time first_other = quiet_until;
  for (auto& p : peers)
    if (p.address == CTL_ADDRESS && p.complete >= 0 && !p.other) {
      ++most;
      auto stalled = 0;
      for (auto& q : peers) stalled += q.from <= p.complete + SEC && q.address == CTL_ADDRESS;
      if (p.to > p.complete + 2 * SEC + 1300 * MS * stalled && p.complete + 2 * SEC + 1300 * MS * stalled < quiet_until) {
        // the connection has to have been accepted
        auto accepted = false;
        for (auto& e : W->log) accepted |= e.type == R_CONNECT && e.proc == -1 && e.t == p.from && e.s == CTL_ADDRESS;
        if (accepted && p.complete <= p.from + 500 * MS) ++least;
      }
    }
  auto f9 = pressed("F9", 0, end);
  if (f9 > most) return fail(o, "injected: a part of a message had an effect");
  if (f9 < least) return fail(o, "injected: " + S(f9) + " complete messages had an effect, there were " + S(least));
  if (pressed("F8", 0, end) > (int)f8.size()) return fail(o, "injected: more than was requested");
  if (first_other < 0) return;
  // the keyboard works all the time
  for (size_t i = 0; i < s.ops.size(); ++i) {
    auto& op = s.ops[i];
    auto t = W->start + times.at[i];
    if (op.name != "key" || op.args[2] != "1" || t > judge) continue;
    auto code = atoi(op.args[1].c_str());
    const char* mapped = code == key_code("A") ? "X" : code == key_code("C") ? "Y" : code == key_code("E") ? "Z" : code == key_code("K") ? "K" : nullptr;
    if (!mapped) continue;
    auto seen = false;
    for (auto& e : events)
      seen |= e.value == 1 && (e.key == code || e.key == key_code(mapped)) && e.t >= t && e.t < t + 2500 * MS;
    // not when a daemon is just about to take over or give back the devices
    auto busy = false;
    for (auto& e : W->log)
      busy |= (e.type == R_GRAB || e.type == R_UNGRAB || e.type == R_VDESTROY) && e.t > t - 200 * MS && e.t < t + 2500 * MS;
    // devices are not given back while keys are held
    std::map<int64_t, Time> down;
    for (auto& e : W->log) {
      if (e.type != R_PHYS || e.b != EV_KEY || e.d == 2) continue;
      if (e.d) down[e.c] = e.t;
      else if (down.count(e.c)) {
        busy |= e.t > t && e.t - down[e.c] > 500 * MS && down[e.c] < t + 2500 * MS;
        down.erase(e.c);
      }
    }
    for (auto& d : down) busy |= d.second < t + 2500 * MS;
    if (!seen && !busy && t + 2500 * MS < end)
      return fail(o, "keyboard: " + key_name(code) + " had no effect");
    ++o.probes["strokes"];
  }
  // the client goes on
  for (size_t i = 0; i < s.ops.size(); ++i) {
    auto& op = s.ops[i];
    auto t = W->start + times.at[i];
    auto stalled = 0;
    for (auto& q : peers) stalled += q.from <= t + SEC && q.address == CTL_ADDRESS;
    auto limit = 2 * SEC + 1300 * MS * stalled;
    if (op.name == "key" && op.args[2] == "1" && atoi(op.args[1].c_str()) == key_code("D") && t + limit < quiet_until && t > recorded) {
      auto seen = false;
      for (auto& e : W->log) seen |= e.type == R_EXEC && e.s.find("prog") != std::string::npos && e.t >= t && e.t <= t + limit;
      if (!seen) return fail(o, "hangs: the client did not run a program");
      ++o.probes["programs"];
    }
  }
  auto ordinal = 0;
  for (size_t i = 0; i < s.ops.size(); ++i) {
    auto& op = s.ops[i];
    if (op.name != "ctl") continue;
    auto p = ctl_proc(ordinal++);
    if (!p) return;
    if (op.args[0] != "--is-pressed") continue;
    auto t = p->start_time;
    auto stalled = 0;
    for (auto& q : peers) stalled += q.from <= t + SEC && q.address == CTL_ADDRESS && q.to > t - SEC;
    auto frozen = 0;
    for (auto& other : s.ops) frozen += other.name == "freeze" && other.args[0][0] == 'k';
    auto limit = t >= judge ? SEC : 2 * SEC + 1300 * MS * (stalled + frozen);
    if (t < judge && t + limit >= quiet_until) continue;
    if (p->exit_signal) continue;
    if (!p->exited || p->exit_time - t > limit)
      return fail(o, std::string(t >= judge ? "afterwards" : "hangs") + ": a control program was not served");
    if (p->exit_code != 1) return fail(o, "served: a control program got result " + S(p->exit_code));
    ++o.probes["served"];
  }
  // and all is well afterwards
  if (!pressed("X", judge, end)) return fail(o, "afterwards: keys are not mapped");
  auto ran = false;
  for (auto& e : W->log) ran |= e.type == R_EXEC && e.t > judge && e.s.find("prog") != std::string::npos;
  if (!ran) return fail(o, "afterwards: the program was not run");
  auto stuck = stuck_keys();
  if (!stuck.empty()) return fail(o, "stuck: " + stuck[0]);
  ++o.probes["recovered"];
}

//---------------------------------------------------------------- C15
static std::string filler(Rng& r, bool heavy) {
  std::string t;
  auto n = r.chance(0.3) ? 0 : heavy || r.chance(0.5) ? r.range(1, 60) : r.chance(0.8) ? r.range(60, 600) : r.range(600, 4000);
  for (auto i = 0; i < n; ++i)
    t += "Virtual" + S(i % 200 + 50) + "{" + OUTK[(size_t)r.range(0, 3)] + "} >> Home End \"text " + S(i) + "\"\n";
  return t;
}

static void gen_c15(Scenario& s, Rng& r) {
  ConfOpts b;
  b.timeouts = b.not_timeouts = b.delays = b.strings = b.history = b.forward_mods = b.mouse = false;
  auto o = swarm(r, b);
  if (o.context_active) o.device_filter = false;
  auto heavy = r.chance(0.8);
  auto make = [&]() {
    auto t = random_config(r, o).text;
    std::string more = "K >> Virtual1 Virtual2 Virtual3 Virtual1 ^\nJ >> $(one) $(two) $(three) ^\n";
    return more + filler(r, heavy) + t;
  };
  Setup u;
  u.conf = make();
  u.windows = WINDOWS;
  u.focus = (int)r.range(0, 3);
  prologue(s, r, u);
  auto set = [&](const char* name, int64_t ppm, int64_t max) { s.set(std::string("fault.") + name, S(ppm) + "," + S(r.chance(0.7) ? 7 : r.range(1, 7)) + "," + S(max)); };
  auto rate = [&]() { return heavy && r.chance(0.3) ? 1000000 : heavy ? r.range(5000, 900000) : r.range(2000, 20000); };
  if (r.chance(0.7)) set("short_recv", rate(), heavy && r.chance(0.4) ? 1 : r.chance(0.5) ? 8 : 2000);
  if (r.chance(0.7)) set("short_send", rate(), heavy && r.chance(0.4) ? 1 : r.chance(0.5) ? 8 : 2000);
  if (r.chance(0.5)) set("send_eagain", r.range(1000, 300000), 1);
  if (r.chance(0.4)) set("eintr", r.range(1000, 200000), 1);
  if (r.chance(0.4)) set("stall", r.range(500, 20000), 2000);
  if (r.chance(0.3)) set("late_wakeup", r.range(500, 50000), 2000);
  int64_t cap = r.chance(0.5) ? 0 : r.chance(0.5) ? r.range(100, 600) : r.range(600, 20000);
  if (cap) s.set("sockcap", S(cap));
  auto keys = pick_keys(r, u, 0.6, 0.3, 0.3);
  keys.push_back({ "kb0", "K" });
  keys.push_back({ "kb0", "J" });
  Typist t{ s, r, {} };
  auto n = r.range(3, 14);
  for (auto i = 0; i < n; ++i) {
    if (r.chance(0.5)) { for (auto m = r.range(1, 6); m > 0; --m) t.random(human_gap(r), keys, 3, 0); continue; }
    s.add(800000, "wait");
    switch (r.range(0, 6)) {
      case 0: case 1: s.add(800000, "focus", { S(r.range(0, 3)) }); break;
      case 2: s.add(800000, "ctl", { r.chance(0.5) ? "--toggle" : "--is-pressed", "Virtual" + S(r.range(1, 4)) }); break;
      case 3: {
        std::string text;
        auto len = r.chance(0.2) ? r.range(0, 2) : r.chance(0.7) ? r.range(3, 40) : r.range(40, cap ? std::min<int64_t>(cap, 400) : 1500);
        for (auto k = 0; k < len; ++k) text += (char)('a' + r.range(0, 25));
        s.add(800000, "ctl", { "--type", text });
        break;
      }
      case 4: {
        std::string q;
        auto len = r.chance(0.7) ? r.range(1, 5) : r.range(5, 60);
        for (auto k = 0; k < len; ++k) q += (k ? " " : "") + OUTK[(size_t)r.range(0, 5)];
        s.add(800000, "ctl", { r.chance(0.5) ? "--output" : "--input", q });
        break;
      }
      case 5:
        t.release_all(800000);
        s.add(1500000, "conf", { CONF, make() });
        s.add(0, "tray", { "Reload" });
        s.add(1500000, "wait");
        break;
      case 6:
        t.release_all(800000);
        s.add(800000, "kill", { r.chance(0.5) ? "client" : "daemon" });
        s.add(500000, "ensure", { "client" });
        s.add(10000, "ensure", { "daemon" });
        s.add(4500000, "wait");
        break;
    }
    s.add(800000, "wait");
  }
  t.release_all(800000);
  for (auto v = 1; v <= 4; ++v) s.pin(800000, "ctl", { "--is-pressed", "Virtual" + S(v) });
  s.pin(1500000, "mark", { "end" });
}

static void variant_c15(Scenario& s, int) {
  for (auto it = s.params.begin(); it != s.params.end(); )
    if (it->first.rfind("fault.", 0) == 0 || it->first == "sockcap") it = s.params.erase(it); else ++it;
  s.set("sockcap", S(100000000));
  s.faults.clear();
}

static void check_c15(const Scenario& s, Outcome& o) {
  if (!conf_accepted()) { o.probes["rejected"] = 1; return; }
  auto ready = mark_time("ready"), end = mark_time("end");
  if (ready < 0 || end < 0) return;
  // other operations may only be distant from each other, and from strokes
  auto times = op_times(s);
  Time last_key = 0, last_other = 0;
  for (size_t i = 0; i < s.ops.size(); ++i) {
    auto& op = s.ops[i];
    auto t = times.at[i];
    if (W->start + t < ready || op.name == "mark" || op.name == "wait") continue;
    if (op.name == "key" || op.name == "releaseall") {
      if (t - last_other < 750 * MS && last_other) { o.probes["outside"] = 1; return; }
      last_key = t;
    }
    else {
      auto together = (op.name == "tray" || op.name == "ensure");
      if ((t - last_other < 450 * MS && last_other && !together) || (t - last_key < 750 * MS && last_key)) { o.probes["outside"] = 1; return; }
      last_other = t + (op.name == "tray" ? SEC : op.name == "ensure" ? 3 * SEC : op.name == "ctl" ? (Time)op.args[1].size() * MS : 0);
    }
  }
  o.projection = projection(ready);
  for (auto& p : W->procs)
    if (p->kind == P_CTL)
      o.projection += " " + p->name + " " + (p->exited ? S(p->exit_code) : "waiting") + " ";
  o.probes["compared_events"] = desktop_events(ready).size();
  for (auto f : { F_SHORT_RECV, F_SHORT_SEND, F_SEND_AGAIN, F_EINTR }) o.probes["cuts"] += W->fault_count[f];
  if (s.num("sockcap", 0) && s.num("sockcap", 0) < 100000) ++o.probes["cuts"];
}

static std::string compare_c15(const Scenario&, std::vector<Outcome>& o) {
  if (o[0].get("outside") || o[1].get("outside")) return {};
  if (o[0].get("rejected") != o[1].get("rejected")) return "fragmentation matters: the configuration was only accepted in one case";
  return compare_projection("fragmentation matters: the system answers", o);
}

void register_peer(std::vector<Property>& list) {
  list.push_back({ "C15", "fragmentation of messages", gen_c15, check_c15, 2, variant_c15, compare_c15,
    "transfers were cut at least three times and at least 4 key events were compared with the run without any cut",
    [](const Outcome& o) { return o.get("cuts") >= 3 && o.get("compared_events") >= 4; }, 12000, "" });
  list.push_back({ "C21", "incompatible, broken or vanishing peers", gen_c21, check_c21, 1, nullptr, nullptr,
    "at least one fake peer connected or a control program was disturbed, and the system was judged afterwards",
    [](const Outcome& o) { return o.get("recovered") > 0 && o.get("peers") > 0; }, 20000, "" });
}

}  // namespace sim
