// The client: running programs, control requests, next key info, broken peers.
#include "props.h"
#include <algorithm>
#include <linux/input.h>
#include <signal.h>

namespace sim {

static const Proc* live_proc(ProcKind kind) {
  for (auto& p : W->procs)
    if (p->kind == kind && !p->exited) return p.get();
  return nullptr;
}

//---------------------------------------------------------------- C18
static std::string c18_config(Rng& r, int version) {
  static const std::vector<int> durations = { 1, 20, 300, 2000, 10000, 60000, 600000 };
  std::string t;
  auto n = r.range(1, 5);
  for (auto i = 0; i < n; ++i)
    t += TRIG[(size_t)i] + " >> $(prog" + S(version) + S(i) + " dur=" + S(durations[(size_t)r.range(0, 6)]) + ") ^\n";
  t += "Tab >> Virtual1\nVirtual1{Space} >> X\nVirtual1{F1} >> $(virt dur=" + S(durations[(size_t)r.range(0, 6)]) + ") ^\n";
  t += "\n[title=\"Firefox\"]\nH >> Y\n\n[title=\"Terminal\"]\nH >> Z\n";
  if (r.chance(0.3)) t += "ContextActive >> $(focused dur=" + S(durations[(size_t)r.range(0, 6)]) + ") ^\n";
  return t;
}

static void gen_c18(Scenario& s, Rng& r) {
  Setup u;
  u.conf = c18_config(r, 0);
  u.windows = WINDOWS;
  u.focus = (int)r.range(0, 3);
  prologue(s, r, u);
  if (r.chance(0.5))
    add_faults(s, r, FS_TIMING | (r.chance(0.3) ? FS_FRAG | FS_EINTR : 0));
  if (r.chance(0.4)) s.set("fault.slow_command", S(r.range(100000, 1000000)) + ",2," + S(r.chance(0.5) ? 3000 : 100000));
  Typist t{ s, r, {} };
  auto n = r.chance(0.97) ? r.range(3, 16) : r.range(30, 80);
  auto stroke = [&](int64_t g) {
    auto m = r.range(1, 4);
    for (auto i = 0; i < m; ++i) {
      std::string k = r.chance(0.5) ? TRIG[(size_t)r.range(0, 5)] : r.chance(0.3) ? "Tab" : r.chance(0.5) ? "H" : r.chance(0.5) ? "Space" : "F1";
      t.press(g, "kb0", k);
      g = r.range(20000, 120000);
      t.release(r.range(20000, 120000), "kb0", k);
    }
  };
  for (auto i = 0; i < n; ++i) {
    int64_t g = 450000 + r.range(0, 600000);
    if (r.chance(0.5)) { stroke(g); continue; }
    switch (r.range(0, 8)) {
      case 0: case 1: s.add(g, "focus", { S(r.range(0, 3)) }); break;
      case 2: s.add(g, "ctl", { r.chance(0.5) ? "--toggle" : "--press", "Virtual1" }); break;
      case 3: s.add(g, "ctl", { r.chance(0.5) ? "--is-pressed" : "--is-released", "Virtual1" }); break;
      case 4: s.add(g, "tray", { "Reload" }); break;
      case 5: s.add(g, "conf", { CONF, c18_config(r, i + 1) }); s.add(g, "tray", { "Reload" }); break;
      case 6: s.add(g, "tray", { r.chance(0.4) ? "About" : r.chance(0.5) ? "Help" : "Configuration" }); break;
      case 7: s.add(g, "kill", { "client", r.chance(0.5) ? "9" : "15" }); s.add(2500000, "ensure", { "client" }); s.add(4200000, "wait"); break;
      case 8: if (r.chance(0.5)) s.add(g, "killcmds"); break;
    }
  }
  s.pin(500000, "calm", { "1" });
  s.pin(600000, "ctl", { "--is-pressed", "Virtual1" });
  s.pin(2500000, "mark", { "end" });
}

static void check_c18(const Scenario& s, Outcome& o) {
  if (!conf_accepted()) { o.probes["rejected"] = 1; return; }
  auto times = op_times(s);
  std::vector<Time> starts;
  for (auto& p : W->procs)
    if (p->kind == P_CLIENT) starts.push_back(p->start_time);
  auto served = [&](Time t) {       // an undisturbed client is there
    auto ok = false;
    for (auto& p : W->procs)
      if (p->kind == P_CLIENT && p->start_time + 4 * SEC <= t && (!p->exited || p->exit_time > t + SEC)) ok = true;
    return ok || (starts.size() == 1 && t > W->start + SEC && live_proc(P_CLIENT));
  };
  for (auto& p : W->procs)
    if (p->kind == P_CTL && served(p->start_time) && (!p->exited || p->exit_time - p->start_time > 600 * MS))
      return fail(o, "held up: control request " + p->name + " was not answered within 0.6 s");
  for (auto& p : W->procs) {
    if (p->kind != P_CLIENT || !p->exited) continue;
    // the daemon has to notice although programs are still running
    auto gone = p->exit_time + 2 * SEC;
    std::set<int64_t> grabbed;
    std::set<std::pair<int64_t, int64_t>> down;
    auto again = false, held = false;
    for (auto& e : W->log) {
      if (e.t > gone) break;
      if (e.type == R_PHYS && e.b == EV_KEY) {
        if (e.d) down.insert({ e.a, e.c }); else down.erase({ e.a, e.c });
      }
      // devices are only given back when their keys are released
      if (e.t >= p->exit_time && !down.empty()) held = true;
      if (e.type == R_GRAB) grabbed.insert(e.a);
      if (e.type == R_UNGRAB) grabbed.erase(e.a);
      if (e.type == R_START && e.t > p->exit_time) again = true;
    }
    if (!again && !held && gone < W->now && !grabbed.empty())
      return fail(o, "connection kept: the daemon did not notice the end of the client");
    o.probes["client_ends"]++;
  }
  if (auto c = live_proc(P_CLIENT)) {
    auto piled = 0;
    for (auto z : c->zombies)
      if (W->procs[(size_t)z]->exit_time < W->now - SEC) ++piled;
    if (piled) return fail(o, "piled up: " + S(piled) + " ended programs were not collected");
    if (c->fds.size() > 30) return fail(o, "piled up: the client has " + S((int64_t)c->fds.size()) + " open files");
  }
  for (auto& p : W->procs) {
    if (p->kind != P_CLIENT || !p->exited) continue;
    auto told = false;
    for (auto& e : W->log)
      if (e.type == R_SIGNAL && e.proc == p->index && e.a != SIGCHLD) told = true;
    if (!told) return fail(o, "the client ended by itself");
  }
  for (auto& e : W->log) o.probes["commands"] += e.type == R_EXEC;
  ModelOptions m;
  m.check_commands = true;
  compare_with_model(s, o, m);
}

void register_ctl(std::vector<Property>& list) {
  list.push_back({ "C18", "commands never hold up the client", gen_c18, check_c18, 1, nullptr, nullptr,
    "at least one program was started and the run was compared with the model",
    [](const Outcome& o) { return o.get("commands") > 0 && o.get("model_runs") > 0; }, 15000, "" });
}

}  // namespace sim
