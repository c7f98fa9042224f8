// C22: the programs sleep while nothing happens, whatever happened before.
#include "props.h"

namespace sim {

static const Time WINDOW = 3 * SEC;

static void gen_c22(Scenario& s, Rng& r) {
  // anything the others do
  auto& list = properties();
  std::vector<const Property*> from;
  for (auto& p : list) if (std::string(p.id) != "C22") from.push_back(&p);
  auto& p = *from[(size_t)r.range(0, (int64_t)from.size() - 1)];
  p.generate(s, r);
  s.set("like", p.id);
  s.set("variants", 1);
  // some programs are gone, some requests stay open, some keys stay held
  if (r.chance(0.5)) s.add(r.range(1000, 500000), "releaseall");
  if (r.chance(0.2)) s.add(r.range(1000, 500000), "kill", { r.chance(0.6) ? "daemon" : "client", r.chance(0.5) ? "9" : "15" });
  if (r.chance(0.2)) s.add(r.range(1000, 500000), "ctl", { r.chance(0.5) ? "--wait-toggled" : "--wait-pressed", "Virtual9" });
  if (r.chance(0.1)) s.add(r.range(1000, 500000), "ctl", { "--next-key-info" });
  if (r.chance(0.1)) s.add(r.range(1000, 500000), "rmconf", { CONF });
  if (r.chance(0.1)) s.add(r.range(1000, 500000), "conf", { CONF, "A >> NoSuchKey\n" });
  if (r.chance(0.1)) s.add(r.range(1000, 500000), "unplug", { "kb0" });
  s.pin(1000, "calm", { "1" });
  s.pin(8000000, "mark", { "idle0" });
  s.pin(WINDOW / US, "mark", { "idle1" });
}

static void check_c22(const Scenario&, Outcome& o) {
  struct At { Time asleep; int64_t wakes; };
  std::map<int, At> first;
  auto from = mark_time("idle0"), to = mark_time("idle1");
  if (from < 0 || to < 0) return;
  for (auto& e : W->log) {
    if (e.type != R_IDLE) continue;
    if (e.t < to) { first[e.proc] = { e.a, e.b }; continue; }
    auto it = first.find(e.proc);
    if (it == first.end()) continue;
    auto& p = *W->procs[(size_t)e.proc];
    auto asleep = (e.a - it->second.asleep) * MS;
    auto wakes = e.b - it->second.wakes;
    auto percent = 100 - asleep * 100 / (to - from);
    auto rate = wakes * SEC / (to - from);
    ++o.probes["programs"];
    o.probes[percent ? "rested_partly" : "rested_fully"]++;
    if (rate > 20) o.probes["woke_often"]++;
    if (percent > 20) return fail(o, "busy: " + p.name + " was awake for " + S(percent) + " % of the time although nothing happened");
    if (rate > 200) return fail(o, "restless: " + p.name + " woke up " + S(rate) + " times per second although nothing happened");
  }
}

void register_idle(std::vector<Property>& list) {
  list.push_back({ "C22", "programs sleep while nothing happens", gen_c22, check_c22, 1, nullptr, nullptr,
    "at least one program was running for the whole quiet time",
    [](const Outcome& o) { return o.get("programs") > 0; }, 20000, "" });
}

}  // namespace sim
