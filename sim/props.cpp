#include "props.h"
#include <algorithm>
#include <linux/input.h>

namespace sim {

const std::vector<std::vector<std::string>> WINDOWS = {
  { "Editor - file.txt", "editor", "/usr/bin/editor" }, { "Firefox - page", "browser", "/usr/bin/firefox" },
  { "Terminal", "term", "/usr/bin/term" }, { "Other", "other", "/opt/other" },
};

//---------------------------------------------------------------- C01
static void gen_c01(Scenario& s, Rng& r) {
  auto o = swarm(r);
  auto conf = random_config(r, o);
  Setup u;
  u.conf = conf.text;
  u.keyboards = (int)r.range(1, 2);
  u.mice = conf.mouse || r.chance(0.2) ? 1 : 0;
  u.windows = WINDOWS;
  u.focus = (int)r.range(-1, 3);
  if (r.chance(0.5)) u.client_args = { "-u" };
  prologue(s, r, u);
  if (r.chance(0.6))
    add_faults(s, r, FS_TIMING | (r.chance(0.3) ? FS_FRAG | FS_EINTR : 0) | (r.chance(0.2) ? FS_SLOW : 0));
  std::vector<std::pair<std::string, std::string>> keys;
  for (auto i = 0; i < u.keyboards; ++i) {
    for (auto& k : TRIG) if (r.chance(0.6)) keys.push_back({ "kb" + S(i), k });
    for (auto& k : MODS) if (r.chance(0.4)) keys.push_back({ "kb" + S(i), k });
    for (auto& k : PLAIN) if (r.chance(0.2)) keys.push_back({ "kb" + S(i), k });
  }
  if (u.mice)
    for (auto& k : BUTTONS) if (r.chance(0.5)) keys.push_back({ "m0", k });
  if (keys.empty()) keys.push_back({ "kb0", "A" });
  Typist t{ s, r, {} };
  auto n = r.range(5, 40);
  auto events = r.range(0, 4);
  auto rude = r.chance(0.5);
  auto conf2 = random_config(r, o);
  for (auto i = 0; i < n; ++i) {
    auto g = human_gap(r);
    if (u.mice && r.chance(0.1)) { t.wheel(g, "m0", r.chance(0.2), (int)r.range(-2, 2), true); continue; }
    if (events && r.chance(0.12)) {
      --events;
      switch (r.range(0, rude ? 12 : 5)) {
        case 6: s.add(g, "conf", { CONF, conf2.text }); if (r.chance(0.6)) s.add(r.range(0, 2000), "tray", { "Reload" }); break;
        case 7: s.add(g, "kill", { "client" }); s.add(human_gap(r), "ensure", { "client" }); break;
        case 8: { auto k = S(r.range(0, u.keyboards - 1)); s.add(g, "unplug", { "kb" + k }); s.add(human_gap(r) * 4, "replug", { "kb" + k }); break; }
        case 9: s.add(g, "kill", { "daemon", "15" }); s.add(human_gap(r), "ensure", { "daemon" }); break;
        case 10: s.add(g, "kill", { "daemon" }); s.add(human_gap(r), "ensure", { "daemon" }); break;
        case 11: if (u.mice) { s.add(g, "unplug", { "m0" }); s.add(human_gap(r) * 4, "replug", { "m0" }); } break;
        case 12: s.add(g, "freeze", { r.chance(0.5) ? "client" : "daemon", S(r.range(1000, 800000)) }); break;
        case 0: case 1: s.add(g, "focus", { S(r.range(-1, 3)) }); break;
        case 2: s.add(g, "ctl", { r.chance(0.5) ? "--toggle" : "--press", "Virtual" + S(r.range(1, 4)) }); break;
        case 3: s.add(g, "tray", { "Reload" }); break;
        case 4: s.add(g, "tray", { "Active" }); break;
        case 5: s.add(g, "ctl", { "--input", "A S" }); break;
      }
      continue;
    }
    t.random(g, keys);
  }
  settle(s, 2500000, { 1, 2, 3, 4 });
}

static void check_c01(const Scenario&, Outcome& o) {
  if (!conf_accepted()) {
    o.probes["rejected"] = 1;
    return;
  }
  o.probes["desktop_key_events"] = (uint64_t)count(R_DESK);
  o.probes["physical_events"] = (uint64_t)count(R_PHYS);
  auto d = stuck_keys();
  if (!d.empty()) {
    o.verdict = "stuck key: after all keys were released the desktop still sees";
    for (auto& k : d) o.verdict += " " + k;
  }
}

//----------------------------------------------------------------
const std::vector<Property>& properties() {
  static const auto list = [] {
    std::vector<Property> l = {
    { "C01", "no stuck keys", gen_c01, check_c01, 1, nullptr, nullptr,
      "the configuration was accepted and at least 4 key events reached the desktop",
      [](const Outcome& o) { return o.get("desktop_key_events") >= 4; }, 30000, "" },
    };
    register_core(l);
    register_context(l);
    register_life(l);
    register_ctl(l);
    register_timing(l);
    register_config(l);
    register_device(l);
    register_control(l);
    register_peer(l);
    register_idle(l);
    return l;
  }();
  return list;
}

const Property* find_property(const std::string& id) {
  for (auto& p : properties())
    if (p.id == id)
      return &p;
  return nullptr;
}

}  // namespace sim
