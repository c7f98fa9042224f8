// A scenario is one complete, explicit description of a simulated run.
#pragma once
#include "sim.h"

namespace sim {

struct Op {
  int64_t gap = 0;           // microseconds after the previous operation
  bool pinned = false;       // not removed when minimising
  std::string name;
  std::vector<std::string> args;
};

struct Scenario {
  std::string property;
  uint64_t seed = 0;
  std::map<std::string, std::string> params;
  std::vector<Op> ops;
  bool explicit_faults = false;
  std::vector<std::pair<FaultKey, int64_t>> faults;

  std::string get(const std::string& key, const std::string& def = {}) const {
    auto it = params.find(key);
    return it == params.end() ? def : it->second;
  }
  int64_t num(const std::string& key, int64_t def = 0) const {
    auto it = params.find(key);
    return it == params.end() ? def : atoll(it->second.c_str());
  }
  void set(const std::string& key, const std::string& value) { params[key] = value; }
  void set(const std::string& key, int64_t value) { params[key] = std::to_string(value); }

  Op& add(int64_t gap, std::string name, std::vector<std::string> args = {}, bool pinned = false) {
    ops.push_back({ gap, pinned, std::move(name), std::move(args) });
    return ops.back();
  }
  Op& pin(int64_t gap, std::string name, std::vector<std::string> args = {}) {
    return add(gap, std::move(name), std::move(args), true);
  }
  std::string text() const;
  static bool parse(const std::string& text, Scenario* out, std::string* err);
};

struct Outcome {
  std::string verdict;       // empty: property held
  std::string error;         // run not usable
  uint64_t hash = 0, ihash = 0, steps = 0;
  Time simtime = 0;
  uint64_t faults[F_NUM] = { };
  std::map<std::string, uint64_t> probes;
  std::string projection;    // compared between variants
  std::vector<std::pair<FaultKey, int64_t>> fired;
  uint64_t get(const std::string& k) const { auto it = probes.find(k); return it == probes.end() ? 0 : it->second; }
};

struct Property {
  std::string id;
  std::string title;
  void (*generate)(Scenario& s, Rng& r);
  void (*check)(const Scenario& s, Outcome& o);        // in the run's process, after the last operation
  int variants = 1;
  // adapts the scenario for variant v (v > 0) before it is run
  void (*variant)(Scenario& s, int v) = nullptr;
  std::string (*compare)(const Scenario& s, std::vector<Outcome>& o) = nullptr;
  const char* nontrivial_rule = "";
  bool (*nontrivial)(const Outcome& o) = nullptr;
  int quick_runs = 2000;
  const char* note = "";
};

const std::vector<Property>& properties();
const Property* find_property(const std::string& id);

void setup_world(const Scenario& s);
void run_ops(const Scenario& s);
void execute(const Op& op);
void default_params(Scenario& s, Rng& r);

// log helpers
uint64_t log_hash();
std::string format_rec(const Rec& r);
std::string key_name(int code);
std::vector<std::string> desk_down();   // keys pressed on devices the desktop reads

constexpr const char* CONF = "/home/user/.config/keymapper.conf";

}  // namespace sim
