// Building blocks for generated scenarios.
#pragma once
#include "scenario.h"

namespace sim {

int key_code(const std::string& name);
std::string S(int64_t v);

// key names by role; the roles do not overlap
extern const std::vector<std::string> TRIG;    // keys configurations map
extern const std::vector<std::string> MODS;    // real modifiers
extern const std::vector<std::string> PLAIN;   // never mentioned in a configuration's input
extern const std::vector<std::string> OUTK;    // only appear in output expressions
extern const std::vector<std::string> BUTTONS;
extern const std::vector<std::string> WHEELS;

struct ConfOpts {
  bool timeouts = true, not_timeouts = true, delays = true, virt = true, contexts = true, stages = true;
  bool mouse = true, any = true, strings = true, commands = true, history = true, logical = true;
  bool context_active = true, modifier_filter = true, device_filter = true, on_release = true;
  bool forward_mods = true, abstract = true, chords = true, sequences = true, not_keys = true;
  bool not_any_out = true, held_virtual = true;
  int min_map = 2, max_map = 10;
};
struct ConfInfo {
  std::string text;
  std::set<int> virtuals;
  bool mouse = false;
  std::vector<std::string> titles;
};
ConfOpts swarm(Rng& r, ConfOpts base = {});
ConfInfo random_config(Rng& r, const ConfOpts& o);

int64_t human_gap(Rng& r);      // microseconds between key strokes

// keeps track of pressed keys while generating
struct Typist {
  Scenario& s;
  Rng& r;
  std::vector<std::pair<std::string, int>> down;   // device, code
  void press(int64_t gap, const std::string& dev, const std::string& key);
  void release(int64_t gap, const std::string& dev, const std::string& key);
  bool is_down(const std::string& dev, int code) const;
  // a random stroke using the given keys
  void random(int64_t gap, const std::vector<std::pair<std::string, std::string>>& keys, int maxdown = 4, double repeat = 0.05);
  void wheel(int64_t gap, const std::string& dev, bool horizontal, int value, bool hires);
  void move(int64_t gap, const std::string& dev, int dx, int dy);
  void release_all(int64_t gap);
};

enum : unsigned {
  FS_TIMING = 1,      // stalls, late wakeups
  FS_FRAG = 2,        // short and interrupted socket transfers
  FS_EINTR = 4,
  FS_SLOW = 8,        // long stalls
};
void add_faults(Scenario& s, Rng& r, unsigned sets);

struct Setup {
  std::string conf;
  std::vector<std::string> client_args, daemon_args;
  int keyboards = 1, mice = 0;
  bool hires = true, client_first = false;
  std::vector<std::vector<std::string>> windows;   // title class path
  int focus = -1;
  int64_t ready_us = 1500000;
};
// devices, windows, configuration, programs; ends when everything is expected to be up
void prologue(Scenario& s, Rng& r, const Setup& u);
// undisturbed end: all keys released, long enough for everything to settle
void settle(Scenario& s, int64_t us, const std::set<int>& virtuals = {});

// analysis of the recorded history
bool conf_accepted();          // daemon grabbed something for the last client
int count(RecType type);
// keys the desktop sees pressed although all are released, except for a key that was
// held for five seconds when the daemon took over the device, or was pressed in the
// instant between the daemon's check and taking over
std::vector<std::string> stuck_keys();

}  // namespace sim
