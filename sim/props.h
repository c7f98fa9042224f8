// Parts shared by the properties.
#pragma once
#include "gen.h"
#include "model.h"

namespace sim {

extern const std::vector<std::vector<std::string>> WINDOWS;

struct Times {
  std::vector<Time> at;        // when each operation is due
};
Times op_times(const Scenario& s);

// key and wheel events the desktop saw: code, value; wheel detents as model keys with value 0
struct Seen { Time t; int key, value; int dev; bool virt; };
std::vector<Seen> desktop_events(Time from = 0);
std::string event_text(int key, int value);
Time mark_time(const std::string& name);      // -1 when not reached
void fail(Outcome& o, const std::string& text);
// configuration in force according to the operations before the first key
std::string conf_text(const Scenario& s);

// runs the reference model over the operations and compares with what the desktop saw.
// Returns false when the scenario is outside of what the model covers.
struct ModelOptions {
  Time latency = 500 * MS;     // bound for the delivery of each event
  Time quiet = 400 * MS;       // distance between key strokes and other operations
  bool check_commands = false;
  Time restart_quiet = 4 * SEC; // after a program was started again
  std::set<size_t> swallowed;   // records of events which had no effect
};
const Proc* ctl_proc(int ordinal);              // control programs in the order they were started
bool parse_sequence(const std::string& text, std::vector<std::pair<int, bool>>* out);
std::vector<std::pair<std::string, std::string>> pick_keys(Rng& r, const Setup& u, double trig, double mods, double plain);
bool compare_with_model(const Scenario& s, Outcome& o, const ModelOptions& opt);

// what the desktop saw and the programs which were run, without times
std::string projection(Time from, bool commands = true);
std::string compare_projection(const char* what, const std::vector<Outcome>& o);

void register_core(std::vector<Property>& list);
void register_context(std::vector<Property>& list);
void register_life(std::vector<Property>& list);
void register_ctl(std::vector<Property>& list);
void register_timing(std::vector<Property>& list);
void register_config(std::vector<Property>& list);
void register_device(std::vector<Property>& list);
void register_control(std::vector<Property>& list);
void register_peer(std::vector<Property>& list);
void register_idle(std::vector<Property>& list);

}  // namespace sim
