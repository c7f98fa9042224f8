// Reference model of the documented mapping rules, written for the checks.
// It covers configurations without input timeouts and typed-history inputs.
#pragma once
#include "scenario.h"

namespace model {
using namespace sim;

constexpr int ANY = 0xF000, CTXACTIVE = 0xF002, VIRT = 0xF100, ACTION = 0x20000, NONE = 0;
inline bool is_logical(int k) { return k >= 0xF801 && k <= 0xF804; }
inline int logical_left(int k) { return k == 0xF801 ? 42 : k == 0xF802 ? 29 : k == 0xF803 ? 56 : 125; }
inline int logical_right(int k) { return k == 0xF801 ? 54 : k == 0xF802 ? 97 : k == 0xF803 ? 100 : 126; }
inline bool is_virtual(int k) { return k >= VIRT && k < ACTION; }
inline bool is_action(int k) { return k >= ACTION && k < ACTION + 0x10000; }
inline bool is_wheel(int k) { return k >= 0x150 && k <= 0x153; }
inline bool is_button(int k) { return k >= 0x110 && k <= 0x114; }
inline bool is_keyboard(int k) { return k > 0 && k < 0x100; }
inline bool is_device_key(int k) { return k > 0 && k < 0xF000; }

// pattern of an input expression
struct In {
  enum T { Down, Up, FreeUp, Chord, Not } t;
  int key;
  std::vector<int> keys;
};
struct Out {
  enum T { Down, Up, Not, OnRelease, Delay } t;
  int key;
};
struct Mapping {
  std::vector<In> in;
  std::vector<Out> out;
  int command = -1;       // abstract command instead of an output
};
struct Cond {
  std::string title, cls, path, device, device_id;    // texts or /regular expressions/
  bool title_not = false, cls_not = false, path_not = false, device_not = false, device_id_not = false, modifier_not = false;
  bool never = false;                           // of another system
  bool is_default = true;
  std::vector<std::pair<int, bool>> modifier;   // key, must be pressed
};
bool device_applies(const Cond& c, const std::string& device);     // name and id, separated by a line break
struct Context {
  std::vector<Cond> conds;                      // of consecutive blocks sharing the mappings
  std::vector<Mapping> maps;
  std::map<int, std::vector<Out>> commands;     // outputs of abstract commands
};
struct StageConf { std::vector<Context> contexts; };
struct Config {
  std::vector<StageConf> stages;
  std::vector<std::string> actions;             // terminal commands
  std::map<std::string, int> aliases;           // of virtual keys
};
// false when the text uses something the model does not cover
bool parse_config(const std::string& text, Config* conf);

// set when it is not defined how input is to be matched:
// a key other than the one which matched Any is released while the release of Any is awaited
extern bool ambiguous;

struct OEv { int key; bool down; int64_t delay_ms = 0; };

class Stage {
public:
  explicit Stage(const StageConf& c) : conf(c) {}
  void set_client_active(const std::vector<std::pair<int, int>>& active, std::vector<OEv>& out);
  void update(int key, bool down, int device, const std::vector<std::string>& devices, std::vector<OEv>& out);
  std::vector<int> keys_down() const;
private:
  enum St { D, U, M };   // down, up, down and already matched
  struct Ev { int key; St st; };
  struct Held { int key; int trigger; bool twice, temp, suppressed; int ctx; };
  struct Rest { int trigger; std::vector<Out> seq; int ctx; };
  enum Res { no, might, yes };
  struct Match { Res res = no; const Mapping* map = nullptr; const std::vector<Out>* out = nullptr; int ctx = 0; };
  const StageConf& conf;
  std::vector<std::pair<int, int>> client_active, blocks;   // context, condition
  std::vector<int> active;
  std::vector<Ev> seq;
  std::vector<Held> held;
  std::vector<Rest> rest;
  bool holding = false, reapplied = false;
  int last_pressed_device = -1, last_repeat_device = -1;
  std::vector<int> any;
  std::vector<OEv>* buf = nullptr;

  static bool unmatched(const std::vector<Ev>& s);
  Res match(const std::vector<In>& in, const std::vector<Ev>& s, size_t n);
  Match find(size_t n, int device, const std::vector<std::string>& devices, bool whole);
  const std::vector<Out>* output_of(const Mapping& m) const;
  void refresh_active();
  bool modifier_ok(const Cond& c) const;
  void apply(const std::vector<Out>& out, size_t from, int trigger, bool trigger_down, int ctx);
  void put(const Out& o, int trigger, int ctx);
  void release(int trigger, int ctx = -1);
  void forward();
  void finish(size_t n);
  int trigger_of(const Mapping& m) const;
};

// the whole mapping service: stages, virtual keys, desktop-visible key events
class Server {
public:
  explicit Server(const Config& c);
  // returns false when ignored
  void input(int key, bool down, int device, const std::vector<std::string>& devices);
  void set_window(const Window* w, bool enabled = true);
  void set_virtual(int key, int mode);          // 0 release, 1 press, 2 toggle
  void output(const std::vector<Out>& seq);     // injected output
  bool virtual_down(int key) const;
  void reset(const Config& c);                  // releases what is held and starts over with a configuration
  struct Desk { int key, value; };
  std::vector<Desk> desk;                        // key events the desktop sees
  std::vector<int> actions;                      // triggered terminal commands
  std::vector<std::string> devices;
private:
  const Config* conf;
  std::vector<Stage> stages;
  std::vector<std::vector<std::pair<int, int>>> sent;   // contexts the client reported
  std::vector<OEv> queue;
  std::vector<int> virtuals;
  std::set<int> desk_down;
  bool sending = false;
  void translate(int key, bool down, int device);
  void flush();
};

}  // namespace model
