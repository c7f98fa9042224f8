// Core of the simulation: virtual time, processes (fibers), kernel objects,
// recorded history, fault decisions.
#pragma once
#include <bitset>
#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <string_view>
#include <vector>

namespace sim {

using Time = int64_t;  // virtual nanoseconds
constexpr Time US = 1000, MS = 1000 * US, SEC = 1000 * MS;

//---------------------------------------------------------------- random
inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
inline uint64_t hash_of(uint64_t a, uint64_t b = 0, uint64_t c = 0, uint64_t d = 0) {
  return mix(mix(mix(mix(a) ^ b) ^ (c * 0x632be59bd9b4e019ull)) ^ (d * 0xd6e8feb86659fd93ull));
}
uint64_t hash_bytes(const void* data, size_t size, uint64_t h = 1469598103934665603ull);

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(mix(seed ^ 0x5bd1e995)) {}
  uint64_t next() { return mix(s += 0x9e3779b97f4a7c15ull); }
  int64_t range(int64_t lo, int64_t hi) {  // inclusive
    return hi <= lo ? lo : lo + (int64_t)(next() % (uint64_t)(hi - lo + 1));
  }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  template<class V> auto& pick(V& v) { return v[(size_t)range(0, (int64_t)v.size() - 1)]; }
};

//---------------------------------------------------------------- history
enum RecType : uint8_t {
  R_NONE, R_PHYS, R_DREAD, R_OUT, R_DESK, R_DESKEV, R_GRAB, R_UNGRAB, R_VCREATE, R_VDESTROY,
  R_PLUG, R_UNPLUG, R_START, R_EXIT, R_EXEC, R_CMDEXIT, R_SYSTEM, R_SEND, R_RECV, R_CONNECT,
  R_ACCEPT, R_SOCKCLOSE, R_LISTEN, R_FAULT, R_OP, R_SIGNAL, R_MSG, R_SLEEP, R_FOCUS, R_CONF,
  R_TRAY, R_MARK, R_REAP, R_LISTENCLOSE, R_KEYQ, R_SHOWN, R_IDLE, R_NUM
};
extern const char* rec_names[R_NUM];

struct Rec {
  Time t;
  RecType type;
  int16_t proc;   // index in World::procs, -1 = world
  int32_t a, b, c, d;
  std::string s;
};

//---------------------------------------------------------------- faults
enum FaultKind {
  F_STALL,       // process not scheduled for a while (value = us)
  F_WAKE,        // late wakeup (value = us)
  F_SHORT_RECV,  // fewer bytes received (value = bytes)
  F_SHORT_SEND,  // fewer bytes accepted (value = bytes)
  F_SEND_AGAIN,  // socket buffer momentarily full
  F_EINTR,       // call interrupted
  F_CRASH,       // process killed at a system call
  F_TERM,        // SIGTERM at a system call
  F_EVREAD_FAIL, // reading an input device fails (EIO)
  F_UINPUT_FAIL, // writing/creating an output device fails
  F_GRAB_BUSY,   // EVIOCGRAB fails
  F_OPEN_FAIL,   // opening a device or file fails
  F_FORK_FAIL,   // fork fails
  F_ALLOC_FAIL,  // memory allocation fails
  F_CMD_SLOW,    // helper program takes long (value = ms)
  F_CLOCK_JUMP,  // wall clock jumps (value = s + 500000)
  F_NUM
};
extern const char* fault_names[F_NUM];

struct FaultCfg {
  uint32_t ppm = 0;       // probability per opportunity in parts per million
  uint32_t procs = ~0u;   // mask of ProcKind
  int64_t max = 0;        // bound of the value
};

struct FaultKey {
  int kind; std::string proc; uint64_t ord;
  bool operator<(const FaultKey& o) const {
    if (kind != o.kind) return kind < o.kind;
    if (proc != o.proc) return proc < o.proc;
    return ord < o.ord;
  }
};

//---------------------------------------------------------------- kernel objects
struct File;
struct Proc;

struct Sock {
  int id = 0;
  bool listening = false, connected = false, closed = false;
  bool eof = false;      // peer closed its side
  int err = 0;
  std::string rx;        // received, not read yet
  Sock* peer = nullptr;
  std::string name;
  int backlog = 0;
  std::deque<std::shared_ptr<Sock>> queue;  // pending connections
  uint64_t sent = 0, received = 0;
  int owner = -1;        // process index which created it
  size_t cap = 200 * 1024;
  bool shut_write = false;
  Time recv_limit = -1, send_limit = -1;    // SO_RCVTIMEO, SO_SNDTIMEO
  std::shared_ptr<std::string> stream;      // everything the connecting program sent
};

struct InEv { uint16_t type, code; int32_t value; Time t; };

struct AbsInfo { int value = 0, min = 0, max = 0, fuzz = 0, flat = 0, res = 0; };

constexpr int KEYS = 768;
struct Dev {
  int id = 0;            // index in World::devs
  int node = -1;         // N of /dev/input/eventN
  std::string key;       // name used by operations
  std::string name, byid;
  bool virt = false, present = false, dead = false;
  bool linked = false;   // in /dev/input/by-id
  int owner = -1;        // process index of the creator (virtual)
  int bus = 3, vendor = 1, product = 1, version = 1;
  uint64_t ev = 0, rel = 0, absb = 0, msc = 0, sw = 0, led = 0, rep = 0, props = 0, swstate = 0;
  std::bitset<KEYS> keys, down, deskdown;
  std::map<int, AbsInfo> absinfo;
  std::vector<InEv> frame;      // not yet completed by SYN_REPORT
  File* grab = nullptr;
  std::vector<File*> clients;
  std::deque<InEv> desk_pending;
};

enum FileKind { K_NULL, K_OUT, K_SOCK, K_EVDEV, K_UINPUT, K_INOTIFY, K_DIR };

struct File {
  FileKind kind = K_NULL;
  bool nonblock = false;
  std::shared_ptr<Sock> sock;
  Dev* dev = nullptr;             // evdev / created uinput
  std::unique_ptr<Dev> setup;     // uinput before creation
  std::deque<InEv> q;             // evdev: complete frames
  std::deque<std::string> ino;    // inotify: encoded events
  std::map<std::string, uint32_t> watches;
  std::string path;
  std::string wbuf;
  ~File();
};

struct Fd { std::shared_ptr<File> file; bool cloexec = false; };

enum ProcKind { P_DAEMON, P_CLIENT, P_CTL, P_CMD, P_NUM };
enum ProcState { S_READY, S_BLOCKED, S_EXITED };
enum WakeReason { W_READY, W_TIMEOUT, W_SIGNAL };

struct Module {
  std::string path;
  void* handle = nullptr;
  int (*main)(int, char**) = nullptr;
  std::vector<std::pair<void(*)(void*), void*>> atexits;
  std::map<int, void(*)(int)> signals;
  bool used = false;
};

struct Proc {
  int index = 0, pid = 0;
  ProcKind kind = P_CMD;
  int ordinal = 0;
  std::string name;               // "d0", "c0", "k0", "x0"
  std::vector<std::string> args;
  std::vector<char*> argv;
  std::map<int, Fd> fds;
  Module* mod = nullptr;
  // fiber
  char* stack = nullptr;
  size_t stack_size = 0;
  void* sp = nullptr;
  void* eh[2] = { nullptr, nullptr };
  // scheduling
  ProcState state = S_READY;
  Time wake = 0;                  // when ready
  std::function<bool()> ready;
  Time deadline = -1;
  bool interruptible = true;
  WakeReason reason = W_READY;
  bool woken = false;             // wake time already determined
  Time frozen_until = 0;
  uint64_t nsys = 0;              // number of system calls
  uint64_t ord[F_NUM] = { };
  uint64_t spins = 0;
  Time asleep = 0, asleep_since = -1;    // how long and how often it waited
  int64_t wakes = 0;
  // signals
  std::map<int, void(*)(int)> handlers;
  std::map<int, bool> restart;
  std::deque<int> pending;
  // fork
  Proc* vchild = nullptr;
  void* fork_sp = nullptr;
  std::vector<char> fork_stack;
  int fork_ret = 0;
  // children
  int parent = -1;
  std::set<int> children, zombies;
  bool reaped = false;
  std::string cmd;
  Time cmd_end = -1;
  // result
  bool exited = false;
  int exit_code = 0, exit_signal = 0;
  Time start_time = 0, exit_time = 0, last_run = 0;
  std::string out, line;
  std::vector<std::pair<size_t, Time>> writes;   // where in out and when it was written
  int err_no = 0;
  std::map<std::string, int> tray_items;
  void* user = nullptr;
};

struct SimFile { std::string content; Time mtime = 0; bool readable = true; };

struct Window { std::string title, cls, path; int pid = 0; bool open = true; std::string state; };

// connection of a program to the compositor
enum WlKind { WL_GLOBAL, WL_NEW, WL_TITLE, WL_APPID, WL_STATE, WL_DONE, WL_CLOSED };
struct WlEvent { WlKind kind; int window = -1; std::string text; std::vector<uint32_t> states; };
struct WlProxy { std::string interface; void (**listener)() = nullptr; void* data = nullptr; bool destroyed = false; };
struct WlClient {
  std::deque<WlEvent> queue;
  std::vector<std::unique_ptr<WlProxy>> proxies;
  WlProxy* registry = nullptr;
  WlProxy* manager = nullptr;
  std::map<int, WlProxy*> handles;      // per window
};
void wayland_state(WlClient& c, int window);
void wayland_window(WlClient& c, int window, bool known);

struct TrayItem { std::string label; void (*cb)(void*, void*) = nullptr; void* data = nullptr; void* widget = nullptr; };

struct Timer { Time t; uint64_t seq; std::function<void()> fn; };
struct TimerLess {
  bool operator()(const Timer& a, const Timer& b) const { return a.t != b.t ? a.t > b.t : a.seq > b.seq; }
};

struct World {
  uint64_t seed = 1;
  Time now = 1000 * SEC;
  Time start = 1000 * SEC;
  Time wall_offset = 1700000000ll * SEC;
  uint64_t steps = 0, max_steps = 4000000;
  bool calm = false;            // no new faults
  bool explicit_faults = false;
  FaultCfg fcfg[F_NUM];
  std::map<FaultKey, int64_t> given;                     // explicit mode
  std::vector<std::pair<FaultKey, int64_t>> fired;
  uint64_t fault_count[F_NUM] = { };
  uint64_t fault_opps[F_NUM] = { };
  std::vector<std::unique_ptr<Proc>> procs;
  int count[P_NUM] = { };
  std::vector<Timer> timers;    // heap
  uint64_t timer_seq = 0;
  std::vector<Rec> log;
  std::vector<std::unique_ptr<Dev>> devs;
  std::map<std::string, std::shared_ptr<Sock>> listeners;   // abstract names
  std::map<std::string, SimFile> files;
  std::map<std::string, std::string> env;
  std::vector<Window> windows;
  int focus = -1;
  int closing = -1;                   // the window which had the focus last was closed
  Time closing_until = 0;
  std::map<int, void*> x_handlers;    // per process
  bool has_x11 = true, has_dbus = false, has_wayland = false, has_tray = true;
  std::map<int, std::deque<std::string>> tray_queue;        // per process
  std::map<int, std::deque<std::pair<std::string, std::string>>> dbus_queue;
  std::map<int, WlClient> wayland;
  uint64_t native_windows = 0;  // those the X server knows nothing about
  std::set<File*> inotifies;
  size_t sockcap = 200 * 1024;
  int64_t mtime_gran = 1;       // granularity of file times in ns
  Time link_delay = 0;          // until a plugged device appears in by-id
  Time unplug_gap = 5 * US;     // between node removal and reads failing
  Time base_cost = 2 * US;
  std::map<std::string, std::vector<std::shared_ptr<std::string>>> streams;   // what programs sent to each address
  int next_pid = 1000, next_sock = 1;
  bool stop = false;
  bool exhausted = false;       // more programs started than there are copies
  std::string verdict;          // first violation noticed while running
  std::string error;            // simulator cannot handle something
  bool aslr_probe = false;
  bool hit_step_cap = false;
  Time simulated_limit = 0;
  uint64_t ctx_switches = 0;
  uint64_t sched_hash = 0;      // hash of the order in which processes ran
  // notifications for the driver
  std::function<void(Proc&)> on_exit;
};

extern World* W;

//---------------------------------------------------------------- API
void record(RecType type, int proc, int a = 0, int b = 0, int c = 0, int d = 0, std::string s = {});
[[noreturn]] void sim_error(const std::string& what);   // simulator limitation -> check error
void violation(const std::string& what);                // noticed at run time

bool load_pool(const std::string& dir);
Proc* spawn(ProcKind kind, std::vector<std::string> args);
Proc* live(ProcKind kind);          // last started, not exited
void kill_proc(Proc& p, int sig);   // SIGKILL or signal delivery
void post_signal(Proc& p, int sig);
void at(Time t, std::function<void()> fn);
void run_until(Time t);
int64_t fault(Proc& p, FaultKind kind);   // -1 = no fault

Dev& add_device(std::unique_ptr<Dev> dev);
void plug(Dev& dev);
void unplug(Dev& dev);
void dev_event(Dev& dev, uint16_t type, uint16_t code, int32_t value);
Dev* dev_by_key(const std::string& key);
std::vector<std::string> shell_words(const std::string& line, std::vector<std::string>* others);
void write_file(const std::string& path, const std::string& content);
void remove_file(const std::string& path);
std::shared_ptr<Sock> peer_connect(const std::string& name);
void peer_send(Sock& s, const std::string& data);
void sock_close(Sock& s);

// used by libc.cpp
extern Proc* g_cur;        // process whose code is running
extern Module* g_loading;  // module whose constructors are running
struct Kernel {            // leave user code for the duration of a call
  Proc* p;
  Kernel() : p(g_cur) { g_cur = nullptr; }
  ~Kernel() { g_cur = p; }
  Proc& self() { return p->vchild ? *p->vchild : *p; }
};
void sys_enter(Proc& p);    // time passes, others may run, signals are handled
WakeReason block(Proc& p, std::function<bool()> ready, Time deadline, bool interruptible = true);
void run_signals(Proc& p);
[[noreturn]] void proc_exit(Proc& p, int code, int sig);
int sys_fork(Proc& p);
[[noreturn]] void sys_exec(Proc& p, const std::string& command);
int start_command(Proc& parent, const std::string& command, Time duration, bool inherit);
bool fd_readable(File& f);
bool fd_writable(File& f);
int alloc_fd(Proc& p, std::shared_ptr<File> f, bool cloexec, int from = 3);
File* get_file(Proc& p, int fd);
Time wall_now();
void switch_out(Proc& p);
void notify_inotify(const std::string& dir, const std::string& name, uint32_t mask);
std::string escape(std::string_view s);
std::string unescape(std::string_view s);

}  // namespace sim
