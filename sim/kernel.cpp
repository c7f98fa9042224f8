#include "sim.h"
#include <algorithm>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <linux/input.h>
#include <sys/inotify.h>
#include <sys/mman.h>
#include <unistd.h>

namespace sim {

World* W;
Proc* g_cur;
Module* g_loading;

const char* rec_names[R_NUM] = {
  "none", "phys", "dread", "out", "desk", "deskev", "grab", "ungrab", "vcreate", "vdestroy",
  "plug", "unplug", "start", "exit", "exec", "cmdexit", "system", "send", "recv", "connect",
  "accept", "sockclose", "listen", "fault", "op", "signal", "msg", "sleep", "focus", "conf",
  "tray", "mark", "reap", "listenclose", "keyquery", "shown", "idle",
};
const char* fault_names[F_NUM] = {
  "stall", "late_wakeup", "short_recv", "short_send", "send_eagain", "eintr", "crash", "sigterm",
  "evdev_read_error", "uinput_error", "grab_busy", "open_error", "fork_error", "alloc_error",
  "slow_command", "clock_jump",
};

uint64_t hash_bytes(const void* data, size_t size, uint64_t h) {
  auto p = static_cast<const unsigned char*>(data);
  for (size_t i = 0; i < size; ++i)
    h = (h ^ p[i]) * 1099511628211ull;
  return h;
}

void record(RecType type, int proc, int a, int b, int c, int d, std::string s) {
  W->log.push_back({ W->now, type, (int16_t)proc, a, b, c, d, std::move(s) });
}

void sim_error(const std::string& what) {
  if (W && W->error.empty())
    W->error = what;
  fprintf(stderr, "SIM-ERROR: %s\n", what.c_str());
  fflush(stderr);
  _exit(77);
}

void violation(const std::string& what) {
  if (W->verdict.empty())
    W->verdict = what;
}

std::string escape(std::string_view s) {
  std::string r;
  char b[8];
  for (unsigned char c : s) {
    if (c <= ' ' || c == '%' || c >= 0x7f) {
      snprintf(b, sizeof(b), "%%%02X", c);
      r += b;
    }
    else r += (char)c;
  }
  return r.empty() ? "%" : r;
}

std::string unescape(std::string_view s) {
  if (s == "%")
    return {};
  std::string r;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '%' && i + 2 < s.size()) {
      r += (char)strtol(std::string(s.substr(i + 1, 2)).c_str(), nullptr, 16);
      i += 2;
    }
    else r += s[i];
  }
  return r;
}

//---------------------------------------------------------------- faults
static uint64_t proc_hash(const Proc& p) {
  return hash_bytes(p.name.data(), p.name.size());
}

int64_t fault(Proc& p, FaultKind kind) {
  auto ord = p.ord[kind]++;
  W->fault_opps[kind]++;
  int64_t value = -1;
  if (W->explicit_faults) {
    if (W->given.empty())
      return -1;
    auto it = W->given.find({ kind, p.name, ord });
    if (it == W->given.end())
      return -1;
    value = it->second;
  }
  else {
    auto& cfg = W->fcfg[kind];
    if (!cfg.ppm || W->calm || !(cfg.procs & (1u << p.kind)))
      return -1;
    auto h = hash_of(W->seed, kind + 17, proc_hash(p), ord);
    if (h % 1000000 >= cfg.ppm)
      return -1;
    auto h2 = mix(h ^ 0xabcdef);
    auto max = std::max<int64_t>(cfg.max, 1);
    if (kind == F_STALL || kind == F_WAKE) {
      auto scale = h2 % 10;
      auto m = scale < 6 ? std::min<int64_t>(max, 200) : scale < 9 ? std::min<int64_t>(max, 5000) : max;
      value = 1 + (int64_t)((h2 >> 8) % (uint64_t)m);
    }
    else value = 1 + (int64_t)((h2 >> 8) % (uint64_t)max);
  }
  W->fired.push_back({ { kind, p.name, ord }, value });
  W->fault_count[kind]++;
  record(R_FAULT, p.index, kind, (int)ord, (int)value);
  return value;
}

//---------------------------------------------------------------- fibers
extern "C" void sim_switch(void** save, void* load);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

static void* g_sched_sp;
enum Request { Q_NONE, Q_FORK, Q_FORK_RETURN };
static Request g_request;
static constexpr size_t STACK = 1 << 20;

struct EhGlobals { void* caught; unsigned uncaught; };

static EhGlobals* eh() { return reinterpret_cast<EhGlobals*>(abi::__cxa_get_globals()); }

static void resume(Proc& p) {
  auto g = eh();
  auto saved = *g;
  g->caught = p.eh[0];
  g->uncaught = (unsigned)(uintptr_t)p.eh[1];
  W->ctx_switches++;
  W->sched_hash = hash_of(W->sched_hash, (uint64_t)p.index, p.nsys);
  p.last_run = W->now;
  for (;;) {
    g_request = Q_NONE;
    sim_switch(&g_sched_sp, p.sp);
    if (g_request == Q_FORK) {
      p.fork_sp = p.sp;
      auto top = p.stack + p.stack_size;
      p.fork_stack.assign((char*)p.sp, top);
      p.fork_ret = 0;
      continue;
    }
    if (g_request == Q_FORK_RETURN) {
      memcpy(p.fork_sp, p.fork_stack.data(), p.fork_stack.size());
      p.sp = p.fork_sp;
      p.fork_stack.clear();
      continue;
    }
    break;
  }
  p.eh[0] = g->caught;
  p.eh[1] = (void*)(uintptr_t)g->uncaught;
  *g = saved;
}

void switch_out(Proc& p) {
  sim_switch(&p.sp, g_sched_sp);
}

static Proc* g_starting;
static void fiber_main() {
  auto& p = *g_starting;
  g_cur = &p;
  auto code = p.mod->main((int)p.args.size(), p.argv.data());
  g_cur = nullptr;
  // normal termination
  p.handlers.size();
  auto& list = p.mod->atexits;
  while (!list.empty()) {
    auto [fn, arg] = list.back();
    list.pop_back();
    g_cur = &p;
    fn(arg);
    g_cur = nullptr;
  }
  proc_exit(p, code, 0);
}

static void release_file(File& f);

// the stack of a process which ended is never unwound, so files it was using
// at that moment have to be released explicitly
static void close_all(Proc& p) {
  auto fds = std::move(p.fds);
  p.fds.clear();
  p.ready = nullptr;
  for (auto& [fd, e] : fds) {
    auto shared = false;
    for (auto& q : W->procs)
      if (!q->exited)
        for (auto& [fd2, e2] : q->fds)
          shared = shared || e2.file == e.file;
    if (!shared)
      release_file(*e.file);
  }
  fds.clear();
}

static void finish(Proc& p, int code, int sig) {
  if (p.exited)
    return;
  p.exited = true;
  p.state = S_EXITED;
  p.exit_code = code;
  p.exit_signal = sig;
  p.exit_time = W->now;
  if (!p.line.empty()) {
    record(R_MSG, p.index, 0, 0, 0, 0, p.line);
    p.line.clear();
  }
  record(p.kind == P_CMD ? R_CMDEXIT : R_EXIT, p.index, code, sig);
  close_all(p);
  for (auto c : p.children)
    W->procs[(size_t)c]->parent = -1;
  if (p.parent >= 0) {
    auto& parent = *W->procs[(size_t)p.parent];
    if (!parent.exited) {
      parent.children.erase(p.index);
      parent.zombies.insert(p.index);
      post_signal(parent, SIGCHLD);
    }
  }
  if (W->on_exit)
    W->on_exit(p);
}

void proc_exit(Proc& p, int code, int sig) {
  if (p.vchild) {
    auto& c = *p.vchild;
    p.vchild = nullptr;
    finish(c, code, sig);
    p.fork_ret = c.pid;
    g_request = Q_FORK_RETURN;
    switch_out(p);
    abort();
  }
  finish(p, code, sig);
  switch_out(p);
  abort();
}

int sys_fork(Proc& p) {
  auto child = std::make_unique<Proc>();
  child->index = (int)W->procs.size();
  child->pid = W->next_pid++;
  child->kind = P_CMD;
  child->ordinal = W->count[P_CMD]++;
  child->name = "x" + std::to_string(child->ordinal);
  child->fds = p.fds;
  child->parent = p.index;
  child->start_time = W->now;
  child->state = S_BLOCKED;
  child->ready = [] { return false; };
  child->handlers = p.handlers;
  p.children.insert(child->index);
  p.vchild = child.get();
  W->procs.push_back(std::move(child));
  g_request = Q_FORK;
  switch_out(p);
  return p.fork_ret;
}

static Time command_duration(const std::string& command, uint64_t key) {
  auto pos = command.find("dur=");
  if (pos != std::string::npos)
    return (Time)atoll(command.c_str() + pos + 4) * MS;
  return (Time)(1 + hash_of(W->seed, 991, key) % 20) * MS;
}

// what a shell makes of a command line: the words of the first command and
// everything else it would execute
std::vector<std::string> shell_words(const std::string& line, std::vector<std::string>* others) {
  std::vector<std::string> words(1);
  auto quote = '\0';
  for (size_t i = 0; i < line.size(); ++i) {
    auto c = line[i];
    auto next = i + 1 < line.size() ? line[i + 1] : '\0';
    if (quote == '\'') {
      if (c == '\'') quote = '\0'; else words.back() += c;
    }
    else if (c == '\\' && (quote ? next && strchr("$`\"\\\n", next) : next)) {
      if (next != '\n') words.back() += next;
      ++i;
    }
    else if (c == '"') quote = quote ? '\0' : '"';
    else if (c == '\'' && !quote) quote = c;
    else if (c == '`' || (c == '$' && next == '(')) {
      auto end = line.find(c == '`' ? '`' : ')', i + (c == '`' ? 1 : 2));
      if (end == std::string::npos) return {};
      auto from = i + (c == '`' ? 1 : 2);
      others->push_back(line.substr(from, end - from));
      i = end;
    }
    else if (c == '$' && (isalnum(next) || next == '_' || next == '{' || next == '?' || next == '$'))
      while (i + 1 < line.size() && (isalnum(line[i + 1]) || strchr("_{}?$", line[i + 1]))) ++i;
    else if (!quote && strchr(" \t", c)) { if (!words.back().empty()) words.emplace_back(); }
    else if (!quote && strchr(";&|\n<>()", c)) {
      others->push_back(line.substr(i + 1));
      break;
    }
    else words.back() += c;
  }
  if (quote) { others->clear(); return {}; }
  return words;
}

static void exec_into(Proc& c, const std::string& command, Time duration) {
  c.cmd = command;
  c.handlers.clear();
  for (auto it = c.fds.begin(); it != c.fds.end(); )
    if (it->second.cloexec) it = c.fds.erase(it); else ++it;
  record(R_EXEC, c.index, c.parent, 0, 0, 0, command);
  if (command.rfind("notify-send", 0) == 0) {
    std::vector<std::string> others;
    shell_words(command, &others);
    for (auto& other : others) record(R_EXEC, c.index, c.parent, 0, 0, 0, other);
  }
  auto pc = &c;
  c.cmd_end = W->now + duration;
  at(c.cmd_end, [pc] { finish(*pc, 0, 0); });
}

void sys_exec(Proc& p, const std::string& command) {
  if (!p.vchild)
    sim_error("exec in a main process");
  auto& c = *p.vchild;
  p.vchild = nullptr;
  auto slow = fault(p, F_CMD_SLOW);
  exec_into(c, command, slow >= 0 ? slow * MS : command_duration(command, (uint64_t)c.ordinal));
  p.fork_ret = c.pid;
  g_request = Q_FORK_RETURN;
  switch_out(p);
  abort();
}

int start_command(Proc& parent, const std::string& command, Time duration, bool inherit) {
  auto child = std::make_unique<Proc>();
  auto& c = *child;
  c.index = (int)W->procs.size();
  c.pid = W->next_pid++;
  c.kind = P_CMD;
  c.ordinal = W->count[P_CMD]++;
  c.name = "x" + std::to_string(c.ordinal);
  if (inherit)
    c.fds = parent.fds;
  c.parent = parent.index;
  c.start_time = W->now;
  c.state = S_BLOCKED;
  c.ready = [] { return false; };
  parent.children.insert(c.index);
  W->procs.push_back(std::move(child));
  exec_into(c, command, duration >= 0 ? duration : command_duration(command, (uint64_t)c.ordinal));
  return c.index;
}

//---------------------------------------------------------------- signals
static bool deliverable(Proc& p, int sig) {
  auto it = p.handlers.find(sig);
  if (it == p.handlers.end() || it->second == SIG_DFL)
    return sig != SIGCHLD && sig != SIGURG && sig != SIGWINCH;
  return it->second != SIG_IGN;
}

void post_signal(Proc& p, int sig) {
  if (p.exited)
    return;
  if (sig == SIGKILL) {
    kill_proc(p, SIGKILL);
    return;
  }
  if (!deliverable(p, sig))
    return;
  if (p.kind == P_CMD) {
    finish(p, 0, sig);
    return;
  }
  if (std::find(p.pending.begin(), p.pending.end(), sig) == p.pending.end())
    p.pending.push_back(sig);
}

void run_signals(Proc& p) {
  while (!p.pending.empty()) {
    auto sig = p.pending.front();
    p.pending.pop_front();
    auto it = p.handlers.find(sig);
    auto h = (it == p.handlers.end() ? SIG_DFL : it->second);
    if (h == SIG_IGN || !deliverable(p, sig))
      continue;
    record(R_SIGNAL, p.index, sig, h != SIG_DFL);
    if (h == SIG_DFL)
      proc_exit(p, 0, sig);
    g_cur = &p;
    h(sig);
    g_cur = nullptr;
  }
}

void kill_proc(Proc& p, int sig) {
  if (p.exited)
    return;
  if (sig != SIGKILL) {
    post_signal(p, sig);
    return;
  }
  record(R_SIGNAL, p.index, sig);
  finish(p, 0, sig);
}

//---------------------------------------------------------------- scheduling
void sys_enter(Proc& p) {
  if (p.vchild)
    return;
  p.nsys++;
  if (fault(p, F_CRASH) >= 0) {
    record(R_SIGNAL, p.index, SIGKILL);
    proc_exit(p, 0, SIGKILL);
  }
  if (fault(p, F_TERM) >= 0)
    post_signal(p, SIGTERM);
  auto cost = W->base_cost + (Time)(hash_of(W->seed, 5, proc_hash(p), p.nsys) % (uint64_t)W->base_cost);
  if (p.spins > 20)
    cost += (Time)std::min<uint64_t>(p.spins, 2000) * US;
  if (auto v = fault(p, F_STALL); v >= 0)
    cost += v * US;
  p.state = S_READY;
  p.wake = W->now + cost;
  switch_out(p);
  run_signals(p);
}

WakeReason block(Proc& p, std::function<bool()> ready, Time deadline, bool interruptible) {
  if (p.vchild)
    sim_error("blocking call between fork and exec");
  p.ready = std::move(ready);
  p.deadline = deadline;
  p.interruptible = interruptible;
  p.state = S_BLOCKED;
  p.asleep_since = W->now;
  switch_out(p);
  p.asleep += W->now - p.asleep_since;
  p.asleep_since = -1;
  p.wakes++;
  p.ready = nullptr;
  auto reason = p.reason;
  if (reason == W_SIGNAL)
    run_signals(p);
  return reason;
}

void at(Time t, std::function<void()> fn) {
  W->timers.push_back({ t, W->timer_seq++, std::move(fn) });
  std::push_heap(W->timers.begin(), W->timers.end(), TimerLess{});
}

static void wake(Proc& p, WakeReason reason) {
  p.reason = reason;
  p.state = S_READY;
  auto lat = 1 * US + (Time)(hash_of(W->seed, 6, proc_hash(p), p.nsys) % 4) * US;
  if (auto v = fault(p, F_WAKE); v >= 0)
    lat += v * US;
  p.wake = W->now + lat;
}

void run_until(Time end) {
  constexpr Time INF = INT64_MAX;
  while (!W->stop) {
    Proc* best = nullptr;
    auto bt = INF;
    for (size_t i = 0; i < W->procs.size(); ++i) {
      auto& p = *W->procs[i];
      if (p.state == S_EXITED || p.kind == P_CMD)
        continue;
      if (p.state == S_BLOCKED) {
        if (p.interruptible && !p.pending.empty())
          wake(p, W_SIGNAL);
        else if (p.ready && p.ready())
          wake(p, W_READY);
        else if (p.deadline >= 0 && p.deadline <= W->now)
          wake(p, W_TIMEOUT);
      }
      auto t = p.state == S_READY ? p.wake : p.deadline >= 0 ? p.deadline : INF;
      if (t != INF)
        t = std::max(t, p.frozen_until);
      if (t < bt) {
        bt = t;
        best = &p;
      }
    }
    auto tt = W->timers.empty() ? INF : W->timers.front().t;
    if (tt <= bt) {
      if (tt == INF || tt > end)
        break;
      W->now = std::max(W->now, tt);
      std::pop_heap(W->timers.begin(), W->timers.end(), TimerLess{});
      auto fn = std::move(W->timers.back().fn);
      W->timers.pop_back();
      fn();
      continue;
    }
    if (bt > end)
      break;
    W->now = std::max(W->now, bt);
    if (best->state == S_BLOCKED)
      continue;   // its deadline has been reached
    if (++W->steps > W->max_steps || W->procs.size() > 2000) {
      W->hit_step_cap = true;
      W->stop = true;
      break;
    }
    if (best->sp) {
      resume(*best);
    }
    else {
      // first run
      auto& p = *best;
      p.stack_size = STACK;
      p.stack = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE,
        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      auto top = (void**)(p.stack + STACK);
      mprotect(p.stack, 4096, PROT_NONE);
      *--top = nullptr;
      *--top = (void*)&fiber_main;
      for (auto i = 0; i < 6; ++i)
        *--top = nullptr;
      p.sp = top;
      g_starting = &p;
      resume(p);
    }
  }
  if (!W->stop)
    W->now = std::max(W->now, end);
}

//---------------------------------------------------------------- processes
struct Pool { std::vector<std::unique_ptr<Module>> mods; };
static Pool g_pool[P_NUM];

bool load_pool(const std::string& dir) {
  const char* names[] = { "keymapperd", "keymapper", "keymapperctl" };
  for (auto k = 0; k < 3; ++k)
    for (auto i = 0; ; ++i) {
      auto path = dir + "/" + names[k] + "." + std::to_string(i) + ".so";
      if (access(path.c_str(), R_OK) != 0)
        break;
      auto m = std::make_unique<Module>();
      m->path = path;
      g_loading = m.get();
      m->handle = dlopen(path.c_str(), RTLD_LAZY | RTLD_LOCAL);
      g_loading = nullptr;
      if (!m->handle) {
        fprintf(stderr, "%s\n", dlerror());
        return false;
      }
      m->main = (int(*)(int, char**))dlsym(m->handle, "main");
      if (!m->main)
        return false;
      g_pool[k].mods.push_back(std::move(m));
    }
  return !g_pool[0].mods.empty() && !g_pool[1].mods.empty() && !g_pool[2].mods.empty();
}

Proc* spawn(ProcKind kind, std::vector<std::string> args) {
  Module* mod = nullptr;
  for (auto& m : g_pool[kind].mods)
    if (!m->used) {
      mod = m.get();
      break;
    }
  if (!mod) {
    W->exhausted = true;
    return nullptr;
  }
  mod->used = true;
  auto up = std::make_unique<Proc>();
  auto& p = *up;
  p.index = (int)W->procs.size();
  p.pid = W->next_pid++;
  p.kind = kind;
  p.ordinal = W->count[kind]++;
  p.name = std::string(1, "dck"[kind]) + std::to_string(p.ordinal);
  const char* names[] = { "keymapperd", "keymapper", "keymapperctl" };
  p.args = std::move(args);
  p.args.insert(p.args.begin(), names[kind]);
  for (auto& a : p.args)
    p.argv.push_back(a.data());
  p.argv.push_back(nullptr);
  p.mod = mod;
  p.handlers = mod->signals;
  p.wake = W->now + 50 * US;
  p.start_time = W->now;
  auto out = std::make_shared<File>();
  out->kind = K_OUT;
  for (auto fd = 0; fd < 3; ++fd)
    p.fds[fd] = { out, false };
  std::string s;
  for (auto& a : p.args)
    s += (s.empty() ? "" : " ") + a;
  record(R_START, p.index, kind, p.ordinal, 0, 0, s);
  W->procs.push_back(std::move(up));
  return &p;
}

Proc* live(ProcKind kind) {
  for (auto it = W->procs.rbegin(); it != W->procs.rend(); ++it)
    if ((*it)->kind == kind && !(*it)->exited)
      return it->get();
  return nullptr;
}

//---------------------------------------------------------------- files
int alloc_fd(Proc& p, std::shared_ptr<File> f, bool cloexec, int from) {
  auto fd = from;
  while (p.fds.count(fd))
    ++fd;
  if (fd >= 590)
    return -1;
  p.fds[fd] = { std::move(f), cloexec };
  return fd;
}

File* get_file(Proc& p, int fd) {
  auto it = p.fds.find(fd);
  return it == p.fds.end() ? nullptr : it->second.file.get();
}

File::~File() {
  if (W)
    release_file(*this);
}

static void release_file(File& f) {
  auto kind = f.kind;
  auto& sock = f.sock;
  auto& dev = f.dev;
  f.kind = K_NULL;
  switch (kind) {
    case K_SOCK:
      if (sock)
        sock_close(*sock);
      break;
    case K_EVDEV:
      if (dev) {
        auto& v = dev->clients;
        v.erase(std::remove(v.begin(), v.end(), &f), v.end());
        if (dev->grab == &f) {
          dev->grab = nullptr;
          record(R_UNGRAB, -1, dev->id);
        }
      }
      break;
    case K_UINPUT:
      if (dev)
        unplug(*dev);
      break;
    case K_INOTIFY:
      W->inotifies.erase(&f);
      break;
    default:
      break;
  }
}

Time wall_now() { return W->now + W->wall_offset; }

void write_file(const std::string& path, const std::string& content) {
  auto& f = W->files[path];
  f.content = content;
  f.mtime = wall_now() / W->mtime_gran * W->mtime_gran;
}

void remove_file(const std::string& path) { W->files.erase(path); }

//---------------------------------------------------------------- sockets
void sock_close(Sock& s) {
  if (s.closed)
    return;
  s.closed = true;
  if (s.listening) {
    record(R_LISTENCLOSE, s.owner, s.id, 0, 0, 0, s.name);
    auto it = W->listeners.find(s.name);
    if (it != W->listeners.end() && it->second.get() == &s)
      W->listeners.erase(it);
    auto queue = std::move(s.queue);
    s.queue.clear();
    for (auto& c : queue)
      sock_close(*c);
    return;
  }
  if (s.peer) {
    s.peer->eof = true;
    if (!s.rx.empty())
      s.peer->err = 104;  // ECONNRESET
    s.peer->peer = nullptr;
    s.peer = nullptr;
  }
  if (s.connected)
    record(R_SOCKCLOSE, s.owner, s.id);
}

std::shared_ptr<Sock> peer_connect(const std::string& name) {
  auto it = W->listeners.find(name);
  if (it == W->listeners.end())
    return nullptr;
  auto& l = *it->second;
  if ((int)l.queue.size() > l.backlog)
    return nullptr;
  auto a = std::make_shared<Sock>(), b = std::make_shared<Sock>();
  a->id = W->next_sock++;
  b->id = W->next_sock++;
  a->cap = b->cap = W->sockcap;
  a->peer = b.get();
  b->peer = a.get();
  a->connected = b->connected = true;
  b->owner = l.owner;
  l.queue.push_back(b);
  record(R_CONNECT, -1, a->id, b->id, 0, 0, name);
  return a;
}

void peer_send(Sock& s, const std::string& data) {
  if (s.peer && !s.closed)
    s.peer->rx += data;
}

bool fd_readable(File& f) {
  switch (f.kind) {
    case K_SOCK:
      if (f.sock->listening)
        return !f.sock->queue.empty();
      return !f.sock->rx.empty() || f.sock->eof || f.sock->err || !f.sock->connected;
    case K_EVDEV: return !f.q.empty() || f.dev->dead;
    case K_INOTIFY: return !f.ino.empty();
    default: return true;
  }
}

bool fd_writable(File& f) {
  if (f.kind == K_SOCK)
    return f.sock->err || f.sock->shut_write || !f.sock->peer || f.sock->peer->rx.size() < f.sock->cap;
  return true;
}

//---------------------------------------------------------------- devices
Dev& add_device(std::unique_ptr<Dev> dev) {
  dev->id = (int)W->devs.size();
  W->devs.push_back(std::move(dev));
  return *W->devs.back();
}

Dev* dev_by_key(const std::string& key) {
  for (auto it = W->devs.rbegin(); it != W->devs.rend(); ++it)
    if ((*it)->key == key)
      return it->get();
  return nullptr;
}

void notify_inotify(const std::string& dir, const std::string& name, uint32_t mask) {
  for (auto f : W->inotifies)
    if (auto it = f->watches.find(dir); it != f->watches.end() && it->second & mask) {
      char buf[sizeof(inotify_event) + 16] = { };
      inotify_event ev{ };
      ev.wd = 1;
      ev.mask = mask;
      ev.len = 16;
      memcpy(buf, &ev, sizeof(inotify_event));
      strncpy(buf + sizeof(inotify_event), name.c_str(), 15);
      f->ino.emplace_back(buf, sizeof(buf));
    }
}

void plug(Dev& dev) {
  if (dev.present)
    return;
  std::set<int> used;
  for (auto& d : W->devs)
    if (d->present)
      used.insert(d->node);
  dev.node = 0;
  while (used.count(dev.node))
    ++dev.node;
  dev.present = true;
  dev.dead = false;
  dev.down.reset();
  dev.frame.clear();
  record(dev.virt ? R_VCREATE : R_PLUG, dev.owner, dev.id, dev.node, 0, 0, dev.name);
  notify_inotify("/dev/input", "event" + std::to_string(dev.node), IN_CREATE);
  if (dev.byid.empty())
    return;
  auto link = [pd = &dev] {
    if (!pd->present || pd->linked) return;
    pd->linked = true;
    notify_inotify("/dev/input/by-id", pd->byid, IN_CREATE);
  };
  if (W->link_delay && W->now > W->start) at(W->now + W->link_delay, link);
  else link();
}

static void deliver(Dev& dev) {
  // a completed frame
  auto frame = std::move(dev.frame);
  dev.frame.clear();
  if (frame.empty())
    return;
  frame.push_back({ EV_SYN, SYN_REPORT, 0, W->now });
  if (dev.grab) {
    for (auto& e : frame)
      dev.grab->q.push_back(e);
    return;
  }
  for (auto c : dev.clients)
    for (auto& e : frame)
      c->q.push_back(e);
  for (auto& e : frame) {
    if (e.type == EV_KEY) {
      if (e.value != 2)
        dev.deskdown.set(e.code, e.value != 0);
      record(R_DESK, dev.owner, dev.id, e.code, e.value, dev.virt);
    }
    else if (e.type != EV_SYN)
      record(R_DESKEV, dev.owner, dev.id, e.type, e.code, e.value);
  }
}

void dev_event(Dev& dev, uint16_t type, uint16_t code, int32_t value) {
  if (!dev.present || dev.dead)
    return;
  auto bit = [](uint64_t bits, unsigned b) { return b < 64 && (bits >> b & 1); };
  switch (type) {
    case EV_SYN:
      if (code == SYN_REPORT)
        deliver(dev);
      return;
    case EV_KEY:
      if (code >= KEYS || !dev.keys.test(code))
        return;
      if (value != 2) {
        if (dev.down.test(code) == (value != 0))
          return;
        dev.down.set(code, value != 0);
      }
      break;
    case EV_REL:
      if (!bit(dev.rel, code) || value == 0)
        return;
      break;
    case EV_ABS: {
      if (!bit(dev.absb, code))
        return;
      auto& info = dev.absinfo[code];
      if (info.value == value)
        return;
      info.value = value;
      break;
    }
    case EV_MSC:
      if (!bit(dev.msc, code))
        return;
      break;
    case EV_SW:
      if (!bit(dev.sw, code) || bit(dev.swstate, code) == (value != 0))
        return;
      dev.swstate ^= 1ull << code;
      break;
    default:
      return;
  }
  if (!dev.virt)
    record(R_PHYS, -1, dev.id, type, code, value);
  dev.frame.push_back({ type, code, value, W->now });
}

void unplug(Dev& dev) {
  if (!dev.present)
    return;
  // the kernel releases all keys first
  dev.frame.clear();
  for (auto k = 0; k < KEYS; ++k)
    if (dev.down.test((size_t)k))
      dev_event(dev, EV_KEY, (uint16_t)k, 0);
  deliver(dev);
  // released for the desktop in any case, the device is gone
  for (auto k = 0; k < KEYS; ++k)
    if (dev.deskdown.test((size_t)k)) {
      dev.deskdown.reset((size_t)k);
      record(R_DESK, dev.owner, dev.id, k, 0, dev.virt);
    }
  record(dev.virt ? R_VDESTROY : R_UNPLUG, dev.owner, dev.id, dev.node);
  auto node = dev.node;
  dev.present = false;
  if (dev.linked) notify_inotify("/dev/input/by-id", dev.byid, IN_DELETE);
  dev.linked = false;
  notify_inotify("/dev/input", "event" + std::to_string(node), IN_DELETE);
  auto pd = &dev;
  at(W->now + W->unplug_gap, [pd] {
    if (!pd->present)
      pd->dead = true;
  });
}

}  // namespace sim
