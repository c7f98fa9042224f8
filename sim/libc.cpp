// Definitions of the C library functions the programs use. Being part of the
// executable they take precedence for all loaded objects, including libstdc++.
// Outside of simulated processes they forward to the real functions.
#include <spawn.h>
#include <sys/timerfd.h>
#include <sys/eventfd.h>
#include <sys/signalfd.h>
#include "sim.h"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/input.h>
#include <linux/uinput.h>
#include <poll.h>
#include <pwd.h>
#include <sys/inotify.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <unistd.h>
#include <wordexp.h>

using namespace sim;

#define REAL(name) static auto real = reinterpret_cast<decltype(&::name)>(dlsym(RTLD_NEXT, #name))
#define PASS(name, ...) if (!g_cur) { REAL(name); return real(__VA_ARGS__); }

static constexpr int REAL_FD = 600;

template<class T = int>
static T fail(int err) { errno = err; return (T)-1; }

static Time to_time(const timespec& t) { return (Time)t.tv_sec * SEC + t.tv_nsec; }

static const char* path_arg(const char* s) { return s ? s : ""; }

//---------------------------------------------------------------- program life
extern "C" int __cxa_atexit(void (*fn)(void*), void* arg, void* dso) {
  if (g_loading) { g_loading->atexits.push_back({ fn, arg }); return 0; }
  if (g_cur) { g_cur->mod->atexits.push_back({ fn, arg }); return 0; }
  static auto real = reinterpret_cast<int(*)(void(*)(void*), void*, void*)>(dlsym(RTLD_NEXT, "__cxa_atexit"));
  return real(fn, arg, dso);
}

extern "C" void exit(int code) {
  if (!g_cur) { REAL(exit); real(code); abort(); }
  auto& p = *g_cur;
  if (!p.vchild) {
    auto& list = p.mod->atexits;
    while (!list.empty()) {
      auto [fn, arg] = list.back();
      list.pop_back();
      fn(arg);
    }
  }
  g_cur = nullptr;
  if (p.vchild) {
    // the parent continues in its own context
  }
  proc_exit(p, code & 0xff, 0);
}

extern "C" void _exit(int code) {
  if (!g_cur) { REAL(_exit); real(code); __builtin_unreachable(); }
  auto& p = *g_cur;
  g_cur = nullptr;
  proc_exit(p, code & 0xff, 0);
}

extern "C" pid_t fork() {
  PASS(fork);
  auto p = g_cur;
  {
    Kernel k;
    sys_enter(*p);
    if (fault(*p, F_FORK_FAIL) >= 0) {
      g_cur = p;
      return fail(EAGAIN);
    }
    sys_fork(*p);
  }
  g_cur = p;
  return p->fork_ret;
}
extern "C" pid_t vfork() { return fork(); }

static int do_exec(std::string command) {
  Kernel k;
  sys_exec(*k.p, command);
}

extern "C" int execl(const char* path, const char* arg, ...) {
  if (!g_cur) { errno = ENOSYS; return -1; }
  std::vector<std::string> args{ path };
  va_list ap;
  va_start(ap, arg);
  std::vector<std::string> av;
  for (auto a = arg; a; a = va_arg(ap, const char*))
    av.push_back(a);
  va_end(ap);
  // "/bin/sh -c command" is the command itself
  if (av.size() == 3 && av[1] == "-c")
    return do_exec(av[2]);
  std::string s = path;
  for (size_t i = 1; i < av.size(); ++i)
    s += " " + av[i];
  return do_exec(s);
}

static std::string command_line(const char* path, char* const argv[]) {
  std::vector<std::string> av;
  for (auto a = argv; *a; ++a)
    av.push_back(*a);
  if (av.size() == 3 && av[1] == "-c")
    return av[2];
  std::string s = path;
  for (size_t i = 1; i < av.size(); ++i)
    s += " " + av[i];
  return s;
}
static int exec_v(const char* path, char* const argv[]) { return do_exec(command_line(path, argv)); }
extern "C" int execv(const char* path, char* const argv[]) { PASS(execv, path, argv); return exec_v(path, argv); }
extern "C" int execvp(const char* path, char* const argv[]) { PASS(execvp, path, argv); return exec_v(path, argv); }
extern "C" int execve(const char* path, char* const argv[], char* const envp[]) { PASS(execve, path, argv, envp); return exec_v(path, argv); }

extern "C" pid_t setsid() { PASS(setsid); return g_cur->pid; }
extern "C" pid_t getpid() { PASS(getpid); return g_cur->pid; }
extern "C" uid_t getuid() { PASS(getuid); return 1000; }
extern "C" uid_t geteuid() { PASS(geteuid); return 1000; }

extern "C" int system(const char* command) {
  if (!g_cur) { REAL(system); return real(command); }
  Kernel k;
  auto& p = *k.p;
  sys_enter(p);
  auto slow = fault(p, F_CMD_SLOW);
  std::string cmd = path_arg(command);
  record(R_SYSTEM, p.index, 0, 0, 0, 0, cmd);
  if (fault(p, F_FORK_FAIL) >= 0)
    return fail(EAGAIN);
  auto index = start_command(p, cmd, slow >= 0 ? slow * MS : -1, true);
  auto& child = *W->procs[(size_t)index];
  // SIGCHLD is blocked by system() meanwhile, SIGINT ignored
  while (!child.exited)
    block(p, [&child] { return child.exited; }, -1, false);
  p.zombies.erase(index);
  child.reaped = true;
  run_signals(p);
  return 0;
}

static int do_spawn(pid_t* pid, const char* path, char* const argv[]) {
  Kernel k;
  auto& p = *k.p;
  sys_enter(p);
  auto slow = fault(p, F_CMD_SLOW);
  if (fault(p, F_FORK_FAIL) >= 0)
    return EAGAIN;
  auto index = start_command(p, command_line(path, argv), slow >= 0 ? slow * MS : -1, true);
  if (pid)
    *pid = W->procs[(size_t)index]->pid;
  return 0;
}
extern "C" int posix_spawn(pid_t* pid, const char* path, const posix_spawn_file_actions_t* f, const posix_spawnattr_t* a, char* const argv[], char* const envp[]) {
  if (!g_cur) { REAL(posix_spawn); return real(pid, path, f, a, argv, envp); }
  return do_spawn(pid, path, argv);
}
extern "C" int posix_spawnp(pid_t* pid, const char* path, const posix_spawn_file_actions_t* f, const posix_spawnattr_t* a, char* const argv[], char* const envp[]) {
  if (!g_cur) { REAL(posix_spawnp); return real(pid, path, f, a, argv, envp); }
  return do_spawn(pid, path, argv);
}

static pid_t do_wait(pid_t pid, int* status, int options) {
  Kernel k;
  auto& p = *k.p;
  sys_enter(p);
  auto find = [&p, pid]() -> int {
    for (auto z : p.zombies)
      if (pid <= 0 || W->procs[(size_t)z]->pid == pid)
        return z;
    return -1;
  };
  for (;;) {
    if (auto z = find(); z >= 0) {
      auto& c = *W->procs[(size_t)z];
      p.zombies.erase(z);
      c.reaped = true;
      record(R_REAP, p.index, z);
      if (status)
        *status = c.exit_signal ? c.exit_signal : c.exit_code << 8;
      return c.pid;
    }
    auto any = false;
    for (auto c : p.children)
      any |= (pid <= 0 || W->procs[(size_t)c]->pid == pid);
    if (!any)
      return fail(ECHILD);
    if (options & WNOHANG)
      return 0;
    block(p, [&] { return find() >= 0; }, -1);
  }
}
extern "C" pid_t wait(int* status) { PASS(wait, status); return do_wait(-1, status, 0); }
extern "C" pid_t waitpid(pid_t pid, int* status, int options) { PASS(waitpid, pid, status, options); return do_wait(pid, status, options); }

extern "C" sighandler_t signal(int sig, sighandler_t handler) noexcept {
  if (g_loading) {
    auto old = g_loading->signals.count(sig) ? g_loading->signals[sig] : SIG_DFL;
    g_loading->signals[sig] = handler;
    return old;
  }
  if (!g_cur) { REAL(signal); return real(sig, handler); }
  auto& h = g_cur->handlers;
  auto old = h.count(sig) ? h[sig] : SIG_DFL;
  h[sig] = handler;
  return old;
}

extern "C" int sigaction(int sig, const struct sigaction* act, struct sigaction* old) noexcept {
  auto apply = [&](std::map<int, void(*)(int)>& h) {
    if (old) {
      memset(old, 0, sizeof(*old));
      old->sa_handler = h.count(sig) ? h[sig] : SIG_DFL;
    }
    if (act)
      h[sig] = act->sa_handler;
    return 0;
  };
  if (g_loading)
    return apply(g_loading->signals);
  if (!g_cur) { REAL(sigaction); return real(sig, act, old); }
  return apply(g_cur->handlers);
}

extern "C" int raise(int sig) noexcept {
  if (!g_cur) { REAL(raise); return real(sig); }
  Kernel k;
  post_signal(*k.p, sig);
  run_signals(*k.p);
  return 0;
}

extern "C" int kill(pid_t pid, int sig) noexcept {
  if (!g_cur) { REAL(kill); return real(pid, sig); }
  Kernel k;
  for (auto& q : W->procs)
    if (q->pid == pid && !q->exited) {
      if (sig)
        post_signal(*q, sig);
      return 0;
    }
  return fail(ESRCH);
}

extern "C" void __assert_fail(const char* expr, const char* file, unsigned line, const char* func) {
  auto p = g_cur;
  g_cur = nullptr;
  auto base = strrchr(file, '/');
  fprintf(stderr, "ASSERT %s: %s:%u: %s\n", p ? p->name.c_str() : "sim", base ? base + 1 : file, line, expr);
  fflush(stderr);
  g_cur = p;
  ::abort();
}

extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  if (!g_cur) { REAL(pthread_create); return real(t, a, fn, arg); }
  sim_error("threads are not simulated");
}

//---------------------------------------------------------------- environment
extern "C" char* getenv(const char* name) noexcept {
  if (g_loading)
    return nullptr;
  if (!g_cur) { REAL(getenv); return real(name); }
  auto it = W->env.find(name);
  return it == W->env.end() ? nullptr : const_cast<char*>(it->second.c_str());
}
extern "C" char* secure_getenv(const char* name) noexcept { return getenv(name); }

extern "C" struct passwd* getpwuid(uid_t uid) {
  if (!g_cur) { REAL(getpwuid); return real(uid); }
  static struct passwd pw;
  static char dir[] = "/home/user", name[] = "user";
  pw.pw_dir = dir;
  pw.pw_name = name;
  pw.pw_uid = uid;
  return &pw;
}

extern "C" char* getcwd(char* buf, size_t size) noexcept {
  if (!g_cur) { REAL(getcwd); return real(buf, size); }
  const char* cwd = "/home/user";
  if (!buf)
    return strdup(cwd);
  if (size < strlen(cwd) + 1) { errno = ERANGE; return nullptr; }
  return strcpy(buf, cwd);
}

extern "C" int wordexp(const char* s, wordexp_t* p, int flags) {
  if (!g_cur) { REAL(wordexp); return real(s, p, flags); }
  Kernel k;
  // "~" and "$NAME" are expanded, nothing else
  std::string in = s, out;
  for (size_t i = 0; i < in.size(); ++i) {
    if (in[i] == '~' && i == 0)
      out += W->env.count("HOME") ? W->env["HOME"] : "/home/user";
    else if (in[i] == '$') {
      std::string name;
      while (i + 1 < in.size() && (isalnum((unsigned char)in[i + 1]) || in[i + 1] == '_'))
        name += in[++i];
      out += W->env.count(name) ? W->env[name] : "";
    }
    else if (in[i] == '"' || in[i] == '\\') {}
    else out += in[i];
  }
  p->we_wordc = 1;
  p->we_wordv = (char**)malloc(2 * sizeof(char*));
  p->we_wordv[0] = strdup(out.c_str());
  p->we_wordv[1] = nullptr;
  return 0;
}
extern "C" void wordfree(wordexp_t* p) {
  if (!g_cur) { REAL(wordfree); real(p); return; }
  for (size_t i = 0; i < p->we_wordc; ++i)
    free(p->we_wordv[i]);
  free(p->we_wordv);
  p->we_wordc = 0;
}

//---------------------------------------------------------------- time
extern "C" int clock_gettime(clockid_t id, timespec* ts) noexcept {
  if (g_loading) { ts->tv_sec = 1000; ts->tv_nsec = 0; return 0; }
  if (!g_cur) { REAL(clock_gettime); return real(id, ts); }
  W->now += 20;
  auto t = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? wall_now() : W->now;
  ts->tv_sec = t / SEC;
  ts->tv_nsec = t % SEC;
  return 0;
}
extern "C" int gettimeofday(timeval* tv, void* tz) noexcept {
  if (g_loading) { tv->tv_sec = 1000; tv->tv_usec = 0; return 0; }
  if (!g_cur) { REAL(gettimeofday); return real(tv, tz); }
  W->now += 20;
  auto t = wall_now();
  tv->tv_sec = t / SEC;
  tv->tv_usec = t % SEC / US;
  return 0;
}
extern "C" time_t time(time_t* out) noexcept {
  if (g_loading) return 1000;
  if (!g_cur) { REAL(time); return real(out); }
  time_t t = wall_now() / SEC;
  if (out) *out = t;
  return t;
}

static int sleep_until(Time t, timespec* rem) {
  Kernel k;
  auto& p = *k.p;
  sys_enter(p);
  p.spins = 0;
  if (t > W->now) {
    record(R_SLEEP, p.index, (int)((t - W->now) / US));
    auto r = block(p, [] { return false; }, t);
    if (r == W_SIGNAL && W->now < t) {
      if (rem) {
        rem->tv_sec = (t - W->now) / SEC;
        rem->tv_nsec = (t - W->now) % SEC;
      }
      return fail(EINTR);
    }
  }
  return 0;
}
extern "C" int usleep(useconds_t us) { PASS(usleep, us); return sleep_until(W->now + (Time)us * US, nullptr); }
extern "C" unsigned sleep(unsigned s) { PASS(sleep, s); sleep_until(W->now + (Time)s * SEC, nullptr); return 0; }
extern "C" int nanosleep(const timespec* req, timespec* rem) { PASS(nanosleep, req, rem); return sleep_until(W->now + to_time(*req), rem); }
extern "C" int clock_nanosleep(clockid_t id, int flags, const timespec* req, timespec* rem) {
  PASS(clock_nanosleep, id, flags, req, rem);
  auto t = to_time(*req);
  if (!(flags & TIMER_ABSTIME)) t += W->now;
  else if (id == CLOCK_REALTIME) t -= W->wall_offset;
  auto r = sleep_until(t, rem);
  return r == 0 ? 0 : errno;
}
extern "C" int sched_yield() noexcept {
  if (!g_cur) { REAL(sched_yield); return real(); }
  Kernel k;
  sys_enter(*k.p);
  return 0;
}

//---------------------------------------------------------------- output
static void put(Proc& p, const char* s, size_t n) {
  p.writes.push_back({ p.out.size(), W->now });
  p.out.append(s, n);
  for (size_t i = 0; i < n; ++i) {
    if (s[i] == '\n') {
      record(R_MSG, p.index, 0, 0, 0, 0, p.line);
      p.line.clear();
    }
    else p.line += s[i];
  }
}
#define IS_OUT(f) (g_cur && ((f) == stdout || (f) == stderr))
extern "C" int fputs(const char* s, FILE* f) {
  if (IS_OUT(f)) { Kernel k; put(*k.p, s, strlen(s)); return 1; }
  REAL(fputs); return real(s, f);
}
extern "C" int puts(const char* s) {
  if (IS_OUT(stdout)) { Kernel k; put(*k.p, s, strlen(s)); put(*k.p, "\n", 1); return 1; }
  REAL(puts); return real(s);
}
extern "C" int fputc(int c, FILE* f) {
  if (IS_OUT(f)) { Kernel k; char ch = (char)c; put(*k.p, &ch, 1); return c; }
  REAL(fputc); return real(c, f);
}
extern "C" int putc(int c, FILE* f) {
  if (IS_OUT(f)) return fputc(c, f);
  REAL(putc); return real(c, f);
}
extern "C" int putchar(int c) { return fputc(c, stdout); }
extern "C" size_t fwrite(const void* data, size_t size, size_t n, FILE* f) {
  if (IS_OUT(f)) { Kernel k; put(*k.p, (const char*)data, size * n); return n; }
  REAL(fwrite); return real(data, size, n, f);
}
extern "C" int vfprintf(FILE* f, const char* fmt, va_list ap) {
  if (IS_OUT(f)) {
    char buf[4096];
    auto n = vsnprintf(buf, sizeof(buf), fmt, ap);
    Kernel k;
    put(*k.p, buf, strlen(buf));
    return n;
  }
  REAL(vfprintf); return real(f, fmt, ap);
}
extern "C" int fprintf(FILE* f, const char* fmt, ...) {
  va_list ap; va_start(ap, fmt);
  auto r = vfprintf(f, fmt, ap);
  va_end(ap);
  return r;
}
extern "C" int printf(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt);
  auto r = vfprintf(stdout, fmt, ap);
  va_end(ap);
  return r;
}
extern "C" int vprintf(const char* fmt, va_list ap) { return vfprintf(stdout, fmt, ap); }
extern "C" int fflush(FILE* f) {
  if (g_cur && (!f || f == stdout || f == stderr)) return 0;
  REAL(fflush); return real(f);
}
extern "C" void perror(const char* s) { fprintf(stderr, "%s\n", s); }

//---------------------------------------------------------------- sockets
static std::string sock_name(const sockaddr* addr, socklen_t len) {
  if (addr->sa_family != AF_UNIX)
    sim_error("only unix sockets are simulated");
  auto un = reinterpret_cast<const sockaddr_un*>(addr);
  auto n = len > offsetof(sockaddr_un, sun_path) ? len - offsetof(sockaddr_un, sun_path) : 0;
  if (n && un->sun_path[0] == 0) {
    // abstract: whole length counts; trailing zeros are shown trimmed
    std::string s(un->sun_path + 1, n - 1);
    while (!s.empty() && s.back() == 0)
      s.pop_back();
    return s + "#" + std::to_string(n);
  }
  return std::string("path:") + std::string(un->sun_path, strnlen(un->sun_path, n));
}

extern "C" int socket(int domain, int type, int protocol) noexcept {
  PASS(socket, domain, type, protocol);
  Kernel k;
  sys_enter(*k.p);
  if (domain != AF_UNIX || (type & 0xff) != SOCK_STREAM)
    sim_error("only unix stream sockets are simulated");
  auto f = std::make_shared<File>();
  f->kind = K_SOCK;
  f->sock = std::make_shared<Sock>();
  f->sock->id = W->next_sock++;
  f->sock->owner = k.self().index;
  f->sock->cap = W->sockcap;
  f->nonblock = (type & SOCK_NONBLOCK);
  auto fd = alloc_fd(k.self(), f, type & SOCK_CLOEXEC);
  return fd < 0 ? fail(EMFILE) : fd;
}

static Sock* get_sock(Proc& p, int fd, int* err, File** file = nullptr) {
  auto f = get_file(p, fd);
  if (!f) { *err = EBADF; return nullptr; }
  if (f->kind != K_SOCK) { *err = ENOTSOCK; return nullptr; }
  if (file) *file = f;
  return f->sock.get();
}

extern "C" int bind(int fd, const sockaddr* addr, socklen_t len) noexcept {
  PASS(bind, fd, addr, len);
  Kernel k;
  sys_enter(*k.p);
  auto err = 0;
  auto s = get_sock(k.self(), fd, &err);
  if (!s) return fail(err);
  auto name = sock_name(addr, len);
  if (W->listeners.count(name))
    return fail(EADDRINUSE);
  s->name = name;
  W->listeners[name] = get_file(k.self(), fd)->sock;
  s->listening = true;
  s->backlog = -1;
  record(R_LISTEN, k.p->index, s->id, 0, 0, 0, name);
  return 0;
}

extern "C" int listen(int fd, int backlog) noexcept {
  PASS(listen, fd, backlog);
  Kernel k;
  sys_enter(*k.p);
  auto err = 0;
  auto s = get_sock(k.self(), fd, &err);
  if (!s) return fail(err);
  s->backlog = std::max(backlog, 0);
  return 0;
}

static int do_accept(int fd, int flags) {
  Kernel k;
  auto& p = *k.p;
  sys_enter(p);
  for (;;) {
    auto err = 0;
    File* file = nullptr;
    auto s = get_sock(k.self(), fd, &err, &file);
    if (!s) return fail(err);
    if (!s->listening) return fail(EINVAL);
    if (!s->queue.empty()) {
      auto f = std::make_shared<File>();
      f->kind = K_SOCK;
      f->sock = s->queue.front();
      s->queue.pop_front();
      f->sock->owner = p.index;
      f->nonblock = (flags & SOCK_NONBLOCK);
      record(R_ACCEPT, p.index, f->sock->id, 0, 0, 0, s->name);
      auto nfd = alloc_fd(k.self(), f, flags & SOCK_CLOEXEC);
      return nfd < 0 ? fail(EMFILE) : nfd;
    }
    if (file->nonblock)
      return fail(EAGAIN);
    auto ptr = get_file(p, fd);
    block(p, [ptr] { return fd_readable(*ptr); }, -1);
  }
}
extern "C" int accept(int fd, sockaddr* addr, socklen_t* len) { PASS(accept, fd, addr, len); return do_accept(fd, 0); }
extern "C" int accept4(int fd, sockaddr* addr, socklen_t* len, int flags) { PASS(accept4, fd, addr, len, flags); return do_accept(fd, flags); }

extern "C" int connect(int fd, const sockaddr* addr, socklen_t len) {
  PASS(connect, fd, addr, len);
  Kernel k;
  auto& p = *k.p;
  sys_enter(p);
  auto err = 0;
  File* file = nullptr;
  auto s = get_sock(k.self(), fd, &err, &file);
  if (!s) return fail(err);
  if (s->connected) return fail(EISCONN);
  auto name = sock_name(addr, len);
  if (fault(p, F_EINTR) >= 0 && !file->nonblock)
    return fail(EINTR);
  for (;;) {
    auto it = W->listeners.find(name);
    if (it == W->listeners.end() || it->second->backlog < 0)
      return fail(ECONNREFUSED);
    auto& l = *it->second;
    if ((int)l.queue.size() <= l.backlog) {
      auto b = std::make_shared<Sock>();
      b->id = W->next_sock++;
      b->cap = W->sockcap;
      b->owner = l.owner;
      s->peer = b.get();
      b->peer = s;
      s->connected = b->connected = true;
      l.queue.push_back(b);
      s->stream = std::make_shared<std::string>();
      W->streams[name].push_back(s->stream);
      record(R_CONNECT, p.index, s->id, b->id, 0, 0, name);
      return 0;
    }
    if (file->nonblock)
      return fail(EAGAIN);
    block(p, [name] {
      auto it = W->listeners.find(name);
      return it == W->listeners.end() || (int)it->second->queue.size() <= it->second->backlog;
    }, -1);
  }
}

extern "C" int shutdown(int fd, int how) noexcept {
  PASS(shutdown, fd, how);
  Kernel k;
  sys_enter(*k.p);
  auto err = 0;
  auto s = get_sock(k.self(), fd, &err);
  if (!s) return fail(err);
  if (!s->connected) return fail(ENOTCONN);
  if (how != SHUT_RD) {
    s->shut_write = true;
    if (s->peer)
      s->peer->eof = true;
  }
  if (how != SHUT_WR) {
    s->eof = true;
    if (s->peer)
      s->peer->shut_write = true;
  }
  return 0;
}
extern "C" int getsockopt(int fd, int level, int name, void* val, socklen_t* len) noexcept {
  PASS(getsockopt, fd, level, name, val, len);
  if (val && len && *len >= sizeof(int)) { *(int*)val = 0; *len = sizeof(int); }
  return 0;
}
extern "C" int setsockopt(int fd, int level, int name, const void* val, socklen_t len) noexcept {
  PASS(setsockopt, fd, level, name, val, len);
  Kernel k;
  sys_enter(*k.p);
  auto err = 0;
  auto s = get_sock(k.self(), fd, &err);
  if (!s) return fail(err);
  if (level == SOL_SOCKET && (name == SO_RCVTIMEO || name == SO_SNDTIMEO) && len >= sizeof(timeval)) {
    auto& t = *(const timeval*)val;
    auto limit = (Time)t.tv_sec * SEC + (Time)t.tv_usec * US;
    (name == SO_RCVTIMEO ? s->recv_limit : s->send_limit) = (limit > 0 ? limit : -1);
  }
  return 0;
}

static ssize_t sock_send(Kernel& k, int fd, const char* data, size_t size, int flags) {
  auto& p = *k.p;
  size_t done = 0;
  const auto begin = W->now;
  for (;;) {
    auto err = 0;
    File* file = nullptr;
    auto s = get_sock(k.self(), fd, &err, &file);
    if (!s) return fail<ssize_t>(err);
    if (s->err) {
      auto e = s->err;
      s->err = 0;
      return done ? (ssize_t)done : fail<ssize_t>(e);
    }
    if (!s->connected) return fail<ssize_t>(ENOTCONN);
    if (!s->peer || s->shut_write) {
      if (done) return (ssize_t)done;
      if (!(flags & MSG_NOSIGNAL)) {
        post_signal(p, SIGPIPE);
        run_signals(p);
      }
      return fail<ssize_t>(EPIPE);
    }
    auto nonblock = file->nonblock || (flags & MSG_DONTWAIT);
    auto space = s->peer->rx.size() >= s->cap ? 0 : s->cap - s->peer->rx.size();
    if (nonblock && fault(p, F_SEND_AGAIN) >= 0)
      space = 0;
    if (space) {
      auto n = std::min(size - done, space);
      if (n > 1)
        if (auto v = fault(p, F_SHORT_SEND); v >= 0)
          n = std::min<size_t>(n, (size_t)v);
      s->peer->rx.append(data + done, n);
      if (s->stream)
        s->stream->append(data + done, n);
      s->sent += n;
      record(R_SEND, p.index, s->id, (int)n, (int)(hash_bytes(data + done, n) & 0x7fffffff));
      done += n;
      p.spins = 0;
      if (done == size || nonblock)
        return (ssize_t)done;
      continue;
    }
    if (nonblock) {
      p.spins++;
      return fail<ssize_t>(EAGAIN);
    }
    if (s->send_limit >= 0 && W->now >= begin + s->send_limit)
      return done ? (ssize_t)done : fail<ssize_t>(EAGAIN);
    auto ptr = file;
    if (block(p, [ptr] { return fd_writable(*ptr); }, s->send_limit >= 0 ? begin + s->send_limit : -1) == W_SIGNAL && done)
      return (ssize_t)done;
  }
}

static ssize_t sock_recv(Kernel& k, int fd, char* data, size_t size, int flags) {
  auto& p = *k.p;
  const auto begin = W->now;
  for (;;) {
    auto err = 0;
    File* file = nullptr;
    auto s = get_sock(k.self(), fd, &err, &file);
    if (!s) return fail<ssize_t>(err);
    if (!s->rx.empty() && size) {
      auto n = std::min(size, s->rx.size());
      if (n > 1 && !(flags & MSG_WAITALL))
        if (auto v = fault(p, F_SHORT_RECV); v >= 0)
          n = std::min<size_t>(n, (size_t)v);
      memcpy(data, s->rx.data(), n);
      record(R_RECV, p.index, s->id, (int)n, (int)(hash_bytes(data, n) & 0x7fffffff));
      if (!(flags & MSG_PEEK)) {
        s->rx.erase(0, n);
        s->received += n;
      }
      p.spins = 0;
      return (ssize_t)n;
    }
    if (s->err) {
      auto e = s->err;
      s->err = 0;
      return fail<ssize_t>(e);
    }
    if (!s->connected) return fail<ssize_t>(ENOTCONN);
    if (s->eof || !size)
      return 0;
    if (file->nonblock || (flags & MSG_DONTWAIT)) {
      p.spins++;
      return fail<ssize_t>(EAGAIN);
    }
    if (s->recv_limit >= 0 && W->now >= begin + s->recv_limit)
      return fail<ssize_t>(EAGAIN);
    auto ptr = file;
    block(p, [ptr] { return fd_readable(*ptr); }, s->recv_limit >= 0 ? begin + s->recv_limit : -1);
  }
}

extern "C" ssize_t send(int fd, const void* data, size_t size, int flags) {
  PASS(send, fd, data, size, flags);
  Kernel k;
  sys_enter(*k.p);
  if (fault(*k.p, F_EINTR) >= 0) return fail<ssize_t>(EINTR);
  return sock_send(k, fd, (const char*)data, size, flags);
}
extern "C" ssize_t recv(int fd, void* data, size_t size, int flags) {
  PASS(recv, fd, data, size, flags);
  Kernel k;
  sys_enter(*k.p);
  if (fault(*k.p, F_EINTR) >= 0) return fail<ssize_t>(EINTR);
  return sock_recv(k, fd, (char*)data, size, flags);
}
static size_t total_size(const iovec* iov, size_t n) {
  size_t size = 0;
  for (size_t i = 0; i < n; ++i) size += iov[i].iov_len;
  return size;
}
static ssize_t scatter(const std::string& s, ssize_t size, const iovec* iov, size_t n) {
  auto pos = size_t{ };
  for (size_t i = 0; i < n && (ssize_t)pos < size; ++i) {
    auto part = std::min((size_t)size - pos, iov[i].iov_len);
    memcpy(iov[i].iov_base, s.data() + pos, part);
    pos += part;
  }
  return size;
}
extern "C" ssize_t sendto(int fd, const void* data, size_t size, int flags, const sockaddr* a, socklen_t l) {
  PASS(sendto, fd, data, size, flags, a, l);
  return send(fd, data, size, flags);
}
extern "C" ssize_t recvfrom(int fd, void* data, size_t size, int flags, sockaddr* a, socklen_t* l) {
  PASS(recvfrom, fd, data, size, flags, a, l);
  return recv(fd, data, size, flags);
}
extern "C" ssize_t sendmsg(int fd, const msghdr* m, int flags) {
  PASS(sendmsg, fd, m, flags);
  std::string s;
  for (size_t i = 0; i < m->msg_iovlen; ++i)
    s.append((const char*)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
  return send(fd, s.data(), s.size(), flags);
}
extern "C" ssize_t recvmsg(int fd, msghdr* m, int flags) {
  PASS(recvmsg, fd, m, flags);
  if (m->msg_iovlen == 1) return recv(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, flags);
  std::string s(total_size(m->msg_iov, m->msg_iovlen), 0);
  return scatter(s, recv(fd, s.data(), s.size(), flags), m->msg_iov, m->msg_iovlen);
}

//---------------------------------------------------------------- descriptors
static ssize_t dev_read(Kernel& k, File* f, char* data, size_t size) {
  auto& p = *k.p;
  if (f->kind == K_EVDEV) {
    for (;;) {
      if (f->dev->dead) return fail<ssize_t>(ENODEV);
      if (size < sizeof(input_event)) return fail<ssize_t>(EINVAL);
      if (!f->q.empty()) {
        if (fault(p, F_EVREAD_FAIL) >= 0) return fail<ssize_t>(EIO);
        size_t n = 0;
        while (!f->q.empty() && n + sizeof(input_event) <= size) {
          auto& e = f->q.front();
          input_event ev;
          memset(&ev, 0, sizeof(ev));
          auto t = e.t + W->wall_offset;
          ev.input_event_sec = t / SEC;
          ev.input_event_usec = t % SEC / US;
          ev.type = e.type; ev.code = e.code; ev.value = e.value;
          memcpy(data + n, &ev, sizeof(ev));
          record(R_DREAD, p.index, f->dev->id, e.type, e.code, e.value);
          n += sizeof(ev);
          f->q.pop_front();
        }
        return (ssize_t)n;
      }
      if (f->nonblock) return fail<ssize_t>(EAGAIN);
      block(p, [f] { return fd_readable(*f); }, -1);
    }
  }
  if (f->kind == K_INOTIFY) {
    for (;;) {
      if (!f->ino.empty()) {
        size_t n = 0;
        while (!f->ino.empty() && n + f->ino.front().size() <= size) {
          memcpy(data + n, f->ino.front().data(), f->ino.front().size());
          n += f->ino.front().size();
          f->ino.pop_front();
        }
        return n ? (ssize_t)n : fail<ssize_t>(EINVAL);
      }
      if (f->nonblock) return fail<ssize_t>(EAGAIN);
      block(p, [f] { return fd_readable(*f); }, -1);
    }
  }
  if (f->kind == K_NULL || f->kind == K_OUT) return 0;
  return fail<ssize_t>(EINVAL);
}

extern "C" ssize_t read(int fd, void* data, size_t size) {
  if (!g_cur || fd >= REAL_FD) { REAL(read); return real(fd, data, size); }
  Kernel k;
  sys_enter(*k.p);
  auto f = get_file(k.self(), fd);
  if (!f) return fail<ssize_t>(EBADF);
  if (fault(*k.p, F_EINTR) >= 0) return fail<ssize_t>(EINTR);
  if (f->kind == K_SOCK) return sock_recv(k, fd, (char*)data, size, 0);
  auto hold = k.self().fds[fd].file;
  return dev_read(k, f, (char*)data, size);
}

extern "C" ssize_t write(int fd, const void* data, size_t size) {
  if (!g_cur || fd >= REAL_FD) { REAL(write); return real(fd, data, size); }
  Kernel k;
  auto& p = *k.p;
  sys_enter(p);
  auto f = get_file(k.self(), fd);
  if (!f) return fail<ssize_t>(EBADF);
  if (fault(p, F_EINTR) >= 0) return fail<ssize_t>(EINTR);
  switch (f->kind) {
    case K_SOCK: return sock_send(k, fd, (const char*)data, size, 0);
    case K_OUT: put(p, (const char*)data, size); return (ssize_t)size;
    case K_NULL: return (ssize_t)size;
    case K_UINPUT: {
      if (!f->dev || !f->dev->present) return fail<ssize_t>(EINVAL);
      if (fault(p, F_UINPUT_FAIL) >= 0) return fail<ssize_t>(EIO);
      size_t n = 0;
      while (n + sizeof(input_event) <= size) {
        input_event ev;
        memcpy(&ev, (const char*)data + n, sizeof(ev));
        n += sizeof(ev);
        record(R_OUT, p.index, f->dev->id, ev.type, ev.code, ev.value);
        dev_event(*f->dev, ev.type, ev.code, ev.value);
      }
      return n ? (ssize_t)n : fail<ssize_t>(EINVAL);
    }
    default: return fail<ssize_t>(EBADF);
  }
}

extern "C" ssize_t readv(int fd, const iovec* iov, int n) {
  if (!g_cur || fd >= REAL_FD) { REAL(readv); return real(fd, iov, n); }
  if (n == 1) return read(fd, iov[0].iov_base, iov[0].iov_len);
  std::string s(total_size(iov, (size_t)n), 0);
  return scatter(s, read(fd, s.data(), s.size()), iov, (size_t)n);
}
extern "C" ssize_t writev(int fd, const iovec* iov, int n) {
  if (!g_cur || fd >= REAL_FD) { REAL(writev); return real(fd, iov, n); }
  std::string s;
  for (auto i = 0; i < n; ++i)
    s.append((const char*)iov[i].iov_base, iov[i].iov_len);
  return write(fd, s.data(), s.size());
}

extern "C" int close(int fd) {
  if (!g_cur || fd >= REAL_FD) { REAL(close); return real(fd); }
  Kernel k;
  sys_enter(*k.p);
  auto& fds = k.self().fds;
  auto it = fds.find(fd);
  if (it == fds.end()) return fail(EBADF);
  auto file = it->second.file;
  fds.erase(it);
  file.reset();
  return 0;
}

extern "C" int dup(int fd) noexcept {
  if (!g_cur || fd >= REAL_FD) { REAL(dup); return real(fd); }
  Kernel k;
  sys_enter(*k.p);
  auto& p = k.self();
  if (!get_file(p, fd)) return fail(EBADF);
  auto f = p.fds[fd].file;
  auto r = alloc_fd(p, f, false, 0);
  return r < 0 ? fail(EMFILE) : r;
}
static int do_dup2(int fd, int to, int flags) {
  Kernel k;
  sys_enter(*k.p);
  auto& p = k.self();
  if (!get_file(p, fd)) return fail(EBADF);
  auto f = p.fds[fd].file;
  if (fd != to)
    p.fds[to] = { f, (flags & O_CLOEXEC) != 0 };
  return to;
}
extern "C" int dup2(int fd, int to) noexcept {
  if (!g_cur) { REAL(dup2); return real(fd, to); }
  return do_dup2(fd, to, 0);
}
extern "C" int dup3(int fd, int to, int flags) noexcept {
  if (!g_cur) { REAL(dup3); return real(fd, to, flags); }
  return do_dup2(fd, to, flags);
}

static int do_fcntl(int fd, int cmd, long arg) {
  Kernel k;
  auto& p = k.self();
  sys_enter(*k.p);
  auto f = get_file(p, fd);
  if (!f) return fail(EBADF);
  switch (cmd) {
    case F_GETFL: return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
    case F_SETFL: f->nonblock = (arg & O_NONBLOCK); return 0;
    case F_GETFD: return p.fds[fd].cloexec ? FD_CLOEXEC : 0;
    case F_SETFD: p.fds[fd].cloexec = (arg & FD_CLOEXEC); return 0;
    case F_DUPFD:
    case F_DUPFD_CLOEXEC: return alloc_fd(p, p.fds[fd].file, cmd == F_DUPFD_CLOEXEC, (int)arg);
  }
  sim_error("fcntl " + std::to_string(cmd));
}
extern "C" int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd);
  auto arg = va_arg(ap, long);
  va_end(ap);
  if (!g_cur || fd >= REAL_FD) { REAL(fcntl); return real(fd, cmd, arg); }
  return do_fcntl(fd, cmd, arg);
}
extern "C" int fcntl64(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd);
  auto arg = va_arg(ap, long);
  va_end(ap);
  if (!g_cur || fd >= REAL_FD) { REAL(fcntl64); return real(fd, cmd, arg); }
  return do_fcntl(fd, cmd, arg);
}

static void copy_out(void* to, size_t len, const void* from, size_t n) {
  memset(to, 0, len);
  memcpy(to, from, std::min(len, n));
}

static int evdev_ioctl(Kernel& k, File& f, unsigned long req, void* arg) {
  auto& d = *f.dev;
  auto nr = _IOC_NR(req);
  auto len = (size_t)_IOC_SIZE(req);
  auto& p = *k.p;
  if (d.dead) return fail(ENODEV);
  auto copy_keys = [&](const std::bitset<KEYS>& bits) {
    unsigned char b[KEYS / 8] = { };
    for (auto i = 0; i < KEYS; ++i)
      if (bits.test((size_t)i)) b[i / 8] |= (unsigned char)(1 << (i % 8));
    copy_out(arg, len, b, sizeof(b));
    return (int)std::min(len, sizeof(b));
  };
  if (req == EVIOCGVERSION) { *(int*)arg = EV_VERSION; return 0; }
  if (req == EVIOCGID) {
    input_id id{ (uint16_t)d.bus, (uint16_t)d.vendor, (uint16_t)d.product, (uint16_t)d.version };
    memcpy(arg, &id, sizeof(id));
    return 0;
  }
  if (req == EVIOCGRAB) {
    if ((intptr_t)arg) {
      if (fault(p, F_GRAB_BUSY) >= 0) return fail(EBUSY);
      if (d.grab) return fail(EBUSY);
      d.grab = &f;
      record(R_GRAB, p.index, d.id, d.node, (int)d.down.count());
    }
    else {
      if (d.grab != &f) return fail(EINVAL);
      d.grab = nullptr;
      record(R_UNGRAB, p.index, d.id, 0, (int)d.down.count());
    }
    return 0;
  }
  if (nr == _IOC_NR(EVIOCGNAME(0)) && _IOC_DIR(req) == _IOC_READ) {
    if (!len) return 0;
    auto n = std::min(len, d.name.size() + 1);
    memcpy(arg, d.name.c_str(), n);
    if (n) ((char*)arg)[n - 1] = 0;
    return (int)n;
  }
  if (nr == _IOC_NR(EVIOCGPHYS(0)) || nr == _IOC_NR(EVIOCGUNIQ(0))) {
    if (len) *(char*)arg = 0;
    return 1;
  }
  if (nr == _IOC_NR(EVIOCGPROP(0))) { copy_out(arg, len, &d.props, 8); return 8; }
  if (nr == _IOC_NR(EVIOCGKEY(0))) {
    // pending key events are dropped, since the state is known now
    std::deque<InEv> q;
    for (auto& e : f.q)
      if (e.type != EV_KEY) q.push_back(e);
    auto only_syn = std::all_of(q.begin(), q.end(), [](const InEv& e) { return e.type == EV_SYN || e.type == EV_MSC; });
    if (only_syn) q.clear();
    f.q = std::move(q);
    record(R_KEYQ, p.index, d.id, (int)d.down.count());
    return copy_keys(d.down);
  }
  if (nr == _IOC_NR(EVIOCGLED(0)) || nr == _IOC_NR(EVIOCGSW(0)) || nr == _IOC_NR(EVIOCGSND(0))) {
    uint64_t zero = 0;
    copy_out(arg, len, &zero, 8);
    return 8;
  }
  if (nr >= 0x20 && nr < 0x20 + 0x20 && _IOC_DIR(req) == _IOC_READ) {
    uint64_t v = 0;
    switch (nr - 0x20) {
      case 0: v = d.ev; break;
      case EV_KEY: return copy_keys(d.keys);
      case EV_REL: v = d.rel; break;
      case EV_ABS: v = d.absb; break;
      case EV_MSC: v = d.msc; break;
      case EV_SW: v = d.sw; break;
      case EV_LED: v = d.led; break;
      case EV_REP: v = d.rep; break;
    }
    copy_out(arg, len, &v, 8);
    return 8;
  }
  if (nr >= 0x40 && nr < 0x80 && _IOC_DIR(req) == _IOC_READ) {
    auto it = d.absinfo.find((int)(nr - 0x40));
    if (it == d.absinfo.end()) return fail(EINVAL);
    auto& i = it->second;
    input_absinfo info{ i.value, i.min, i.max, i.fuzz, i.flat, i.res };
    copy_out(arg, len, &info, sizeof(info));
    return 0;
  }
  if (req == EVIOCGREP) { ((int*)arg)[0] = 250; ((int*)arg)[1] = 33; return 0; }
  return fail(EINVAL);
}

static int uinput_ioctl(Kernel& k, File& f, unsigned long req, unsigned long arg) {
  auto& p = *k.p;
  if (req == UI_DEV_DESTROY) {
    if (f.dev) unplug(*f.dev);
    f.dev = nullptr;
    return 0;
  }
  if (f.dev) return fail(EINVAL);
  if (!f.setup) {
    f.setup = std::make_unique<Dev>();
    f.setup->virt = true;
  }
  auto& d = *f.setup;
  auto set = [](uint64_t& v, unsigned long b) { if (b >= 64) return fail(EINVAL); v |= 1ull << b; return 0; };
  switch (req) {
    case UI_SET_EVBIT: return set(d.ev, arg);
    case UI_SET_KEYBIT: if (arg >= KEYS) return fail(EINVAL); d.keys.set(arg); return 0;
    case UI_SET_RELBIT: return set(d.rel, arg);
    case UI_SET_ABSBIT: return set(d.absb, arg);
    case UI_SET_MSCBIT: return set(d.msc, arg);
    case UI_SET_SWBIT: return set(d.sw, arg);
    case UI_SET_LEDBIT: return set(d.led, arg);
    case UI_SET_PROPBIT: return set(d.props, arg);
    case UI_ABS_SETUP: {
      auto s = reinterpret_cast<const uinput_abs_setup*>(arg);
      if (s->code >= 64) return fail(ERANGE);
      auto& i = d.absinfo[s->code];
      i = { s->absinfo.value, s->absinfo.minimum, s->absinfo.maximum, s->absinfo.fuzz, s->absinfo.flat, s->absinfo.resolution };
      d.absb |= 1ull << s->code;
      return 0;
    }
    case UI_DEV_SETUP: {
      auto s = reinterpret_cast<const uinput_setup*>(arg);
      d.name = std::string(s->name, strnlen(s->name, sizeof(s->name)));
      d.bus = s->id.bustype; d.vendor = s->id.vendor; d.product = s->id.product; d.version = s->id.version;
      if (d.name.empty()) return fail(EINVAL);
      return 0;
    }
    case UI_DEV_CREATE: {
      if (d.name.empty()) return fail(EINVAL);
      if (fault(p, F_UINPUT_FAIL) >= 0) return fail(EIO);
      d.owner = p.index;
      // only supported event types count
      if (!(d.ev >> EV_KEY & 1)) d.keys.reset();
      if (!(d.ev >> EV_REL & 1)) d.rel = 0;
      if (!(d.ev >> EV_ABS & 1)) d.absb = 0;
      if (!(d.ev >> EV_MSC & 1)) d.msc = 0;
      if (!(d.ev >> EV_SW & 1)) d.sw = 0;
      f.dev = &add_device(std::move(f.setup));
      f.dev->key = "v" + std::to_string(f.dev->id);
      plug(*f.dev);
      return 0;
    }
  }
  sim_error("uinput ioctl " + std::to_string(req));
}

extern "C" int ioctl(int fd, unsigned long req, ...) noexcept {
  va_list ap; va_start(ap, req);
  auto arg = va_arg(ap, void*);
  va_end(ap);
  if (!g_cur || fd >= REAL_FD) { REAL(ioctl); return real(fd, req, arg); }
  Kernel k;
  auto self = &k.self();
  if (auto f = get_file(*self, fd); f && f->kind == K_UINPUT && req != UI_DEV_CREATE && req != UI_DEV_DESTROY)
    return uinput_ioctl(k, *f, req, (unsigned long)arg);   // no scheduling for hundreds of setup calls
  sys_enter(*k.p);
  auto f = get_file(*self, fd);
  if (!f) return fail(EBADF);
  if (f->kind == K_EVDEV) return evdev_ioctl(k, *f, req, arg);
  if (f->kind == K_UINPUT) return uinput_ioctl(k, *f, req, (unsigned long)arg);
  if (f->kind == K_SOCK && req == FIONBIO) { f->nonblock = *(int*)arg; return 0; }
  return fail(ENOTTY);
}

//---------------------------------------------------------------- waiting
static int do_select(int nfds, fd_set* rs, fd_set* ws, fd_set* es, Time timeout) {
  Kernel k;
  auto& p = *k.p;
  sys_enter(p);
  auto deadline = timeout < 0 ? -1 : W->now + timeout;
  fd_set r, w;
  FD_ZERO(&r); FD_ZERO(&w);
  if (rs) r = *rs;
  if (ws) w = *ws;
  std::vector<std::pair<std::shared_ptr<File>, int>> watch;
  for (auto fd = 0; fd < nfds && fd < FD_SETSIZE; ++fd) {
    auto in = rs && FD_ISSET(fd, &r), out = ws && FD_ISSET(fd, &w);
    if (!in && !out) continue;
    if (!get_file(p, fd)) return fail(EBADF);
    watch.push_back({ p.fds[fd].file, (in ? 1 : 0) | (out ? 2 : 0) });
  }
  if (fault(p, F_EINTR) >= 0) return fail(EINTR);
  auto any = [&watch] {
    for (auto& [f, m] : watch)
      if (((m & 1) && fd_readable(*f)) || ((m & 2) && fd_writable(*f)))
        return true;
    return false;
  };
  for (;;) {
    if (any()) break;
    if (deadline >= 0 && W->now >= deadline) break;
    p.spins = 0;
    auto reason = block(p, any, deadline);
    if (reason == W_SIGNAL && !any()) return fail(EINTR);
  }
  auto n = 0;
  if (rs) FD_ZERO(rs);
  if (ws) FD_ZERO(ws);
  if (es) FD_ZERO(es);
  for (auto fd = 0; fd < nfds && fd < FD_SETSIZE; ++fd) {
    auto f = get_file(p, fd);
    if (!f) continue;
    if (rs && FD_ISSET(fd, &r) && fd_readable(*f)) { FD_SET(fd, rs); ++n; }
    if (ws && FD_ISSET(fd, &w) && fd_writable(*f)) { FD_SET(fd, ws); ++n; }
  }
  return n;
}
extern "C" int select(int nfds, fd_set* r, fd_set* w, fd_set* e, timeval* tv) {
  PASS(select, nfds, r, w, e, tv);
  if (tv && (tv->tv_sec < 0 || tv->tv_usec < 0 || tv->tv_usec >= 1000000)) return fail(EINVAL);
  return do_select(nfds, r, w, e, tv ? (Time)tv->tv_sec * SEC + (Time)tv->tv_usec * US : -1);
}
extern "C" int pselect(int nfds, fd_set* r, fd_set* w, fd_set* e, const timespec* ts, const sigset_t* sm) {
  PASS(pselect, nfds, r, w, e, ts, sm);
  return do_select(nfds, r, w, e, ts ? to_time(*ts) : -1);
}
static int do_poll(pollfd* fds, nfds_t n, Time timeout) {
  Kernel k;
  auto& p = *k.p;
  sys_enter(p);
  auto deadline = timeout < 0 ? -1 : W->now + timeout;
  if (fault(p, F_EINTR) >= 0) return fail(EINTR);
  auto eval = [&p, fds, n] {
    auto c = 0;
    for (nfds_t i = 0; i < n; ++i) {
      fds[i].revents = 0;
      if (fds[i].fd < 0) continue;
      auto f = get_file(p, fds[i].fd);
      if (!f) fds[i].revents = POLLNVAL;
      else {
        if ((fds[i].events & POLLIN) && fd_readable(*f)) fds[i].revents |= POLLIN;
        if ((fds[i].events & POLLOUT) && fd_writable(*f)) fds[i].revents |= POLLOUT;
        if (f->kind == K_SOCK && !f->sock->listening && (f->sock->eof || f->sock->err)) fds[i].revents |= POLLHUP;
        if (f->kind == K_EVDEV && f->dev->dead) fds[i].revents |= POLLHUP | POLLERR;
      }
      if (fds[i].revents) ++c;
    }
    return c;
  };
  for (;;) {
    if (auto c = eval()) return c;
    if (deadline >= 0 && W->now >= deadline) return 0;
    p.spins = 0;
    if (block(p, [&] { return eval() > 0; }, deadline) == W_SIGNAL && !eval()) return fail(EINTR);
  }
}
extern "C" int poll(pollfd* fds, nfds_t n, int timeout) {
  PASS(poll, fds, n, timeout);
  return do_poll(fds, n, timeout < 0 ? -1 : (Time)timeout * MS);
}
extern "C" int ppoll(pollfd* fds, nfds_t n, const timespec* ts, const sigset_t* sm) {
  PASS(ppoll, fds, n, ts, sm);
  return do_poll(fds, n, ts ? to_time(*ts) : -1);
}
extern "C" int epoll_create(int) noexcept { if (g_cur) sim_error("epoll is not simulated"); return fail(ENOSYS); }
extern "C" int epoll_create1(int) noexcept { if (g_cur) sim_error("epoll is not simulated"); return fail(ENOSYS); }

static int do_inotify_init(int flags) {
  Kernel k;
  sys_enter(*k.p);
  auto f = std::make_shared<File>();
  f->kind = K_INOTIFY;
  f->nonblock = (flags & IN_NONBLOCK);
  W->inotifies.insert(f.get());
  return alloc_fd(k.self(), f, flags & IN_CLOEXEC);
}
extern "C" int inotify_init() noexcept { PASS(inotify_init); return do_inotify_init(0); }
extern "C" int inotify_init1(int flags) noexcept { PASS(inotify_init1, flags); return do_inotify_init(flags); }
extern "C" int inotify_add_watch(int fd, const char* path, uint32_t mask) noexcept {
  PASS(inotify_add_watch, fd, path, mask);
  Kernel k;
  sys_enter(*k.p);
  auto f = get_file(k.self(), fd);
  if (!f || f->kind != K_INOTIFY) return fail(EBADF);
  std::string dir = path;
  while (dir.size() > 1 && dir.back() == '/') dir.pop_back();
  f->watches[dir] |= mask;
  return 1;
}

//---------------------------------------------------------------- paths
static Dev* dev_by_node(const char* path) {
  auto node = -1;
  auto n = 0;
  if (sscanf(path, "/dev/input/event%d%n", &node, &n) == 1 && !path[n])
    for (auto& d : W->devs)
      if (d->present && d->node == node)
        return d.get();
  return nullptr;
}

static std::string normalize(const char* path) {
  std::string s = path;
  if (!s.empty() && s[0] != '/')
    s = "/home/user/" + s;
  for (size_t i; (i = s.find("//")) != std::string::npos; ) s.erase(i, 1);
  for (size_t i; (i = s.find("/./")) != std::string::npos; ) s.erase(i, 2);
  for (;;) {
    auto i = s.find("/../");
    if (i == std::string::npos || i == 0) break;
    auto j = s.rfind('/', i - 1);
    s.erase(j, i + 3 - j);
  }
  if (s.size() > 1 && s.back() == '/') s.pop_back();
  return s;
}

static bool is_dir(const std::string& path) {
  if (path == "/" || path == "/dev" || path == "/dev/input" || path == "/dev/input/by-id" || path == "/home/user" ||
      path == "/home/user/.config" || path == "/home")
    return true;
  for (auto& [name, f] : W->files)
    if (name.size() > path.size() && name.compare(0, path.size(), path) == 0 && name[path.size()] == '/')
      return true;
  return false;
}

static int do_open(const char* cpath, int flags) {
  Kernel k;
  auto& p = *k.p;
  sys_enter(p);
  auto path = normalize(cpath);
  auto f = std::make_shared<File>();
  f->path = path;
  f->nonblock = (flags & O_NONBLOCK);
  auto dev = path.compare(0, 5, "/dev/") == 0 && path != "/dev/null" && !is_dir(path);
  if (dev) {
    if (auto v = fault(p, F_OPEN_FAIL); v >= 0) return fail(v % 2 ? EINTR : EACCES);
  }
  if (path == "/dev/null") f->kind = K_NULL;
  else if (path == "/dev/uinput") f->kind = K_UINPUT;
  else if (auto d = dev_by_node(path.c_str())) {
    f->kind = K_EVDEV;
    f->dev = d;
    d->clients.push_back(f.get());
  }
  else if (is_dir(path)) f->kind = K_DIR;
  else return fail(ENOENT);
  auto fd = alloc_fd(k.self(), f, flags & O_CLOEXEC);
  return fd < 0 ? fail(EMFILE) : fd;
}
extern "C" int open(const char* path, int flags, ...) {
  va_list ap; va_start(ap, flags);
  auto mode = va_arg(ap, int);
  va_end(ap);
  PASS(open, path, flags, mode);
  return do_open(path, flags);
}
extern "C" int open64(const char* path, int flags, ...) {
  va_list ap; va_start(ap, flags);
  auto mode = va_arg(ap, int);
  va_end(ap);
  PASS(open64, path, flags, mode);
  return do_open(path, flags);
}
extern "C" int openat(int dirfd, const char* path, int flags, ...) {
  va_list ap; va_start(ap, flags);
  auto mode = va_arg(ap, int);
  va_end(ap);
  PASS(openat, dirfd, path, flags, mode);
  if (path[0] != '/' && dirfd != AT_FDCWD) sim_error("openat relative to a directory");
  return do_open(path, flags);
}
extern "C" int openat64(int dirfd, const char* path, int flags, ...) {
  va_list ap; va_start(ap, flags);
  auto mode = va_arg(ap, int);
  va_end(ap);
  PASS(openat64, dirfd, path, flags, mode);
  return do_open(path, flags);
}
extern "C" int access(const char* path, int mode) noexcept {
  if (!g_cur) { REAL(access); return real(path, mode); }
  Kernel k;
  auto s = normalize(path);
  return W->files.count(s) || is_dir(s) || dev_by_node(s.c_str()) || s == "/dev/uinput" ? 0 : fail(ENOENT);
}

static FILE* do_fopen(const char* cpath, const char* mode) {
  Kernel k;
  auto& p = *k.p;
  sys_enter(p);
  auto path = normalize(cpath);
  auto it = W->files.find(path);
  if (strchr(mode, 'w') || strchr(mode, 'a') || strchr(mode, '+'))
    sim_error("writing files is not simulated: " + path);
  if (it == W->files.end() || !it->second.readable) { errno = it == W->files.end() ? ENOENT : EACCES; return nullptr; }
  if (fault(p, F_OPEN_FAIL) >= 0) { errno = EACCES; return nullptr; }
  auto mfd = memfd_create("sim", 0);
  auto fd = (fcntl)(mfd, F_DUPFD, (long)REAL_FD);
  (close)(mfd);
  auto& content = it->second.content;
  static auto rwrite = reinterpret_cast<ssize_t(*)(int, const void*, size_t)>(dlsym(RTLD_NEXT, "write"));
  size_t n = 0;
  while (n < content.size()) {
    auto r = rwrite(fd, content.data() + n, content.size() - n);
    if (r <= 0) break;
    n += (size_t)r;
  }
  lseek(fd, 0, SEEK_SET);
  return fdopen(fd, "r");
}
extern "C" FILE* fopen(const char* path, const char* mode) { PASS(fopen, path, mode); return do_fopen(path, mode); }
extern "C" FILE* fopen64(const char* path, const char* mode) { PASS(fopen64, path, mode); return do_fopen(path, mode); }

static int fill_stat(const std::string& path, struct stat* st, bool follow) {
  memset(st, 0, sizeof(*st));
  st->st_dev = 1;
  auto it = W->files.find(path);
  if (it != W->files.end()) {
    st->st_mode = S_IFREG | 0644;
    st->st_size = (off_t)it->second.content.size();
    st->st_mtim.tv_sec = it->second.mtime / SEC;
    st->st_mtim.tv_nsec = it->second.mtime % SEC;
    st->st_ctim = st->st_atim = st->st_mtim;
    st->st_nlink = 1;
    st->st_ino = hash_bytes(path.data(), path.size()) >> 8;
    return 0;
  }
  if (is_dir(path)) { st->st_mode = S_IFDIR | 0755; return 0; }
  if (dev_by_node(path.c_str()) || path == "/dev/uinput" || path == "/dev/null") { st->st_mode = S_IFCHR | 0660; return 0; }
  if (path.compare(0, 17, "/dev/input/by-id/") == 0)
    for (auto& d : W->devs)
      if (d->present && d->linked && path.substr(17) == d->byid) {
        st->st_mode = follow ? S_IFCHR | 0660 : S_IFLNK | 0777;
        return 0;
      }
  return fail(ENOENT);
}
#define STAT_FN(name, type, follow) \
  extern "C" int name(const char* path, type* st) noexcept { \
    if (!g_cur) { REAL(name); return real(path, st); } \
    Kernel k; \
    sys_enter(*k.p); \
    return fill_stat(normalize(path), reinterpret_cast<struct stat*>(st), follow); \
  }
STAT_FN(stat, struct stat, true)
STAT_FN(stat64, struct stat64, true)
STAT_FN(lstat, struct stat, false)
STAT_FN(lstat64, struct stat64, false)
static int do_fstatat(int dirfd, const char* path, struct stat* st, int flags) {
  Kernel k;
  sys_enter(*k.p);
  if (path[0] != '/' && dirfd != AT_FDCWD) {
    auto f = get_file(k.self(), dirfd);
    if (!f) return fail(EBADF);
    return fill_stat(normalize((f->path + "/" + path).c_str()), st, !(flags & AT_SYMLINK_NOFOLLOW));
  }
  return fill_stat(normalize(path), st, !(flags & AT_SYMLINK_NOFOLLOW));
}
extern "C" int fstatat(int dirfd, const char* path, struct stat* st, int flags) noexcept {
  if (!g_cur) { REAL(fstatat); return real(dirfd, path, st, flags); }
  return do_fstatat(dirfd, path, st, flags);
}
extern "C" int fstatat64(int dirfd, const char* path, struct stat64* st, int flags) noexcept {
  if (!g_cur) { REAL(fstatat64); return real(dirfd, path, st, flags); }
  return do_fstatat(dirfd, path, reinterpret_cast<struct stat*>(st), flags);
}
extern "C" int fstat(int fd, struct stat* st) noexcept {
  if (!g_cur || fd >= REAL_FD) { REAL(fstat); return real(fd, st); }
  auto f = get_file(*g_cur, fd);
  if (!f) return fail(EBADF);
  memset(st, 0, sizeof(*st));
  st->st_mode = f->kind == K_DIR ? S_IFDIR : f->kind == K_SOCK ? S_IFSOCK : S_IFCHR;
  return 0;
}
extern "C" int fstat64(int fd, struct stat64* st) noexcept {
  if (!g_cur || fd >= REAL_FD) { REAL(fstat64); return real(fd, st); }
  return fstat(fd, reinterpret_cast<struct stat*>(st));
}

static std::string link_target(const std::string& path) {
  if (path.compare(0, 17, "/dev/input/by-id/") == 0)
    for (auto& d : W->devs)
      if (d->present && d->linked && path.substr(17) == d->byid)
        return "../event" + std::to_string(d->node);
  auto pid = 0;
  if (sscanf(path.c_str(), "/proc/%d/exe", &pid) == 1)
    for (auto& w : W->windows)
      if (w.pid == pid && pid)
        return w.path;
  return {};
}
extern "C" ssize_t readlink(const char* path, char* buf, size_t size) noexcept {
  if (!g_cur) { REAL(readlink); return real(path, buf, size); }
  Kernel k;
  sys_enter(*k.p);
  auto t = link_target(normalize(path));
  if (t.empty()) return fail<ssize_t>(ENOENT);
  auto n = std::min(size, t.size());
  memcpy(buf, t.data(), n);
  return (ssize_t)n;
}
extern "C" ssize_t readlinkat(int dirfd, const char* path, char* buf, size_t size) noexcept {
  if (!g_cur) { REAL(readlinkat); return real(dirfd, path, buf, size); }
  return readlink(path, buf, size);
}
extern "C" char* realpath(const char* path, char* resolved) noexcept {
  if (!g_cur) { REAL(realpath); return real(path, resolved); }
  Kernel k;
  sys_enter(*k.p);
  auto s = normalize(path);
  auto t = link_target(s);
  if (!t.empty()) s = t[0] == '/' ? t : normalize(("/dev/input/by-id/" + t).c_str());
  struct stat st;
  if (t.empty() && fill_stat(s, &st, true) != 0) { errno = ENOENT; return nullptr; }
  if (resolved) return strcpy(resolved, s.c_str());
  return strdup(s.c_str());
}
extern "C" char* canonicalize_file_name(const char* path) noexcept {
  if (!g_cur) { REAL(canonicalize_file_name); return real(path); }
  return realpath(path, nullptr);
}

//---------------------------------------------------------------- directories
struct SimDir { std::vector<std::pair<std::string, unsigned char>> entries; size_t pos = 0; int fd = -1; dirent64 ent; };
static std::set<void*> g_dirs;

static DIR* make_dir(Proc& p, const std::string& path, int fd) {
  auto d = new SimDir();
  d->fd = fd;
  std::vector<std::pair<std::string, unsigned char>> v;
  if (path == "/dev/input") {
    for (auto& dev : W->devs)
      if (dev->present)
        v.push_back({ "event" + std::to_string(dev->node), DT_CHR });
    v.push_back({ "mice", DT_CHR });
    v.push_back({ "by-id", DT_DIR });
  }
  else if (path == "/dev/input/by-id") {
    for (auto& dev : W->devs)
      if (dev->present && dev->linked)
        v.push_back({ dev->byid, DT_LNK });
  }
  else {
    std::set<std::string> seen;
    for (auto& [name, f] : W->files)
      if (name.size() > path.size() + 1 && name.compare(0, path.size() + 1, path + "/") == 0) {
        auto rest = name.substr(path.size() + 1);
        auto slash = rest.find('/');
        auto n = rest.substr(0, slash);
        if (seen.insert(n).second)
          v.push_back({ n, slash == std::string::npos ? DT_REG : DT_DIR });
      }
  }
  // the order of directory entries is not defined
  std::sort(v.begin(), v.end(), [&](auto& a, auto& b) {
    auto ha = hash_bytes(a.first.data(), a.first.size(), W->seed), hb = hash_bytes(b.first.data(), b.first.size(), W->seed);
    return ha != hb ? ha < hb : a.first < b.first;
  });
  d->entries = std::move(v);
  d->entries.insert(d->entries.begin(), { { ".", DT_DIR }, { "..", DT_DIR } });
  g_dirs.insert(d);
  return reinterpret_cast<DIR*>(d);
}
extern "C" DIR* opendir(const char* path) {
  if (!g_cur) { REAL(opendir); return real(path); }
  Kernel k;
  sys_enter(*k.p);
  auto s = normalize(path);
  if (!is_dir(s)) { errno = ENOENT; return nullptr; }
  return make_dir(*k.p, s, -1);
}
extern "C" DIR* fdopendir(int fd) {
  if (!g_cur) { REAL(fdopendir); return real(fd); }
  Kernel k;
  auto f = get_file(k.self(), fd);
  if (!f || f->kind != K_DIR) { errno = ENOTDIR; return nullptr; }
  return make_dir(*k.p, f->path, fd);
}
static dirent64* next_entry(DIR* dir) {
  Kernel k;
  auto d = reinterpret_cast<SimDir*>(dir);
  if (d->pos >= d->entries.size()) return nullptr;
  auto& e = d->entries[d->pos++];
  memset(&d->ent, 0, sizeof(d->ent));
  d->ent.d_ino = d->pos;
  d->ent.d_type = e.second;
  d->ent.d_reclen = sizeof(d->ent);
  strncpy(d->ent.d_name, e.first.c_str(), sizeof(d->ent.d_name) - 1);
  return &d->ent;
}
extern "C" dirent* readdir(DIR* dir) {
  if (!g_cur || !g_dirs.count(dir)) { REAL(readdir); return real(dir); }
  return reinterpret_cast<dirent*>(next_entry(dir));
}
extern "C" dirent64* readdir64(DIR* dir) {
  if (!g_cur || !g_dirs.count(dir)) { REAL(readdir64); return real(dir); }
  return next_entry(dir);
}
extern "C" int closedir(DIR* dir) {
  if (!g_cur || !g_dirs.count(dir)) { REAL(closedir); return real(dir); }
  auto d = reinterpret_cast<SimDir*>(dir);
  if (d->fd >= 0) close(d->fd);
  g_dirs.erase(dir);
  delete d;
  return 0;
}
extern "C" int dirfd(DIR* dir) noexcept {
  if (!g_cur || !g_dirs.count(dir)) { REAL(dirfd); return real(dir); }
  return reinterpret_cast<SimDir*>(dir)->fd;
}

//---------------------------------------------------------------- fortified names
extern "C" int __openat_2(int dirfd, const char* path, int flags) {
  if (!g_cur) return openat(dirfd, path, flags, 0);
  if (path[0] != '/' && dirfd != AT_FDCWD) sim_error("openat relative to a directory");
  return do_open(path, flags);
}
extern "C" int __open_2(const char* path, int flags) { return open(path, flags, 0); }
extern "C" int __open64_2(const char* path, int flags) { return open(path, flags, 0); }
extern "C" ssize_t __read_chk(int fd, void* data, size_t size, size_t) { return read(fd, data, size); }

//---------------------------------------------------------------- must never reach the real system
#define FORBID(ret, name, args, call) \
  extern "C" ret name args noexcept { \
    if (!g_cur) { REAL(name); return real call; } \
    sim_error(#name " is not simulated"); \
  }
FORBID(int, unlink, (const char* a), (a))
FORBID(int, unlinkat, (int d, const char* a, int f), (d, a, f))
FORBID(int, remove, (const char* a), (a))
FORBID(int, rename, (const char* a, const char* b), (a, b))
FORBID(int, mkdir, (const char* a, mode_t m), (a, m))
FORBID(int, symlink, (const char* a, const char* b), (a, b))
FORBID(int, link, (const char* a, const char* b), (a, b))
FORBID(int, chdir, (const char* a), (a))
FORBID(int, truncate, (const char* a, off_t o), (a, o))
FORBID(FILE*, popen, (const char* a, const char* b), (a, b))
FORBID(int, pipe, (int* a), (a))
FORBID(int, pipe2, (int* a, int f), (a, f))
FORBID(int, socketpair, (int a, int b, int c, int* d), (a, b, c, d))
FORBID(int, eventfd, (unsigned a, int b), (a, b))
FORBID(int, timerfd_create, (int a, int b), (a, b))
FORBID(int, signalfd, (int a, const sigset_t* b, int c), (a, b, c))
