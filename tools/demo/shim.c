// Preloaded into keymapperd, keymapper and keymapperctl: redirects /dev/input, /dev/uinput
// to a scratch directory and gives the sockets names of their own.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/input.h>
#include <linux/uinput.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <unistd.h>

static const char* dir(void) { const char* d = getenv("DEMO_DIR"); return d ? d : "/nonexistent"; }

static const char* redirect(const char* path, char* buf) {
  if (path && !strncmp(path, "/dev/input", 10) && (path[10] == 0 || path[10] == '/')) {
    snprintf(buf, 512, "%s/input%s", dir(), path + 10);
    return buf;
  }
  return path;
}

static int is_event(const char* path) {
  const char* n = path ? strrchr(path, '/') : NULL;
  return n && !strncmp(n, "/event", 6) && !strchr(n, '.');
}

static void logline(const char* fmt, ...) {
  char p[512], line[256];
  snprintf(p, sizeof p, "%s/log", dir());
  va_list a; va_start(a, fmt); int n = vsnprintf(line, sizeof line, fmt, a); va_end(a);
  int (*real)(const char*, int, ...) = dlsym(RTLD_NEXT, "open");
  int fd = real(p, O_WRONLY | O_CREAT | O_APPEND, 0600);
  if (fd >= 0) { if (write(fd, line, n) < 0) {} close(fd); }
}

static int (*r_open(void))(const char*, int, ...) { static int (*f)(const char*, int, ...); if (!f) f = dlsym(RTLD_NEXT, "open"); return f; }

static int do_open(const char* path, int flags, mode_t mode) {
  char b[512];
  if (path && (!strcmp(path, "/dev/uinput"))) {
    static int count;
    snprintf(b, sizeof b, "%s/uinput.%d.%d", dir(), (int)getpid(), count++);
    return r_open()(b, O_WRONLY | O_CREAT | O_APPEND, 0600);
  }
  const char* p = redirect(path, b);
  if (p != path && is_event(p)) {
    struct stat st;
    if (stat(p, &st) != 0) return -1;
    int fd = r_open()(p, O_RDWR | O_NONBLOCK);
    if (fd >= 0) fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) & ~O_NONBLOCK);
    return fd;
  }
  return r_open()(p, flags, mode);
}
int open(const char* path, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, int); va_end(a); return do_open(path, flags, m); }
int open64(const char* path, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, int); va_end(a); return do_open(path, flags, m); }

DIR* opendir(const char* path) {
  static DIR* (*f)(const char*); if (!f) f = dlsym(RTLD_NEXT, "opendir");
  char b[512]; return f(redirect(path, b));
}
int openat(int d, const char* path, int flags, ...) {
  va_list a; va_start(a, flags); mode_t m = va_arg(a, int); va_end(a);
  static int (*f)(int, const char*, int, ...); if (!f) f = dlsym(RTLD_NEXT, "openat");
  char b[512]; return f(d, redirect(path, b), flags, m);
}
int __openat_2(int d, const char* path, int flags) { return openat(d, path, flags, 0); }
struct dirent* readdir(DIR* d) {
  static struct dirent* (*f)(DIR*); if (!f) f = dlsym(RTLD_NEXT, "readdir");
  for (;;) {
    struct dirent* e = f(d);
    if (e && e->d_type == DT_FIFO) { e->d_type = DT_CHR; return e; }
    if (e && !strncmp(e->d_name, "event", 5) && strchr(e->d_name, '.')) continue;
    return e;
  }
}
struct dirent64* readdir64(DIR* d) { return (struct dirent64*)readdir(d); }
int inotify_add_watch(int fd, const char* path, unsigned mask) {
  static int (*f)(int, const char*, unsigned); if (!f) f = dlsym(RTLD_NEXT, "inotify_add_watch");
  char b[512]; return f(fd, redirect(path, b), mask);
}
ssize_t readlink(const char* path, char* buf, size_t n) {
  static ssize_t (*f)(const char*, char*, size_t); if (!f) f = dlsym(RTLD_NEXT, "readlink");
  char b[512]; return f(redirect(path, b), buf, n);
}
int stat(const char* path, struct stat* st) {
  static int (*f)(const char*, struct stat*); if (!f) f = dlsym(RTLD_NEXT, "stat");
  char b[512]; int r = f(redirect(path, b), st);
  if (!r && b != path && S_ISFIFO(st->st_mode)) st->st_mode = (st->st_mode & ~S_IFMT) | S_IFCHR;
  return r;
}
int lstat(const char* path, struct stat* st) {
  static int (*f)(const char*, struct stat*); if (!f) f = dlsym(RTLD_NEXT, "lstat");
  char b[512]; return f(redirect(path, b), st);
}

// capabilities are in <node>.caps: "name|kind", pressed keys in <node>.keys (bitmap)
static int node_path(int fd, char* out) {
  char link[64]; snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
  static ssize_t (*f)(const char*, char*, size_t); if (!f) f = dlsym(RTLD_NEXT, "readlink");
  ssize_t n = f(link, out, 500);
  if (n <= 0) return 0;
  out[n] = 0;
  char* del = strstr(out, " (deleted)");
  if (del) *del = 0;
  return 1;
}
static void setbit(unsigned char* b, size_t n, int i) { if ((size_t)i / 8 < n) b[i / 8] |= 1 << (i % 8); }

// events of keys a virtual device does not have are dropped
static unsigned char keybits[256][96];
ssize_t write(int fd, const void* data, size_t n) {
  static ssize_t (*f)(int, const void*, size_t); if (!f) f = dlsym(RTLD_NEXT, "write");
  const struct input_event* e = data;
  char p[600];
  if (n == sizeof *e && e->type == EV_KEY && fd >= 0 && fd < 256 && e->code / 8 < 96 &&
      node_path(fd, p) && strstr(p, "/uinput.") && !(keybits[fd][e->code / 8] & 1 << e->code % 8)) return n;
  return f(fd, data, n);
}

int ioctl(int fd, unsigned long req, ...) {
  va_list a; va_start(a, req); void* arg = va_arg(a, void*); va_end(a);
  static int (*f)(int, unsigned long, ...); if (!f) f = dlsym(RTLD_NEXT, "ioctl");
  char p[600];
  if (!node_path(fd, p)) return f(fd, req, arg);
  if (strstr(p, "/uinput.")) {
    if (req == UI_SET_EVBIT && (long)arg == EV_SYN && fd < 256) memset(keybits[fd], 0, 96);
    if (req == UI_SET_KEYBIT && fd < 256) setbit(keybits[fd], 96, (int)(long)arg);
    if (req == UI_DEV_SETUP) logline("create %s %s\n", strrchr(p, '/') + 1, ((struct uinput_setup*)arg)->name);
    if (req == UI_DEV_DESTROY) logline("destroy %s\n", strrchr(p, '/') + 1);
    return 0;
  }
  if (!is_event(p)) return f(fd, req, arg);
  char caps[256] = "", cp[640]; snprintf(cp, sizeof cp, "%s.caps", p);
  int c = r_open()(cp, O_RDONLY);
  if (c < 0) { errno = ENODEV; return -1; }
  ssize_t n = read(c, caps, sizeof caps - 1); close(c);
  caps[n > 0 ? n : 0] = 0;
  char* kind = strchr(caps, '|'); if (kind) *kind++ = 0; else kind = "keyboard";
  int mouse = !strcmp(kind, "mouse");
  size_t size = _IOC_SIZE(req); unsigned nr = _IOC_NR(req); unsigned char* b = arg;
  if (_IOC_TYPE(req) != 'E') { errno = EINVAL; return -1; }
  if (req == EVIOCGVERSION) { *(int*)arg = EV_VERSION; return 0; }
  if (req == EVIOCGRAB) { logline("%s %s\n", arg ? "grab" : "ungrab", strrchr(p, '/') + 1); return 0; }
  if (req == EVIOCGID) { memset(arg, 0, size); return 0; }
  if (nr == _IOC_NR(EVIOCGNAME(0))) { snprintf(arg, size, "%s", caps); return (int)strlen(caps) + 1; }
  if (nr == _IOC_NR(EVIOCGKEY(0))) {
    memset(b, 0, size); snprintf(cp, sizeof cp, "%s.keys", p);
    c = r_open()(cp, O_RDONLY); if (c >= 0) { if (read(c, b, size) < 0) {} close(c); }
    return (int)size;
  }
  if (nr >= 0x20 && nr < 0x40) {
    memset(b, 0, size); int type = nr - 0x20;
    if (type == 0) { setbit(b, size, EV_SYN); setbit(b, size, EV_KEY); setbit(b, size, mouse ? EV_REL : EV_REP); }
    if (type == EV_KEY && !mouse) for (int i = 1; i < 120; ++i) setbit(b, size, i);
    if (type == EV_KEY && mouse) for (int i = BTN_LEFT; i <= BTN_EXTRA; ++i) setbit(b, size, i);
    if (type == EV_REL && mouse) { setbit(b, size, REL_X); setbit(b, size, REL_Y); setbit(b, size, REL_WHEEL); setbit(b, size, REL_WHEEL_HI_RES); }
    return (int)size;
  }
  if (nr == _IOC_NR(EVIOCGPROP(0))) { memset(b, 0, size); return 0; }
  errno = EINVAL; return -1;
}

static void rename_socket(struct sockaddr_un* u) {
  if (u->sun_family == AF_UNIX && u->sun_path[0] == 0 && !strncmp(u->sun_path + 1, "keymapper", 9)) {
    const char* id = getenv("DEMO_ID");
    strncat(u->sun_path + 1, id ? id : "demo", 40);
  }
}
int bind(int fd, const struct sockaddr* sa, socklen_t n) {
  static int (*f)(int, const struct sockaddr*, socklen_t); if (!f) f = dlsym(RTLD_NEXT, "bind");
  struct sockaddr_un u; memset(&u, 0, sizeof u); memcpy(&u, sa, n < sizeof u ? n : sizeof u); rename_socket(&u);
  return f(fd, (struct sockaddr*)&u, n);
}
int connect(int fd, const struct sockaddr* sa, socklen_t n) {
  static int (*f)(int, const struct sockaddr*, socklen_t); if (!f) f = dlsym(RTLD_NEXT, "connect");
  struct sockaddr_un u; memset(&u, 0, sizeof u); memcpy(&u, sa, n < sizeof u ? n : sizeof u); rename_socket(&u);
  return f(fd, (struct sockaddr*)&u, n);
}
