// Stand-ins for the desktop's libraries: Xlib (focused window), libdbus
// (window focus messages), libwayland-client (states of windows), GTK/appindicator (tray menu).
#include "sim.h"
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <utility>

using namespace sim;
extern "C" {

//---------------------------------------------------------------- Xlib
typedef unsigned long XID;
enum : unsigned long { A_ACTIVE = 300, A_NAME, A_PID, A_UTF8, A_OTHER };

void* XOpenDisplay(const char*) {
  Kernel k;
  sys_enter(*k.p);
  return W->has_x11 ? (void*)0x1000 : nullptr;
}
int XCloseDisplay(void*) { return 0; }
XID XRootWindow(void*, int) { return 1; }
XID XDefaultRootWindow(void*) { return 1; }
XID XInternAtom(void*, const char* name, int) {
  if (!strcmp(name, "_NET_ACTIVE_WINDOW")) return A_ACTIVE;
  if (!strcmp(name, "_NET_WM_NAME")) return A_NAME;
  if (!strcmp(name, "_NET_WM_PID")) return A_PID;
  if (!strcmp(name, "UTF8_STRING")) return A_UTF8;
  return A_OTHER;
}
void* XSetErrorHandler(void* h) {
  Kernel k;
  return std::exchange(W->x_handlers[k.p->index], h);
}
int XFree(void* p) { free(p); return 1; }
int XFlush(void*) { return 1; }
int XSync(void*, int) { return 1; }

static const Window* window(XID id) {
  auto i = (long)id - 1000;
  return i >= 0 && i < (long)W->windows.size() && W->windows[(size_t)i].open && !(W->native_windows >> i & 1) ? &W->windows[(size_t)i] : nullptr;
}

// windows may be gone any time; programs which do not handle errors end
static void bad_window() {
  int (*handler)(void*, void*) = nullptr;
  {
    Kernel k;
    auto it = W->x_handlers.find(k.p->index);
    if (it != W->x_handlers.end()) handler = (int (*)(void*, void*))it->second;
  }
  if (!handler) exit(1);
  long event[16] = { };
  handler((void*)0x1000, event);
}

static int get_window_property(XID win, XID atom, XID* type, int* format,
    unsigned long* n, unsigned long* rest, unsigned char** data) {
  Kernel k;
  sys_enter(*k.p);
  *data = nullptr;
  *n = *rest = 0;
  *type = 0;
  *format = 0;
  if (win == 1 && atom == A_ACTIVE) {
    auto v = (XID*)calloc(2, sizeof(XID));
    // the window manager needs a while to notice that a window was closed
    auto focus = W->focus < 0 && W->now < W->closing_until ? W->closing : W->focus;
    *v = focus < 0 || (W->native_windows >> focus & 1) ? 0 : 1000 + (XID)focus;
    *data = (unsigned char*)v;
    *n = 1;
    *format = 32;
    return 0;
  }
  auto w = window(win);
  if (!w) return 3;  // BadWindow
  if (atom == A_NAME) {
    *data = (unsigned char*)strdup(w->title.c_str());
    *n = w->title.size();
    *format = 8;
  }
  else if (atom == A_PID && w->pid) {
    auto v = (unsigned long*)calloc(2, sizeof(long));
    *v = (unsigned long)w->pid;
    *data = (unsigned char*)v;
    *n = 1;
    *format = 32;
  }
  return 0;
}
int XGetWindowProperty(void*, XID win, XID atom, long, long, int, XID, XID* type, int* format,
    unsigned long* n, unsigned long* rest, unsigned char** data) {
  auto result = get_window_property(win, atom, type, format, n, rest, data);
  if (result) bad_window();
  return result;
}
static bool get_class_hint(XID win, char** hint) {
  Kernel k;
  sys_enter(*k.p);
  auto w = window(win);
  if (!w) return false;
  hint[0] = strdup(w->cls.c_str());
  hint[1] = strdup(w->cls.c_str());
  return true;
}
int XGetClassHint(void*, XID win, char** hint) {
  if (get_class_hint(win, hint)) return 1;
  bad_window();
  return 0;
}

//---------------------------------------------------------------- libdbus
typedef unsigned dbool;
struct FakeMessage { std::string title, cls; bool focus; };
struct VTable { void* unregister; int (*handler)(void*, void*, void*); };
static std::map<int, std::pair<const VTable*, void*>> g_objects;  // per process

void dbus_error_init(void* e) { memset(e, 0, 32); }
void dbus_error_free(void*) {}
dbool dbus_error_is_set(const void*) { return 0; }
void* dbus_bus_get(int, void*) { return W->has_dbus ? (void*)0x2000 : nullptr; }
int dbus_bus_request_name(void*, const char*, unsigned, void*) { return 1; }
int dbus_bus_release_name(void*, const char*, void*) { return 1; }
dbool dbus_connection_register_object_path(void*, const char*, const void* vtable, void* data) {
  g_objects[g_cur ? g_cur->index : -1] = { (const VTable*)vtable, data };
  return 1;
}
dbool dbus_connection_unregister_object_path(void*, const char*) {
  g_objects.erase(g_cur ? g_cur->index : -1);
  return 1;
}
dbool dbus_connection_read_write_dispatch(void* conn, int) {
  auto p = g_cur;
  FakeMessage m;
  {
    Kernel k;
    sys_enter(*p);
    auto& q = W->dbus_queue[p->index];
    if (q.empty()) return 1;
    m = { q.front().first, q.front().second, true };
    q.pop_front();
  }
  auto it = g_objects.find(p->index);
  if (it != g_objects.end())
    it->second.first->handler(conn, &m, it->second.second);
  return 1;
}
dbool dbus_connection_send(void*, void*, void*) { return 1; }
dbool dbus_message_is_method_call(void*, const char*, const char* method) { return !strcmp(method, "WindowFocus"); }
dbool dbus_message_get_args(void* msg, void* error, int first, ...) {
  auto m = (FakeMessage*)msg;
  va_list ap;
  va_start(ap, first);
  *va_arg(ap, const char**) = m->title.c_str();
  if (va_arg(ap, int))
    *va_arg(ap, const char**) = m->cls.c_str();
  va_end(ap);
  return 1;
}
void* dbus_message_new_method_return(void*) { return (void*)0x3000; }
void* dbus_message_new_error(void*, const char*, const char*) { return (void*)0x3000; }
dbool dbus_message_append_args(void*, int, ...) { return 1; }
void dbus_message_unref(void*) {}

//---------------------------------------------------------------- libwayland-client
struct FakeInterface { const char* name; int version, method_count; const void* methods; int event_count; const void* events; };
struct FakeArray { size_t size, alloc; void* data; };
extern const FakeInterface wl_registry_interface = { "wl_registry", 1, 0, nullptr, 0, nullptr };
extern const FakeInterface wl_seat_interface = { "wl_seat", 1, 0, nullptr, 0, nullptr };
extern const FakeInterface wl_output_interface = { "wl_output", 1, 0, nullptr, 0, nullptr };
extern const FakeInterface wl_surface_interface = { "wl_surface", 1, 0, nullptr, 0, nullptr };
static const char* const TOPLEVEL_MANAGER = "zwlr_foreign_toplevel_manager_v1";

static WlProxy* new_proxy(const char* interface) {
  auto& c = W->wayland[g_cur ? g_cur->index : -1];
  c.proxies.push_back(std::make_unique<WlProxy>());
  c.proxies.back()->interface = interface;
  return c.proxies.back().get();
}
void* wl_display_connect(const char*) {
  {
    Kernel k;
    sys_enter(*k.p);
  }
  return W->has_wayland ? new_proxy("wl_display") : nullptr;
}
void wl_display_disconnect(void*) { W->wayland.erase(g_cur ? g_cur->index : -1); }
int wl_display_flush(void*) { return 0; }
void* wl_proxy_marshal_flags(void* proxy, uint32_t, const FakeInterface* interface, uint32_t, uint32_t flags, ...) {
  if (flags & 1) ((WlProxy*)proxy)->destroyed = true;
  if (!interface) return nullptr;
  auto& c = W->wayland[g_cur ? g_cur->index : -1];
  auto p = new_proxy(interface->name);
  if (p->interface == "wl_registry") {
    c.registry = p;
    c.queue.push_back({ WL_GLOBAL, -1, "wl_seat", {} });
    c.queue.push_back({ WL_GLOBAL, -1, TOPLEVEL_MANAGER, {} });
  }
  else if (p->interface == TOPLEVEL_MANAGER) {
    c.manager = p;
    for (size_t i = 0; i < W->windows.size(); ++i)
      if (W->windows[i].open) wayland_window(c, (int)i, true);
  }
  return p;
}
int wl_proxy_add_listener(void* proxy, void (**listener)(), void* data) {
  auto p = (WlProxy*)proxy;
  if (p->listener) return -1;
  p->listener = listener;
  p->data = data;
  return 0;
}
void wl_proxy_destroy(void* proxy) { ((WlProxy*)proxy)->destroyed = true; }
uint32_t wl_proxy_get_version(void*) { return 1; }
void wl_proxy_set_user_data(void* proxy, void* data) { ((WlProxy*)proxy)->data = data; }
void* wl_proxy_get_user_data(void* proxy) { return ((WlProxy*)proxy)->data; }
int wl_display_roundtrip(void*) {
  {
    Kernel k;
    sys_enter(*k.p);
  }
  auto& c = W->wayland[g_cur ? g_cur->index : -1];
  auto n = c.queue.size();
  auto count = (int)n;
  for (; n && !c.queue.empty(); --n) {
    auto e = std::move(c.queue.front());
    c.queue.pop_front();
    auto p = e.kind == WL_GLOBAL ? c.registry : e.kind == WL_NEW ? c.manager : c.handles[e.window];
    if (!p || p->destroyed || !p->listener) continue;
    auto l = p->listener;
    auto d = p->data;
    switch (e.kind) {
      case WL_GLOBAL: ((void (*)(void*, void*, uint32_t, const char*, uint32_t))l[0])(d, p, (uint32_t)n, e.text.c_str(), 3); break;
      case WL_NEW: ((void (*)(void*, void*, void*))l[0])(d, p, c.handles[e.window] = new_proxy("zwlr_foreign_toplevel_handle_v1")); break;
      case WL_TITLE: ((void (*)(void*, void*, const char*))l[0])(d, p, e.text.c_str()); break;
      case WL_APPID: ((void (*)(void*, void*, const char*))l[1])(d, p, e.text.c_str()); break;
      case WL_STATE: {
        auto a = FakeArray{ e.states.size() * 4, e.states.size() * 4, e.states.data() };
        ((void (*)(void*, void*, void*))l[4])(d, p, &a);
        break;
      }
      case WL_DONE: ((void (*)(void*, void*))l[5])(d, p); break;
      case WL_CLOSED: ((void (*)(void*, void*))l[6])(d, p); break;
    }
  }
  return count;
}

//---------------------------------------------------------------- GTK
struct FakeWidget { std::string label; int checked = -1; };
static void check_item(FakeWidget* w, int state, Proc* p) {
  w->checked = state;
  record(R_SHOWN, p ? p->index : -1, state, 0, 0, 0, w->label);
}
static std::map<int, std::vector<TrayItem>> g_items;  // per process

int gtk_init_check(int*, char***) { return W->has_tray ? 1 : 0; }
void* gtk_menu_new() { g_items[g_cur ? g_cur->index : -1].clear(); return new FakeWidget{ "menu" }; }
void gtk_menu_shell_append(void*, void*) {}
void* gtk_check_menu_item_new_with_label(const char* label) { return new FakeWidget{ label, 0 }; }
void* gtk_menu_item_new_with_label(const char* label) { return new FakeWidget{ label }; }
void* gtk_separator_menu_item_new() { return new FakeWidget{ "-" }; }
void gtk_check_menu_item_set_active(void* widget, int state) { check_item((FakeWidget*)widget, state != 0, g_cur); }
void gtk_widget_show_all(void*) {}
void* app_indicator_new(const char*, const char*, int) { return new FakeWidget{ "indicator" }; }
void app_indicator_set_status(void*, int) {}
void app_indicator_set_menu(void*, void*) {}
void g_object_unref(void*) { g_items[g_cur ? g_cur->index : -1].clear(); }
unsigned long g_signal_connect_data(void* widget, const char*, void (*cb)(), void* data, void*, int) {
  g_items[g_cur ? g_cur->index : -1].push_back({ ((FakeWidget*)widget)->label, (void(*)(void*, void*))cb, data, widget });
  return 1;
}
int gtk_events_pending() {
  auto p = g_cur;
  if (!p) return 0;
  Kernel k;
  return !W->tray_queue[p->index].empty();
}
int gtk_main_iteration() {
  auto p = g_cur;
  TrayItem item;
  {
    Kernel k;
    sys_enter(*p);
    auto& q = W->tray_queue[p->index];
    if (q.empty()) return 0;
    auto label = q.front();
    q.pop_front();
    for (auto& i : g_items[p->index])
      if (i.label == label)
        item = i;
    record(R_TRAY, p->index, item.cb != nullptr, 0, 0, 0, label);
    auto w = (FakeWidget*)item.widget;
    if (w && w->checked >= 0) check_item(w, !w->checked, p);
  }
  if (item.cb) item.cb(item.widget, item.data);
  return 0;
}

}  // extern "C"
