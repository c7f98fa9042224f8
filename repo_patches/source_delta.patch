From db172f24f4932a05f92a431fb82786b3d17d6038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:44 +0000
Subject: [PATCH 01/47] fix: release the keys held on a device which is
 unplugged

When a keyboard or mouse disappeared while one of its keys was held, the
release event was lost and the output key stayed pressed.
Keep track of the pressed keys of each grabbed device and release them
when the device is gone.
---
 src/server/unix/GrabbedDevicesLinux.cpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/server/unix/GrabbedDevicesLinux.cpp b/src/server/unix/GrabbedDevicesLinux.cpp
index b72c1f5..fdfda33 100644
--- a/src/server/unix/GrabbedDevicesLinux.cpp
+++ b/src/server/unix/GrabbedDevicesLinux.cpp
@@ -2,6 +2,7 @@
 #include "GrabbedDevices.h"
 #include "VirtualDevices.h"
 #include "DeviceDescLinux.h"
+#include "runtime/Stage.h"
 #include "common/output.h"
 #include "common/Duration.h"
 #include <cstdio>
@@ -9,6 +10,7 @@
 #include <array>
 #include <algorithm>
 #include <bitset>
+#include <deque>
 #include <iterator>
 #include <filesystem>
 #include <fcntl.h>
@@ -298,6 +300,7 @@ private:
     IntRange abs_range_misc;
     bool has_highres_wheel;
     bool disappeared;
+    std::vector<int> keys_down;
   };
 
   std::string_view m_ignore_device_name;
@@ -306,6 +309,7 @@ private:
   int m_device_monitor_fd{ -1 };
   std::vector<Device> m_grabbed_devices;
   std::vector<DeviceDesc> m_grabbed_device_descs;
+  std::deque<GrabbedDevices::Event> m_release_events;
   bool m_devices_changed{ };
 
 public:
@@ -343,6 +347,13 @@ public:
 
   std::pair<bool, std::optional<Event>> read_input_event(
         std::optional<Duration> timeout, int interrupt_fd) {
+    // release keys of disappeared devices first
+    if (!m_release_events.empty()) {
+      const auto event = m_release_events.front();
+      m_release_events.pop_front();
+      return { true, event };
+    }
+
     for (;;) {
       auto read_set = fd_set{ };
       FD_ZERO(&read_set);
@@ -382,14 +393,22 @@ public:
         return { true, std::nullopt };
 
       auto device_index = 0;
-      for (const auto& device : m_grabbed_devices) {
+      for (auto& device : m_grabbed_devices) {
         if (FD_ISSET(device.fd, &read_set)) {
           auto ev = input_event{ };
           if (!read_all(device.fd,
                 reinterpret_cast<char*>(&ev), sizeof(input_event)))
             return { false, std::nullopt };
 
-          if (ev.type == EV_ABS) {
+          if (ev.type == EV_KEY) {
+            // keep track of keys which are down
+            auto& keys_down = device.keys_down;
+            keys_down.erase(std::remove(keys_down.begin(), keys_down.end(),
+              ev.code), keys_down.end());
+            if (ev.value)
+              keys_down.push_back(ev.code);
+          }
+          else if (ev.type == EV_ABS) {
             // map from device range to default range
             if (ev.code == ABS_VOLUME) {
               ev.value = map_to_range(ev.value, device.abs_range_volume, default_abs_range);
@@ -506,6 +525,8 @@ private:
     // ungrab disappeared devices
     for (auto it = m_grabbed_devices.begin(); it != m_grabbed_devices.end(); ) {
       if (it->disappeared) {
+        for (auto key : it->keys_down)
+          m_release_events.push_back({ Stage::any_device_index, EV_KEY, key, 0 });
         ungrab_device(*it);
         verbose("  /dev/input/event%d ungrabbed", it->event_id);
         it = m_grabbed_devices.erase(it);
-- 
2.43.0


From 90f512c00ef5fa00cd2e677ec192cf95f82d8462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:18 +0000
Subject: [PATCH 02/47] fix: release mouse buttons on the device they were
 pressed on

A button was released on the mouse which was active last. When another
mouse moved or the devices changed while the button was held, it stayed
pressed on the first device.
---
 src/server/unix/VirtualDevicesLinux.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/server/unix/VirtualDevicesLinux.cpp b/src/server/unix/VirtualDevicesLinux.cpp
index 72464aa..83400e7 100644
--- a/src/server/unix/VirtualDevicesLinux.cpp
+++ b/src/server/unix/VirtualDevicesLinux.cpp
@@ -187,6 +187,10 @@ namespace {
       return m_has_mouse_axes;
     }
 
+    bool is_down(Key key) const {
+      return (std::count(begin(m_down_keys), end(m_down_keys), key) != 0);
+    }
+
     int update_key_state(const KeyEvent& event) {
       const auto release = 0;
       const auto press = 1;
@@ -298,6 +302,15 @@ public:
     if (m_last_active_mouse && (is_mouse_button(event.key) || is_mouse_wheel(event.key)))
       device = m_last_active_mouse;
 
+    // release mouse buttons on the device they were pressed on
+    if (is_mouse_button(event.key)) {
+      if (m_keyboard->is_down(event.key))
+        device = m_keyboard.get();
+      for (auto& [event_id, forward_device] : m_forward_devices)
+        if (forward_device.is_down(event.key))
+          device = &forward_device;
+    }
+
     if (is_mouse_wheel(event.key)) {
       const auto vertical = (event.key == Key::WheelUp || event.key == Key::WheelDown);
       const auto negative = (event.key == Key::WheelDown || event.key == Key::WheelLeft);
-- 
2.43.0


From f8a71289db0134d73441a71b830fec49e4203716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:54:41 +0000
Subject: [PATCH 03/47] fix: send output of contexts activated before the
 virtual devices exist

The first messages of a client can contain active contexts. Output they
trigger could not be sent because the virtual keyboard was not created yet,
and stayed in the buffer until the next key event.
---
 src/server/unix/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/server/unix/main.cpp b/src/server/unix/main.cpp
index 5c78b8a..72ad9b7 100644
--- a/src/server/unix/main.cpp
+++ b/src/server/unix/main.cpp
@@ -206,6 +206,10 @@ namespace {
         const auto prev_sigint_handler = ::signal(SIGINT, handle_shutdown_signal);
         const auto prev_sigterm_handler = ::signal(SIGTERM, handle_shutdown_signal);
 
+        // send output generated before the virtual devices were created
+        if (!g_state.flush_scheduled_at())
+          g_state.flush_send_buffer();
+
         verbose("Entering update loop");
         if (!main_loop())
           g_shutdown.store(true);
-- 
2.43.0


From fb67afdcb78befa4675cc7c6b4252fc93b601949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:09:03 +0000
Subject: [PATCH 04/47] fix: keep waiting in control program when a reply
 arrives in parts

---
 src/control/ClientPort.cpp | 30 ++++++++++++++++++++++++++----
 src/control/ClientPort.h   |  4 ++++
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/control/ClientPort.cpp b/src/control/ClientPort.cpp
index 0f24428..4f1b00a 100644
--- a/src/control/ClientPort.cpp
+++ b/src/control/ClientPort.cpp
@@ -78,9 +78,29 @@ bool ClientPort::send_type_string(const std::string& string) {
   });
 }
 
+template<typename F, typename G> // void(Deserializer&), bool()
+bool ClientPort::read_messages_until(std::optional<Duration> timeout,
+    F&& deserialize, G&& received) {
+  // the message may arrive in multiple parts
+  const auto timeout_at = (timeout ?
+    std::make_optional(Clock::now() + *timeout) : std::nullopt);
+  for (;;) {
+    if (!m_connection.read_messages(timeout, deserialize))
+      return false;
+    if (received())
+      return true;
+    if (timeout_at) {
+      const auto now = Clock::now();
+      if (now >= *timeout_at)
+        return true;
+      timeout = *timeout_at - now;
+    }
+  }
+}
+
 bool ClientPort::read_virtual_key_state(std::optional<Duration> timeout, 
     std::optional<KeyState>* result) {
-  return m_connection.read_messages(timeout,
+  return read_messages_until(timeout,
     [&](Deserializer& d) {
       switch (d.read<MessageType>()) {
         case MessageType::virtual_key_state: {
@@ -92,12 +112,13 @@ bool ClientPort::read_virtual_key_state(std::optional<Duration> timeout,
         default: 
           break;
       }
-    });
+    },
+    [&]() { return result->has_value(); });
 }
 
 bool ClientPort::read_next_key_info(std::optional<Duration> timeout, 
     std::string* result) {
-  return m_connection.read_messages(timeout,
+  return read_messages_until(timeout,
     [&](Deserializer& d) {
       switch (d.read<MessageType>()) {
         case MessageType::next_key_info: {
@@ -108,5 +129,6 @@ bool ClientPort::read_next_key_info(std::optional<Duration> timeout,
         default: 
           break;
       }
-    });
+    },
+    [&]() { return !result || !result->empty(); });
 }
diff --git a/src/control/ClientPort.h b/src/control/ClientPort.h
index 991511f..fbfb8b0 100644
--- a/src/control/ClientPort.h
+++ b/src/control/ClientPort.h
@@ -24,6 +24,10 @@ public:
     std::string* result);
 
 private:
+  template<typename F, typename G>
+  bool read_messages_until(std::optional<Duration> timeout,
+    F&& deserialize, G&& received);
+
   Host m_host;
   Connection m_connection;
 };
-- 
2.43.0


From 03fd540cac5f1a84105613d729390056743f37c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:09:03 +0000
Subject: [PATCH 05/47] fix: report that virtual keys are off after a
 configuration change

---
 src/server/ServerState.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/server/ServerState.cpp b/src/server/ServerState.cpp
index 4dde44c..48884ca 100644
--- a/src/server/ServerState.cpp
+++ b/src/server/ServerState.cpp
@@ -105,6 +105,9 @@ void ServerState::reset_configuration(std::unique_ptr<MultiStage> stage) {
   flush_send_buffer();
   verbose("Resetting configuration");
   m_stage = (stage ? std::move(stage) : std::make_unique<MultiStage>());
+  for (auto key : m_virtual_keys_down)
+    if (is_virtual_key(key))
+      m_client->send_virtual_key_state(key, KeyState::Up);
   m_virtual_keys_down.clear();
   m_flush_scheduled_at.reset();
   m_timeout_start_at.reset();
-- 
2.43.0


From a7f599f9cb6674963dd8b505e472cff3aaaca16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:09:28 +0000
Subject: [PATCH 06/47] fix: keep reconnecting when keymapperd goes away while
 connecting

---
 src/client/unix/main.cpp | 17 +++++++++++++----
 src/common/Host.cpp      | 31 ++++++++++++++++---------------
 2 files changed, 29 insertions(+), 19 deletions(-)

diff --git a/src/client/unix/main.cpp b/src/client/unix/main.cpp
index ae5d7b4..420835e 100644
--- a/src/client/unix/main.cpp
+++ b/src/client/unix/main.cpp
@@ -6,6 +6,7 @@
 #include "common/output.h"
 #include <sstream>
 #include <csignal>
+#include <utility>
 #include <unistd.h>
 #include <fcntl.h>
 #include <sys/wait.h>
@@ -138,15 +139,23 @@ namespace {
   }
 
   int connection_loop() {
+    auto reconnecting = false;
     for (;;) {
       if (g_shutdown)
         return 0;
 
-      if (!g_state.connect_server())
-        return 1;
+      // keymapperd may go away again while reconnecting
+      if (!g_state.connect_server()) {
+        if (!std::exchange(reconnecting, false))
+          return 1;
+        continue;
+      }
 
-      if (!g_state.send_config())
-        return 1;
+      reconnecting = true;
+      if (!g_state.send_config()) {
+        g_state.on_server_disconnected();
+        continue;
+      }
 
       if (!g_state.initialize_contexts())
         return 1;
diff --git a/src/common/Host.cpp b/src/common/Host.cpp
index 5e1a7d2..3c29ed4 100644
--- a/src/common/Host.cpp
+++ b/src/common/Host.cpp
@@ -164,10 +164,6 @@ Connection Host::accept(std::optional<Duration> timeout) {
 }
 
 Connection Host::connect(std::optional<Duration> timeout) {
-  auto socket_fd = ::socket(AF_UNIX, SOCK_STREAM, 0);
-  if (socket_fd == invalid_socket)
-    return { };
-   
   auto addr = sockaddr_un{ };
   addr.sun_family = AF_UNIX;
   set_unix_domain_socket_path(m_ipc_id, addr, false);
@@ -176,22 +172,27 @@ Connection Host::connect(std::optional<Duration> timeout) {
     std::make_optional(Clock::now() + *timeout) : std::nullopt);
 
   for (;;) {
+    auto socket_fd = ::socket(AF_UNIX, SOCK_STREAM, 0);
+    if (socket_fd == invalid_socket)
+      return { };
+    auto connection = Connection(socket_fd);
+
     if (::connect(socket_fd, reinterpret_cast<sockaddr*>(&addr),
           sizeof(sockaddr_un)) == 0) {
-      auto connection = Connection(socket_fd);
-      
-      // send version
-      if (!connection.send(get_version_hash()))
-        return { };
 
-      // read message which is sent after accept
+      // send version and read message which is sent after accept
       auto accept = false;
-      if (!connection.read(&accept) ||
-          !accept)
+      errno = 0;
+      if (connection.send(get_version_hash()) &&
+          connection.read(&accept)) {
+        if (!accept)
+          return { };
+        make_non_blocking(socket_fd);
+        return connection;
+      }
+      // try again when host went away before accepting
+      if (errno != ECONNRESET && errno != EPIPE)
         return { };
-
-      make_non_blocking(socket_fd);
-      return connection;
     }
     if (retry_until_timepoint && Clock::now() > retry_until_timepoint)
       break;
-- 
2.43.0


From c1a434ae8bc949ac626becc604bc81ca770d15fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:13:47 +0000
Subject: [PATCH 07/47] fix: apply toggled virtual keys while injecting an
 input sequence

An injected input sequence was translated completely before its output was
processed. A virtual key toggled by one of its keys did not affect the keys
following in the same sequence, unlike when the keys are typed.
---
 src/server/ServerState.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server/ServerState.cpp b/src/server/ServerState.cpp
index 48884ca..d9a7b4b 100644
--- a/src/server/ServerState.cpp
+++ b/src/server/ServerState.cpp
@@ -53,9 +53,13 @@ void ServerState::on_request_next_key_info_message() {
 void ServerState::on_inject_input_message(const KeySequence& sequence) {
   for (const auto& event : sequence)
     if ((event.state == KeyState::Up || event.state == KeyState::Down) &&
-        is_device_key(event.key))
+        is_device_key(event.key)) {
       if (!translate_input(event, Stage::no_device_index))
         m_send_buffer.push_back(event);
+      // apply toggled virtual keys before translating the next event
+      if (!m_flush_scheduled_at)
+        flush_send_buffer();
+    }
   schedule_flush();
 }
 
-- 
2.43.0


From ed61637a4bf693f09d574d8ae07aad2a27548b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:16:20 +0000
Subject: [PATCH 08/47] fix: apply the device filters of all blocks sharing
 mappings

The mappings of consecutive context blocks are shared, but only the device
filter of the last block was compared with the device of an event. With
the example of the documentation the mappings did not apply on the first
of two devices.
---
 src/runtime/Stage.cpp | 13 ++++++++++++-
 src/runtime/Stage.h   |  2 ++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/runtime/Stage.cpp b/src/runtime/Stage.cpp
index 997e35d..3aaadc7 100644
--- a/src/runtime/Stage.cpp
+++ b/src/runtime/Stage.cpp
@@ -181,6 +181,15 @@ void Stage::evaluate_device_filters(const std::vector<DeviceDesc>& device_descs)
     }
 }
 
+bool Stage::device_matches_filter(int context_index, int device_index) const {
+  // consecutive blocks share mappings, one of the active ones needs to match
+  for (auto index : m_active_block_contexts)
+    if (fallthrough_context(index) == context_index &&
+        device_matches_filter(m_contexts[index], device_index))
+      return true;
+  return false;
+}
+
 bool Stage::device_matches_filter(const Context& context, int device_index) const {
   if (device_index == any_device_index)
     return true;
@@ -223,10 +232,12 @@ void Stage::update_active_contexts() {
 
   // evaluate modifier and device filter of contexts which were set active by client
   m_active_contexts.clear();
+  m_active_block_contexts.clear();
   for (auto index : m_active_client_contexts) {
     const auto& context = m_contexts[index];
     if ((match_context_modifier_filter(context.modifier_filter) ^ context.invert_modifier_filter) &&
         ((!context.device_filter && !context.device_id_filter) || context.matching_device_bits)) {
+      m_active_block_contexts.push_back(index);
       index = fallthrough_context(index);
       if (m_active_contexts.empty() || m_active_contexts.back() != index)
         m_active_contexts.push_back(index);
@@ -385,7 +396,7 @@ auto Stage::match_input(bool first_iteration,
 
   for (auto context_index : m_active_contexts) {
     const auto& context = m_contexts[context_index];
-    if (!device_matches_filter(context, device_index))
+    if (!device_matches_filter(context_index, device_index))
       continue;
 
     for (const auto& context_input : context.inputs) {
diff --git a/src/runtime/Stage.h b/src/runtime/Stage.h
index 7f0824e..200daf0 100644
--- a/src/runtime/Stage.h
+++ b/src/runtime/Stage.h
@@ -60,6 +60,7 @@ private:
 
   void advance_exit_sequence(const KeyEvent& event);
   const KeySequence* find_output(const Context& context, int output_index) const;
+  bool device_matches_filter(int context_index, int device_index) const;
   bool device_matches_filter(const Context& context, int device_index) const;
   MatchInputResult match_input(bool first_iteration, 
     ConstKeySequenceRange sequence, int device_index, 
@@ -87,6 +88,7 @@ private:
   bool m_has_no_might_match_mapping{ };
   std::vector<int> m_active_client_contexts;
   std::vector<int> m_active_contexts;
+  std::vector<int> m_active_block_contexts;
   std::vector<int> m_prev_active_contexts;
   MatchKeySequence m_match;
   size_t m_exit_sequence_position{ };
-- 
2.43.0


From 051f087140bcaaf1d7135e0b030b76cc8a2cdce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:20:01 +0000
Subject: [PATCH 09/47] fix: keep the state of the virtual key with the highest
 number

The table with the states of the virtual keys had one element too few.
Virtual255 was stored behind its end.
---
 src/client/ControlPort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/ControlPort.h b/src/client/ControlPort.h
index 0540b02..84bf0a7 100644
--- a/src/client/ControlPort.h
+++ b/src/client/ControlPort.h
@@ -50,7 +50,7 @@ private:
   void disconnect_by_instance_id(const std::string& id);
 
   Host m_host;
-  std::array<bool, *Key::last_virtual - *Key::first_virtual> m_virtual_keys_down{ };
+  std::array<bool, *Key::last_virtual - *Key::first_virtual + 1> m_virtual_keys_down{ };
   std::vector<std::pair<std::string, Key>> m_virtual_key_aliases;
   std::map<Socket, Control> m_controls;
 };
-- 
2.43.0


From 4bca6612b0ca83c3b9cc024841736e214ee2fe43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:32:04 +0000
Subject: [PATCH 10/47] fix: continue all outputs waiting for the release of
 the same key

When a key triggered two outputs containing '^', only the first one was
continued when the key was released. The second one remained waiting and
swallowed the next press of the key.
---
 src/runtime/Stage.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/runtime/Stage.cpp b/src/runtime/Stage.cpp
index 3aaadc7..78b48d0 100644
--- a/src/runtime/Stage.cpp
+++ b/src/runtime/Stage.cpp
@@ -686,21 +686,25 @@ void Stage::apply_input(const KeyEvent event, int device_index) {
 }
 
 bool Stage::continue_output_on_release(const KeyEvent& event, int context_index) {
-  const auto it = std::find_if(begin(m_output_on_release), end(m_output_on_release),
-    [&](const OutputOnRelease& o) {
-      return (o.trigger == event.key &&
-              (o.trigger != Key::ContextActive || o.context_index == context_index));
-    });
-  if (it != m_output_on_release.end()) {
+  // a key can be the trigger of more than one output
+  for (;;) {
+    const auto it = std::find_if(begin(m_output_on_release), end(m_output_on_release),
+      [&](const OutputOnRelease& o) {
+        return (o.trigger == event.key &&
+                (o.trigger != Key::ContextActive || o.context_index == context_index));
+      });
+    if (it == m_output_on_release.end())
+      return true;
+
     // ignore key repeat
     if (event.state == KeyState::Down)
       return false;
 
     // trigger released - output rest of sequence
-    apply_output(it->sequence, event, it->context_index);
+    const auto output = *it;
     m_output_on_release.erase(it);
+    apply_output(output.sequence, event, output.context_index);
   }
-  return true;
 }
 
 void Stage::release_triggered(Key key, int context_index) {
-- 
2.43.0


From cb76df2e0f2c4bcc17b69ad1b43a880e8c27015a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:44:09 +0000
Subject: [PATCH 11/47] fix: do not send pending output after the session ended

Output delayed by a timeout stayed in the buffer when the client
disconnected. It was sent as soon as the next client connected.
---
 src/server/ServerState.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/server/ServerState.cpp b/src/server/ServerState.cpp
index d9a7b4b..960582e 100644
--- a/src/server/ServerState.cpp
+++ b/src/server/ServerState.cpp
@@ -105,6 +105,16 @@ bool ServerState::read_client_messages(std::optional<Duration> timeout) {
 }
 
 void ServerState::reset_configuration(std::unique_ptr<MultiStage> stage) {
+  // only complete releasing keys when there is no new configuration
+  if (!stage)
+    m_send_buffer.erase(
+      std::remove_if(m_send_buffer.begin(), m_send_buffer.end(),
+        [](const KeyEvent& event) { 
+          return (event.state != KeyState::Up ||
+            !is_device_key(event.key) || is_mouse_wheel(event.key));
+        }),
+      m_send_buffer.end());
+
   release_all_keys();
   flush_send_buffer();
   verbose("Resetting configuration");
-- 
2.43.0


From aca8fe638ccafd07dd805805adc24ade9d14ffd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:44:22 +0000
Subject: [PATCH 12/47] fix: do not let executed commands inherit connections

A command still running after the client ended kept its connection to the
daemon open. The daemon therefore continued to grab the devices, and the
next client could not connect nor listen for control connections.
---
 src/common/Host.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/common/Host.cpp b/src/common/Host.cpp
index 3c29ed4..0634321 100644
--- a/src/common/Host.cpp
+++ b/src/common/Host.cpp
@@ -52,6 +52,9 @@ void make_non_blocking(Socket socket_fd) {
   ::ioctlsocket(socket_fd, FIONBIO, &mode);
 }
 
+void make_non_inheritable(Socket) {
+}
+
 #else // !defined(_WIN32)
 
 #include <csignal>
@@ -96,6 +99,11 @@ void make_non_blocking(Socket socket_fd) {
   ::fcntl(socket_fd, F_SETFL, flags | O_NONBLOCK);
 }
 
+void make_non_inheritable(Socket socket_fd) {
+  // do not let executed commands keep the connection open
+  ::fcntl(socket_fd, F_SETFD, FD_CLOEXEC);
+}
+
 #endif // !defined(_WIN32)
 
 Host::~Host() {
@@ -106,6 +114,7 @@ bool Host::listen() {
   m_listen_fd = ::socket(AF_UNIX, SOCK_STREAM, 0);
   if (m_listen_fd == invalid_socket)
     return false;
+  make_non_inheritable(m_listen_fd);
 
   auto addr = sockaddr_un{ };
   addr.sun_family = AF_UNIX;
@@ -143,6 +152,7 @@ Connection Host::accept(std::optional<Duration> timeout) {
   auto socket_fd = ::accept(m_listen_fd, nullptr, nullptr);
   if (socket_fd == invalid_socket)
     return { };
+  make_non_inheritable(socket_fd);
   auto connection = Connection(socket_fd);
 
   // check if client version matches own
@@ -175,6 +185,7 @@ Connection Host::connect(std::optional<Duration> timeout) {
     auto socket_fd = ::socket(AF_UNIX, SOCK_STREAM, 0);
     if (socket_fd == invalid_socket)
       return { };
+    make_non_inheritable(socket_fd);
     auto connection = Connection(socket_fd);
 
     if (::connect(socket_fd, reinterpret_cast<sockaddr*>(&addr),
-- 
2.43.0


From 9ed208f38ce3c2eac62a8a48c0a1555594600d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:44:40 +0000
Subject: [PATCH 13/47] fix: do not block client when a child process ended

After displaying a notification the handler of SIGCHLD waited until any
other executed command ended. Children ending at the same time were never
collected.
---
 src/client/unix/main.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/client/unix/main.cpp b/src/client/unix/main.cpp
index 420835e..7a60dd2 100644
--- a/src/client/unix/main.cpp
+++ b/src/client/unix/main.cpp
@@ -6,6 +6,7 @@
 #include "common/output.h"
 #include <sstream>
 #include <csignal>
+#include <cerrno>
 #include <utility>
 #include <unistd.h>
 #include <fcntl.h>
@@ -112,8 +113,12 @@ namespace {
   }
 
   void catch_child([[maybe_unused]] int sig_num) {
+    // one signal can stand for multiple children and for children
+    // which were already waited for
+    const auto prev_errno = errno;
     auto child_status = 0;
-    ::wait(&child_status);
+    while (::waitpid(-1, &child_status, WNOHANG) > 0);
+    errno = prev_errno;
   }
 
   void main_loop() {
-- 
2.43.0


From e4b7aeedb3abab8e7fb23c372de099cef63f56f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:44:56 +0000
Subject: [PATCH 14/47] fix: do not wait for notification and opener programs
 to end

The client did not react to anything while notify-send or xdg-open was
running, which can take long or even until an opened editor is closed.
---
 src/client/unix/main.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/client/unix/main.cpp b/src/client/unix/main.cpp
index 7a60dd2..40ff43b 100644
--- a/src/client/unix/main.cpp
+++ b/src/client/unix/main.cpp
@@ -17,6 +17,8 @@
 extern void showMessageBoxCocoa(const char* message, const char* title);
 #endif
 
+extern bool execute_terminal_command(const std::string& command);
+
 namespace {
   class ClientStateImpl final : public ClientState, public TrayIcon::Handler {
   public:
@@ -48,7 +50,7 @@ namespace {
 #else
     ss << R"(notify-send -a keymapper keymapper ")" << escaped << R"(")";
 #endif
-    [[maybe_unused]] auto result = std::system(ss.str().c_str());
+    execute_terminal_command(ss.str());
   }
 
   void update_options() {
@@ -72,7 +74,7 @@ namespace {
 #else
     command = "open -e " + command;
 #endif
-    return (std::system(command.c_str()) == 0);
+    return execute_terminal_command(command);
   }
 
   void ClientStateImpl::on_open_config() {
-- 
2.43.0


From faedaf974730eeb8adb56f7f7dcb5bcc195df873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:22:55 +0000
Subject: [PATCH 15/47] fix: do not shorten time limits by converting them
 between units

Some limits like 1019ms became 1018ms, because of the floating point
representation in seconds. A key held for that long did not trigger, and one
which should trigger when released earlier always did.
---
 src/runtime/Timeout.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime/Timeout.h b/src/runtime/Timeout.h
index 752a18d..baa2a1a 100644
--- a/src/runtime/Timeout.h
+++ b/src/runtime/Timeout.h
@@ -8,8 +8,10 @@
 
 template<typename R, typename P>
 KeyEvent::value_t duration_to_timeout(const std::chrono::duration<R, P>& duration) {
+  // round first, since the floating point representation can be slightly lower
   const auto milliseconds = 
-    std::chrono::duration_cast<std::chrono::milliseconds>(duration);
+    std::chrono::duration_cast<std::chrono::milliseconds>(
+      std::chrono::round<std::chrono::microseconds>(duration));
   const auto max = (1 << KeyEvent::value_bits) - 1;
   return static_cast<KeyEvent::value_t>(std::clamp(
     static_cast<int>(milliseconds.count()),
-- 
2.43.0


From dd398d03ccdadb07ce897c97ba797ad8bea81bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:23:57 +0000
Subject: [PATCH 16/47] fix: do not restart a time limit by the repeats of a
 held key

After the time of a mapping like 'A !250ms B >> C' had passed, the repeats of A
were held back again. When A was released then another A was output later.
---
 src/runtime/Stage.cpp | 19 +++++++++++++++----
 src/runtime/Stage.h   |  2 +-
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/runtime/Stage.cpp b/src/runtime/Stage.cpp
index 78b48d0..a8fac45 100644
--- a/src/runtime/Stage.cpp
+++ b/src/runtime/Stage.cpp
@@ -392,7 +392,7 @@ const KeySequence* Stage::find_output(const Context& context, int output_index)
 
 auto Stage::match_input(bool first_iteration, 
     ConstKeySequenceRange sequence, int device_index, 
-    bool is_key_up_event) -> MatchInputResult {
+    bool is_key_up_event, bool* ignored_key_repeat) -> MatchInputResult {
 
   for (auto context_index : m_active_contexts) {
     const auto& context = m_contexts[context_index];
@@ -426,6 +426,13 @@ auto Stage::match_input(bool first_iteration,
       if (accept_might_match && result == MatchResult::might_match) {
         
         if (input_timeout_event.key == Key::timeout) {
+          // a repeat does not restart a timeout which outlasts the key
+          if (ignored_key_repeat &&
+              !cancel_timeout_on_up(input_timeout_event.state)) {
+            *ignored_key_repeat = true;
+            continue;
+          }
+
           // request client to inject timeout event
           m_output_buffer.push_back(input_timeout_event);
 
@@ -486,6 +493,7 @@ void Stage::apply_input(const KeyEvent event, int device_index) {
     }
   }
 
+  auto is_key_repeat = false;
   if (event.state == KeyState::Down) {
     // merge key repeats
     const auto it = rfind_key(m_sequence, event.key);
@@ -503,6 +511,7 @@ void Stage::apply_input(const KeyEvent event, int device_index) {
           return;
       }
       m_sequence.erase(it);
+      is_key_repeat = true;
     }
     else {
       // not a repeat, store pressed device index
@@ -565,8 +574,10 @@ void Stage::apply_input(const KeyEvent event, int device_index) {
   while (has_non_optional(m_sequence)) {
     // find first mapping which matches or might match sequence
     auto sequence = ConstKeySequenceRange(m_sequence);
+    auto ignored_key_repeat = false;
     auto [result, output, trigger, context_index] = match_input(
-      true, sequence, device_index, is_key_up_event);
+      true, sequence, device_index, is_key_up_event,
+      (is_key_repeat ? &ignored_key_repeat : nullptr));
 
     // virtual key events need to match directly or never
     if (is_virtual_key(event.key) &&
@@ -592,7 +603,7 @@ void Stage::apply_input(const KeyEvent event, int device_index) {
           break;
 
         std::tie(result, output, trigger, context_index) = 
-          match_input(false, sequence, device_index, is_key_up_event);
+          match_input(false, sequence, device_index, is_key_up_event, nullptr);
         if (result == MatchResult::match) {
           matched_start_only = true;
           break;
@@ -614,7 +625,7 @@ void Stage::apply_input(const KeyEvent event, int device_index) {
           }
         }
       }
-      else if (result == MatchResult::no_match) {
+      else if (result == MatchResult::no_match && !ignored_key_repeat) {
         m_current_timeout->matched_output = nullptr;
       }
     }
diff --git a/src/runtime/Stage.h b/src/runtime/Stage.h
index 200daf0..958437e 100644
--- a/src/runtime/Stage.h
+++ b/src/runtime/Stage.h
@@ -64,7 +64,7 @@ private:
   bool device_matches_filter(const Context& context, int device_index) const;
   MatchInputResult match_input(bool first_iteration, 
     ConstKeySequenceRange sequence, int device_index, 
-    bool is_key_up_event);
+    bool is_key_up_event, bool* ignored_key_repeat);
   bool is_physically_pressed(Key key) const;
   void apply_input(KeyEvent event, int device_index);
   void release_triggered(Key key, int context_index = -1);
-- 
2.43.0


From e5ccb3385508aae57becabde1c89e838dbadfee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:30:02 +0000
Subject: [PATCH 17/47] fix: keep the current configuration when selecting
 another one fails

When switching back to a previously loaded file which meanwhile became invalid,
the client used its old content while keymapperd kept using the current one.
---
 src/client/ClientState.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/client/ClientState.cpp b/src/client/ClientState.cpp
index c526f80..6f7d7da 100644
--- a/src/client/ClientState.cpp
+++ b/src/client/ClientState.cpp
@@ -116,7 +116,12 @@ bool ClientState::load_config(std::filesystem::path filename) {
   else {
     // swap with previously loaded file
     std::swap(*it, m_config_file);
-    return m_config_file.update(false);
+    if (m_config_file.update(false))
+      return true;
+
+    // keep current file on failure
+    std::swap(*it, m_config_file);
+    return false;
   }
 }
 
-- 
2.43.0


From 6b3a644e3d128d61752ffa1027bf56686ca079b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:30:29 +0000
Subject: [PATCH 18/47] fix: detect configuration being saved again within a
 second

The modification time was only compared with a resolution of seconds, so the
last of multiple quick saves could be missed.
---
 src/client/ConfigFile.cpp | 20 +++++++++++++-------
 src/client/ConfigFile.h   |  3 ++-
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/client/ConfigFile.cpp b/src/client/ConfigFile.cpp
index 7a2da0c..caf0a17 100644
--- a/src/client/ConfigFile.cpp
+++ b/src/client/ConfigFile.cpp
@@ -32,24 +32,30 @@ namespace {
 #include <sys/stat.h>
 
 namespace {
-  std::time_t get_modify_time(const std::string& filename) {
+  std::int64_t get_modify_time(const std::string& filename) {
     using stat_t = struct stat;
     auto st = stat_t{ };
-    if (::stat(filename.c_str(), &st) == 0)
-      return st.st_mtime;
-    return { };
+    if (::stat(filename.c_str(), &st) != 0)
+      return { };
+    // a file can be modified more than once within a second
+#if defined(__APPLE__)
+    const auto& time = st.st_mtimespec;
+#else
+    const auto& time = st.st_mtim;
+#endif
+    return std::int64_t{ time.tv_sec } * 1'000'000'000 + time.tv_nsec;
   }
 } // namespace
 
 #endif // !defined(_WIN32)
 
 namespace {
-  std::time_t get_latest_modify_time(const std::filesystem::path& filename, 
+  std::int64_t get_latest_modify_time(const std::filesystem::path& filename, 
       const std::vector<std::filesystem::path>& include_filenames) {
-    auto time = get_modify_time(filename);
+    auto time = std::int64_t{ get_modify_time(filename) };
     if (time)
       for (const auto& include_filename : include_filenames)
-        if (const auto include_time = get_modify_time(include_filename))
+        if (const auto include_time = std::int64_t{ get_modify_time(include_filename) })
           time = std::max(time, include_time);
     return time;
   }
diff --git a/src/client/ConfigFile.h b/src/client/ConfigFile.h
index 5c70678..a695bd6 100644
--- a/src/client/ConfigFile.h
+++ b/src/client/ConfigFile.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "config/Config.h"
+#include <cstdint>
 #include <ctime>
 #include <string>
 #include <filesystem>
@@ -15,6 +16,6 @@ public:
 
 private:
   std::filesystem::path m_filename;
-  std::time_t m_modify_time{ -1 };
+  std::int64_t m_modify_time{ -1 };
   Config m_config;
 };
-- 
2.43.0


From d5192af3b078a2bfae7df85026d7a010dd1d254f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:30:57 +0000
Subject: [PATCH 19/47] fix: detect correction of an included file after an
 invalid update

When the configuration became invalid because of a newly included file, then
correcting that file did not cause an update.
---
 src/client/ConfigFile.cpp | 4 +++-
 src/config/ParseConfig.h  | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/client/ConfigFile.cpp b/src/client/ConfigFile.cpp
index caf0a17..70d35de 100644
--- a/src/client/ConfigFile.cpp
+++ b/src/client/ConfigFile.cpp
@@ -74,6 +74,7 @@ bool ConfigFile::update(bool check_modified) {
       modify_time == m_modify_time)
     return false;
   m_modify_time = modify_time;
+  auto parse = ParseConfig();
   try {
     // do not reload too quickly after a modification was detected
     // at least saving with gedit resulted in reading and empty configuration
@@ -82,7 +83,6 @@ bool ConfigFile::update(bool check_modified) {
   
     auto is = std::ifstream(m_filename);
     if (is.good()) {
-      auto parse = ParseConfig();
       m_config = parse(is, m_filename.parent_path());
       return true;
     }
@@ -92,6 +92,8 @@ bool ConfigFile::update(bool check_modified) {
   }
   catch (const std::exception& ex) {
     error("%s", ex.what());
+    // the invalid configuration can be corrected in a file it includes
+    m_config.include_filenames = parse.include_filenames();
   }
   return false;
 }
diff --git a/src/config/ParseConfig.h b/src/config/ParseConfig.h
index 50eac3e..d77ddc3 100644
--- a/src/config/ParseConfig.h
+++ b/src/config/ParseConfig.h
@@ -16,6 +16,10 @@ public:
   Config operator()(std::istream& is,
     const std::filesystem::path& base_path = { });
 
+  const std::vector<std::filesystem::path>& include_filenames() const {
+    return m_config.include_filenames;
+  }
+
 private:
   struct Command {
     std::string name;
-- 
2.43.0


From f7bfe4d958f7fd52a2e2a16ff03d82cfbccd7ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:44:28 +0000
Subject: [PATCH 20/47] fix: do not grab own forward devices of devices with
 long names

---
 src/server/unix/VirtualDevicesLinux.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server/unix/VirtualDevicesLinux.cpp b/src/server/unix/VirtualDevicesLinux.cpp
index 83400e7..2642008 100644
--- a/src/server/unix/VirtualDevicesLinux.cpp
+++ b/src/server/unix/VirtualDevicesLinux.cpp
@@ -14,7 +14,9 @@
 
 namespace {
   std::string get_forward_device_name(const std::string& device_name) {
-    return device_name + "; " + VirtualDevices::name;
+    // shorten so the suffix, by which virtual devices are recognized, is never cut off
+    const auto suffix = std::string("; ") + VirtualDevices::name;
+    return device_name.substr(0, UINPUT_MAX_NAME_SIZE - 1 - suffix.size()) + suffix;
   }
 
   int open_uinput_device() {
-- 
2.43.0


From b957f4e1ad48da72836c5e05da34cdd1bf4a797e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:44:40 +0000
Subject: [PATCH 21/47] fix: update devices also when their ids become
 available

---
 src/server/unix/GrabbedDevicesLinux.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/server/unix/GrabbedDevicesLinux.cpp b/src/server/unix/GrabbedDevicesLinux.cpp
index fdfda33..ba430a5 100644
--- a/src/server/unix/GrabbedDevicesLinux.cpp
+++ b/src/server/unix/GrabbedDevicesLinux.cpp
@@ -271,6 +271,10 @@ namespace {
         ::close(fd);
         fd = -1;
       }
+      else {
+        // the links containing the device ids are created after the devices
+        ::inotify_add_watch(fd, "/dev/input/by-id", IN_CREATE | IN_DELETE);
+      }
     }
     return fd;
   }
-- 
2.43.0


From 000693af358f62909a569ad2f08a79c492bc74d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:02:57 +0000
Subject: [PATCH 22/47] fix: do not send state of unknown virtual keys to the
 server

keymapperctl --press with a name which is not a virtual key
let the server process an event without a key.
---
 src/client/ControlPort.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/ControlPort.cpp b/src/client/ControlPort.cpp
index af84034..4509b53 100644
--- a/src/client/ControlPort.cpp
+++ b/src/client/ControlPort.cpp
@@ -161,7 +161,8 @@ bool ControlPort::read_messages(Connection& connection,
         case MessageType::set_virtual_key_state: {
           const auto key = get_virtual_key(d.read_string());
           const auto state = d.read<KeyState>();
-          handler.on_set_virtual_key_state_message(key, state);
+          if (key != Key::none)
+            handler.on_set_virtual_key_state_message(key, state);
           send_virtual_key_state(connection, key);
           break;
         }
-- 
2.43.0


From 0334ee900a01804dea4ef12deb3107de6bd019b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:02:57 +0000
Subject: [PATCH 23/47] fix: do not use duration of --wait as timeout of
 following operations

---
 src/control/Settings.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/control/Settings.cpp b/src/control/Settings.cpp
index d569ad1..854dcfb 100644
--- a/src/control/Settings.cpp
+++ b/src/control/Settings.cpp
@@ -55,8 +55,8 @@ bool interpret_commandline(Settings& settings, int argc, char* argv[]) {
       if (++i >= argc)
         return false;
 
-      timeout = std::chrono::milliseconds(read_number());
-      settings.requests.push_back({ RequestType::wait, "", timeout });
+      const auto duration = std::chrono::milliseconds(read_number());
+      settings.requests.push_back({ RequestType::wait, "", duration });
     }
     else if (argument == T("--stdout")) {
       settings.requests.push_back({ RequestType::stdout_result });
-- 
2.43.0


From 003b534137795edaf5f6760f651dd90fd3e99e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:02:57 +0000
Subject: [PATCH 24/47] fix: return key_not_found when waiting for an unknown
 virtual key

---
 src/control/main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/control/main.cpp b/src/control/main.cpp
index 025638a..7ff3884 100644
--- a/src/control/main.cpp
+++ b/src/control/main.cpp
@@ -152,6 +152,9 @@ namespace {
               (request.type == RequestType::wait_released && state == KeyState::Up))
             return Result::yes;
 
+          if (state != KeyState::Down && state != KeyState::Up)
+            return Result::key_not_found;
+
           return wait_until_key_state_changed(request.string, request.timeout).result;
         }
         return result;
-- 
2.43.0


From b8207a061b99111a232bf7003d36d396c54a2790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:04:48 +0000
Subject: [PATCH 25/47] fix: do not take late replies for replies to the next
 request

When an operation of keymapperctl timed out, its reply was still sent
and then taken for the reply to the following operation.
Now every request is replied exactly once and replies to requests
which timed out are skipped.
---
 src/client/ControlPort.cpp | 12 ++++++++++++
 src/client/ControlPort.h   |  1 +
 src/control/ClientPort.cpp | 13 ++++++++++++-
 src/control/ClientPort.h   |  1 +
 4 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/client/ControlPort.cpp b/src/client/ControlPort.cpp
index 4509b53..5d36734 100644
--- a/src/client/ControlPort.cpp
+++ b/src/client/ControlPort.cpp
@@ -50,6 +50,17 @@ void ControlPort::send_virtual_key_toggle_notification(Key key) {
     }
 }
 
+void ControlPort::end_virtual_key_toggle_notification_request(
+    Connection& connection) {
+  // every request is replied, also when the control no longer waits for it
+  if (auto control = get_control(connection)) {
+    const auto key = std::exchange(
+      control->requested_virtual_key_toggle_notification, Key::none);
+    if (key != Key::none)
+      send_virtual_key_state(connection, key);
+  }
+}
+
 auto ControlPort::get_control(const Connection& connection) -> Control* {
   const auto it = m_controls.find(connection.socket());
   return (it != m_controls.end() ? &it->second : nullptr);
@@ -152,6 +163,7 @@ bool ControlPort::read_messages(Connection& connection,
     MessageHandler& handler) {
   return connection.read_messages(Duration::zero(), 
     [&](Deserializer& d) {
+      end_virtual_key_toggle_notification_request(connection);
       switch (d.read<MessageType>()) {
         case MessageType::get_virtual_key_state: {
           send_virtual_key_state(connection, 
diff --git a/src/client/ControlPort.h b/src/client/ControlPort.h
index 84bf0a7..afacc54 100644
--- a/src/client/ControlPort.h
+++ b/src/client/ControlPort.h
@@ -43,6 +43,7 @@ private:
   bool send_virtual_key_state(Connection& connection, Key key);
   bool send_virtual_key_state(Connection& connection, Key key, KeyState state);
   void send_virtual_key_toggle_notification(Key key);
+  void end_virtual_key_toggle_notification_request(Connection& connection);
   void on_virtual_key_toggle_notification_requested(
     Connection& connection, Key key);
   void on_next_key_info_requested(Connection& connection);
diff --git a/src/control/ClientPort.cpp b/src/control/ClientPort.cpp
index 4f1b00a..3b01173 100644
--- a/src/control/ClientPort.cpp
+++ b/src/control/ClientPort.cpp
@@ -7,10 +7,12 @@ ClientPort::ClientPort()
 
 bool ClientPort::connect(std::optional<Duration> timeout) {
   m_connection = m_host.connect(timeout);
+  m_pending_replies = 0;
   return static_cast<bool>(m_connection);
 }
 
 bool ClientPort::send_get_virtual_key_state(std::string_view name) {
+  ++m_pending_replies;
   return m_connection.send_message([&](Serializer& s) {
     s.write(MessageType::get_virtual_key_state);
     s.write(name);
@@ -18,6 +20,7 @@ bool ClientPort::send_get_virtual_key_state(std::string_view name) {
 }
 
 bool ClientPort::send_set_virtual_key_state(std::string_view name, KeyState state) {
+  ++m_pending_replies;
   return m_connection.send_message([&](Serializer& s) {
     s.write(MessageType::set_virtual_key_state);
     s.write(name);
@@ -26,6 +29,7 @@ bool ClientPort::send_set_virtual_key_state(std::string_view name, KeyState stat
 }
 
 bool ClientPort::send_request_virtual_key_toggle_notification(std::string_view name) {
+  ++m_pending_replies;
   return m_connection.send_message([&](Serializer& s) {
     s.write(MessageType::request_virtual_key_toggle_notification);
     s.write(name);
@@ -33,6 +37,7 @@ bool ClientPort::send_request_virtual_key_toggle_notification(std::string_view n
 }
 
 bool ClientPort::send_set_instance_id(std::string_view id) {
+  ++m_pending_replies;
   return m_connection.send_message([&](Serializer& s) {
     s.write(MessageType::set_instance_id);
     s.write(id);
@@ -40,6 +45,7 @@ bool ClientPort::send_set_instance_id(std::string_view id) {
 }
 
 bool ClientPort::send_set_config_file(const std::string& filename) {
+  ++m_pending_replies;
   return m_connection.send_message([&](Serializer& s) {
     s.write(MessageType::set_config_file);
     s.write(filename);
@@ -53,6 +59,7 @@ bool ClientPort::send_request_next_key_info() {
 }
 
 bool ClientPort::send_inject_input(const std::string& string) {
+  ++m_pending_replies;
   return m_connection.send_message([&](Serializer& s) {
     s.write(MessageType::inject_input);
     s.write(static_cast<uint32_t>(string.size()));
@@ -61,6 +68,7 @@ bool ClientPort::send_inject_input(const std::string& string) {
 }
 
 bool ClientPort::send_inject_output(const std::string& string) {
+  ++m_pending_replies;
   return m_connection.send_message([&](Serializer& s) {
     s.write(MessageType::inject_output);
     s.write(static_cast<uint32_t>(string.size()));
@@ -69,6 +77,7 @@ bool ClientPort::send_inject_output(const std::string& string) {
 }
 
 bool ClientPort::send_type_string(const std::string& string) {
+  ++m_pending_replies;
   return m_connection.send_message([&](Serializer& s) {
     s.write(MessageType::inject_output);
     s.write(static_cast<uint32_t>(string.size() + 2));
@@ -106,7 +115,9 @@ bool ClientPort::read_virtual_key_state(std::optional<Duration> timeout,
         case MessageType::virtual_key_state: {
           d.read<Key>();
           const auto state = d.read<KeyState>();
-          result->emplace(state);
+          // ignore late replies of requests which timed out
+          if (--m_pending_replies == 0)
+            result->emplace(state);
           break;
         }
         default: 
diff --git a/src/control/ClientPort.h b/src/control/ClientPort.h
index fbfb8b0..aa023c1 100644
--- a/src/control/ClientPort.h
+++ b/src/control/ClientPort.h
@@ -30,4 +30,5 @@ private:
 
   Host m_host;
   Connection m_connection;
+  int m_pending_replies{ };
 };
-- 
2.43.0


From 1e6ae8b582929455c9a8668bc9a6d92ea8ba1aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:09:30 +0000
Subject: [PATCH 26/47] fix: do not miss a toggle which happens before waiting
 for it

keymapperctl --wait-pressed first asks for the state of the key and then
requests to be notified. A toggle in between was missed.
---
 src/client/ControlPort.cpp | 9 ++++++---
 src/client/ControlPort.h   | 2 +-
 src/control/ClientPort.cpp | 4 +++-
 src/control/ClientPort.h   | 3 ++-
 src/control/main.cpp       | 7 ++++---
 5 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/client/ControlPort.cpp b/src/client/ControlPort.cpp
index 5d36734..135c11d 100644
--- a/src/client/ControlPort.cpp
+++ b/src/client/ControlPort.cpp
@@ -98,8 +98,9 @@ bool ControlPort::send_virtual_key_state(Connection& connection, Key key) {
 }
 
 void ControlPort::on_virtual_key_toggle_notification_requested(
-    Connection& connection, Key key) {
-  if (key != Key::none) {
+    Connection& connection, Key key, KeyState current_state) {
+  // reply immediately when it was toggled in the meantime
+  if (key != Key::none && current_state == get_virtual_key_state(key)) {
     if (auto control = get_control(connection))
       control->requested_virtual_key_toggle_notification = key;
   }
@@ -179,8 +180,10 @@ bool ControlPort::read_messages(Connection& connection,
           break;
         }
         case MessageType::request_virtual_key_toggle_notification: {
+          const auto key = get_virtual_key(d.read_string());
+          const auto current_state = d.read<KeyState>();
           on_virtual_key_toggle_notification_requested(connection,
-            get_virtual_key(d.read_string()));
+            key, current_state);
           break;
         }
         case MessageType::set_instance_id: {
diff --git a/src/client/ControlPort.h b/src/client/ControlPort.h
index afacc54..d2e7d23 100644
--- a/src/client/ControlPort.h
+++ b/src/client/ControlPort.h
@@ -45,7 +45,7 @@ private:
   void send_virtual_key_toggle_notification(Key key);
   void end_virtual_key_toggle_notification_request(Connection& connection);
   void on_virtual_key_toggle_notification_requested(
-    Connection& connection, Key key);
+    Connection& connection, Key key, KeyState current_state);
   void on_next_key_info_requested(Connection& connection);
   void on_set_instance_id(Connection& connection, std::string id);
   void disconnect_by_instance_id(const std::string& id);
diff --git a/src/control/ClientPort.cpp b/src/control/ClientPort.cpp
index 3b01173..a3ee823 100644
--- a/src/control/ClientPort.cpp
+++ b/src/control/ClientPort.cpp
@@ -28,11 +28,13 @@ bool ClientPort::send_set_virtual_key_state(std::string_view name, KeyState stat
   });
 }
 
-bool ClientPort::send_request_virtual_key_toggle_notification(std::string_view name) {
+bool ClientPort::send_request_virtual_key_toggle_notification(
+    std::string_view name, KeyState current_state) {
   ++m_pending_replies;
   return m_connection.send_message([&](Serializer& s) {
     s.write(MessageType::request_virtual_key_toggle_notification);
     s.write(name);
+    s.write(current_state);
   });
 }
 
diff --git a/src/control/ClientPort.h b/src/control/ClientPort.h
index aa023c1..5a6e80c 100644
--- a/src/control/ClientPort.h
+++ b/src/control/ClientPort.h
@@ -11,7 +11,8 @@ public:
   bool connect(std::optional<Duration> timeout);
   bool send_get_virtual_key_state(std::string_view name);
   bool send_set_virtual_key_state(std::string_view name, KeyState state);
-  bool send_request_virtual_key_toggle_notification(std::string_view name);
+  bool send_request_virtual_key_toggle_notification(std::string_view name,
+    KeyState current_state);
   bool send_set_instance_id(std::string_view id);
   bool send_set_config_file(const std::string& filename);
   bool send_request_next_key_info();
diff --git a/src/control/main.cpp b/src/control/main.cpp
index 7ff3884..be0f8dc 100644
--- a/src/control/main.cpp
+++ b/src/control/main.cpp
@@ -47,8 +47,8 @@ namespace {
   }
 
   SendResult wait_until_key_state_changed(std::string_view key, 
-      std::optional<Duration>timeout) {
-    if (!g_client.send_request_virtual_key_toggle_notification(key))
+      KeyState current_state, std::optional<Duration>timeout) {
+    if (!g_client.send_request_virtual_key_toggle_notification(key, current_state))
       return { Result::connection_failed };
     return read_virtual_key_state(timeout);
   }
@@ -155,7 +155,8 @@ namespace {
           if (state != KeyState::Down && state != KeyState::Up)
             return Result::key_not_found;
 
-          return wait_until_key_state_changed(request.string, request.timeout).result;
+          return wait_until_key_state_changed(request.string, *state,
+            request.timeout).result;
         }
         return result;
       }
-- 
2.43.0


From 7415387c21a98ee28dea85e69cc12ee13f3be9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:15:30 +0000
Subject: [PATCH 27/47] fix: do not wait forever for the version of a
 connecting program

A program which connected but did not send anything, e.g. because it was
stopped at this moment, blocked keymapper and keymapperd.
---
 src/common/Host.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/common/Host.cpp b/src/common/Host.cpp
index 0634321..21b1f81 100644
--- a/src/common/Host.cpp
+++ b/src/common/Host.cpp
@@ -55,6 +55,12 @@ void make_non_blocking(Socket socket_fd) {
 void make_non_inheritable(Socket) {
 }
 
+void set_receive_timeout(Socket socket_fd, std::chrono::seconds timeout) {
+  const auto milliseconds = static_cast<DWORD>(timeout.count() * 1000);
+  ::setsockopt(socket_fd, SOL_SOCKET, SO_RCVTIMEO,
+    reinterpret_cast<const char*>(&milliseconds), sizeof(milliseconds));
+}
+
 #else // !defined(_WIN32)
 
 #include <csignal>
@@ -104,6 +110,13 @@ void make_non_inheritable(Socket socket_fd) {
   ::fcntl(socket_fd, F_SETFD, FD_CLOEXEC);
 }
 
+void set_receive_timeout(Socket socket_fd, std::chrono::seconds timeout) {
+  const auto timeoutval = timeval{ 
+    static_cast<decltype(timeval::tv_sec)>(timeout.count()), 0 };
+  ::setsockopt(socket_fd, SOL_SOCKET, SO_RCVTIMEO,
+    &timeoutval, sizeof(timeoutval));
+}
+
 #endif // !defined(_WIN32)
 
 Host::~Host() {
@@ -155,6 +168,9 @@ Connection Host::accept(std::optional<Duration> timeout) {
   make_non_inheritable(socket_fd);
   auto connection = Connection(socket_fd);
 
+  // do not wait forever for a client which does not send its version
+  set_receive_timeout(socket_fd, std::chrono::seconds(1));
+
   // check if client version matches own
   auto version_hash = size_t{ };
   if (!connection.read(&version_hash))
-- 
2.43.0


From bbaafdda868f2c186d27afaccc52a76b177ba573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:16:53 +0000
Subject: [PATCH 28/47] fix: do not wait forever for a peer which no longer
 reads

When keymapper was stopped, the buffer of its connection became full and
keymapperd waited in sending a message, while all devices were grabbed.
---
 src/common/Connection.cpp | 12 +++++++++++-
 src/common/Connection.h   |  2 ++
 src/common/Host.cpp       |  1 +
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/common/Connection.cpp b/src/common/Connection.cpp
index 2470291..61e89a2 100644
--- a/src/common/Connection.cpp
+++ b/src/common/Connection.cpp
@@ -6,6 +6,7 @@
 #include "common/windows/win.h"
 #include <winsock2.h>
 #define close closesocket
+#define SHUT_RDWR SD_BOTH
 
 #else // !defined(_WIN32)
 
@@ -47,6 +48,7 @@ Connection::Connection(Socket socket)
 
 Connection::Connection(Connection&& rhs) noexcept
   : m_socket_fd(std::exchange(rhs.m_socket_fd, invalid_socket)),
+    m_send_timeout(rhs.m_send_timeout),
     m_serializer(std::move(rhs.m_serializer)),
     m_deserializer(std::move(rhs.m_deserializer)) {
 }
@@ -54,6 +56,7 @@ Connection::Connection(Connection&& rhs) noexcept
 Connection& Connection::operator=(Connection&& rhs) noexcept {
   auto tmp = std::move(rhs);
   std::swap(m_socket_fd, tmp.m_socket_fd);
+  std::swap(m_send_timeout, tmp.m_send_timeout);
   std::swap(m_serializer, tmp.m_serializer);
   std::swap(m_deserializer, tmp.m_deserializer);
   return *this;
@@ -77,11 +80,18 @@ bool Connection::wait_for_message(std::optional<Duration> timeout) {
 }
 
 bool Connection::send(const char* buffer, size_t length) {
+  const auto started_at = Clock::now();
   while (length != 0) {
     const auto result = ::send(m_socket_fd, buffer,
       static_cast<int>(length), 0);
-    if (result == -1 && (errno == EINTR || errno == EWOULDBLOCK))
+    if (result == -1 && (errno == EINTR || errno == EWOULDBLOCK)) {
+      // give up when the other side no longer reads
+      if (m_send_timeout && Clock::now() - started_at > *m_send_timeout) {
+        ::shutdown(m_socket_fd, SHUT_RDWR);
+        return false;
+      }
       continue;
+    }
     if (result <= 0)
       return false;
     length -= static_cast<size_t>(result);
diff --git a/src/common/Connection.h b/src/common/Connection.h
index 08bef07..a80caaa 100644
--- a/src/common/Connection.h
+++ b/src/common/Connection.h
@@ -91,6 +91,7 @@ public:
   Socket socket() const { return m_socket_fd; }
   explicit operator bool() const { return m_socket_fd != invalid_socket; }
   void disconnect();
+  void set_send_timeout(Duration timeout) { m_send_timeout = timeout; }
 
   template<typename T>
   bool send(const T& value) {
@@ -151,6 +152,7 @@ private:
   bool recv(std::vector<char>& buffer);
 
   Socket m_socket_fd{ invalid_socket };
+  std::optional<Duration> m_send_timeout;
   Serializer m_serializer;
   Deserializer m_deserializer;
 };
diff --git a/src/common/Host.cpp b/src/common/Host.cpp
index 21b1f81..124b3b1 100644
--- a/src/common/Host.cpp
+++ b/src/common/Host.cpp
@@ -186,6 +186,7 @@ Connection Host::accept(std::optional<Duration> timeout) {
     return { };
 
   make_non_blocking(socket_fd);
+  connection.set_send_timeout(std::chrono::seconds(1));
   return connection;
 }
 
-- 
2.43.0


From 516f7301d75832c503e2318fd3daf0d3813eef55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:47:23 +0000
Subject: [PATCH 29/47] fix: do not take the repeat of a held key for the next
 key

---
 src/server/ServerState.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server/ServerState.cpp b/src/server/ServerState.cpp
index 960582e..432d3f6 100644
--- a/src/server/ServerState.cpp
+++ b/src/server/ServerState.cpp
@@ -204,7 +204,8 @@ bool ServerState::translate_input(KeyEvent input, int device_index) {
   if (m_next_key_info_requested &&
       is_device_key(input.key) &&
       input.key != Key::ButtonLeft &&
-      input.state == KeyState::Down) {
+      input.state == KeyState::Down &&
+      input != m_last_key_event) {
     const auto device_desc = get_device_desc(device_index);
     m_client->send_next_key_info(input.key,
       (device_desc ? *device_desc : DeviceDesc{ 
-- 
2.43.0


From 373da2126f73f648ecae9083a107441525738f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:48:48 +0000
Subject: [PATCH 30/47] fix: also ignore repeat and release of the key reported
 as next key

---
 src/server/ServerState.cpp | 17 ++++++++++++++++-
 src/server/ServerState.h   |  1 +
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/server/ServerState.cpp b/src/server/ServerState.cpp
index 432d3f6..8580275 100644
--- a/src/server/ServerState.cpp
+++ b/src/server/ServerState.cpp
@@ -200,6 +200,15 @@ bool ServerState::translate_input(KeyEvent input, int device_index) {
     return true;
   }
 
+  // also ignore repeat and release of key whose info was requested
+  const auto it = std::find(m_next_key_info_keys.begin(), 
+    m_next_key_info_keys.end(), input.key);
+  if (it != m_next_key_info_keys.end()) {
+    if (input.state == KeyState::Up)
+      m_next_key_info_keys.erase(it);
+    return true;
+  }
+
   // reply next key info
   if (m_next_key_info_requested &&
       is_device_key(input.key) &&
@@ -212,6 +221,7 @@ bool ServerState::translate_input(KeyEvent input, int device_index) {
         get_devices_error_message() 
       }));
     m_next_key_info_requested = false;
+    m_next_key_info_keys.push_back(input.key);
     return true;
   }
 
@@ -238,8 +248,13 @@ bool ServerState::translate_input(KeyEvent input, int device_index) {
 #endif
 
   // automatically insert mouse wheel Down before Up
-  if (is_mouse_wheel(input.key) && input.state == KeyState::Up)
+  if (is_mouse_wheel(input.key) && input.state == KeyState::Up) {
     translate_input({ input.key, KeyState::Down, input.value }, device_index);
+    if (!m_next_key_info_keys.empty() && m_next_key_info_keys.back() == input.key) {
+      m_next_key_info_keys.pop_back();
+      return true;
+    }
+  }
 
   if (input.key != Key::timeout)
     m_last_key_event = input;
diff --git a/src/server/ServerState.h b/src/server/ServerState.h
index cc93b39..dfb0ea1 100644
--- a/src/server/ServerState.h
+++ b/src/server/ServerState.h
@@ -69,4 +69,5 @@ private:
   bool m_cancel_timeout_on_up{ };
   std::vector<DeviceDesc> m_device_descs;
   bool m_next_key_info_requested{ };
+  std::vector<Key> m_next_key_info_keys;
 };
-- 
2.43.0


From 28d15134f96ea54ad103410abfeb8ff3af5c8c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:49:01 +0000
Subject: [PATCH 31/47] fix: forget a request for the next key when its client
 is gone

---
 src/server/ServerState.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server/ServerState.cpp b/src/server/ServerState.cpp
index 8580275..ff417dd 100644
--- a/src/server/ServerState.cpp
+++ b/src/server/ServerState.cpp
@@ -90,6 +90,8 @@ std::optional<Socket> ServerState::listen_for_client_connections() {
 }
 
 std::optional<Socket> ServerState::accept_client_connection() {
+  m_next_key_info_requested = false;
+  m_next_key_info_keys.clear();
   if (m_client->accept())
     return m_client->socket();
   error("Accepting keymapper connection failed");
-- 
2.43.0


From abfe7fb4ebb92909a5d92ca27af27bc7b4cf91cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:49:55 +0000
Subject: [PATCH 32/47] fix: recognize the repeat of a held key when other keys
 changed meanwhile

---
 src/server/ServerState.cpp | 16 +++++++++++++++-
 src/server/ServerState.h   |  1 +
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/server/ServerState.cpp b/src/server/ServerState.cpp
index ff417dd..374ee48 100644
--- a/src/server/ServerState.cpp
+++ b/src/server/ServerState.cpp
@@ -92,6 +92,7 @@ std::optional<Socket> ServerState::listen_for_client_connections() {
 std::optional<Socket> ServerState::accept_client_connection() {
   m_next_key_info_requested = false;
   m_next_key_info_keys.clear();
+  m_input_keys_down.clear();
   if (m_client->accept())
     return m_client->socket();
   error("Accepting keymapper connection failed");
@@ -202,6 +203,19 @@ bool ServerState::translate_input(KeyEvent input, int device_index) {
     return true;
   }
 
+  // keep track of keys which are held
+  auto is_key_repeat = false;
+  if (is_device_key(input.key) && !is_mouse_wheel(input.key)) {
+    const auto it = std::find(m_input_keys_down.begin(), 
+      m_input_keys_down.end(), input.key);
+    is_key_repeat = (it != m_input_keys_down.end() &&
+      input.state == KeyState::Down);
+    if (it != m_input_keys_down.end() && input.state == KeyState::Up)
+      m_input_keys_down.erase(it);
+    else if (it == m_input_keys_down.end() && input.state == KeyState::Down)
+      m_input_keys_down.push_back(input.key);
+  }
+
   // also ignore repeat and release of key whose info was requested
   const auto it = std::find(m_next_key_info_keys.begin(), 
     m_next_key_info_keys.end(), input.key);
@@ -216,7 +230,7 @@ bool ServerState::translate_input(KeyEvent input, int device_index) {
       is_device_key(input.key) &&
       input.key != Key::ButtonLeft &&
       input.state == KeyState::Down &&
-      input != m_last_key_event) {
+      !is_key_repeat) {
     const auto device_desc = get_device_desc(device_index);
     m_client->send_next_key_info(input.key,
       (device_desc ? *device_desc : DeviceDesc{ 
diff --git a/src/server/ServerState.h b/src/server/ServerState.h
index dfb0ea1..62a8174 100644
--- a/src/server/ServerState.h
+++ b/src/server/ServerState.h
@@ -70,4 +70,5 @@ private:
   std::vector<DeviceDesc> m_device_descs;
   bool m_next_key_info_requested{ };
   std::vector<Key> m_next_key_info_keys;
+  std::vector<Key> m_input_keys_down;
 };
-- 
2.43.0


From 1fc659379866def8d0c98ae33f230e0a8b902fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:51:58 +0000
Subject: [PATCH 33/47] fix: do not scale axes of devices which are forwarded
 unchanged

---
 src/server/unix/GrabbedDevicesLinux.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/server/unix/GrabbedDevicesLinux.cpp b/src/server/unix/GrabbedDevicesLinux.cpp
index ba430a5..a611cd8 100644
--- a/src/server/unix/GrabbedDevicesLinux.cpp
+++ b/src/server/unix/GrabbedDevicesLinux.cpp
@@ -119,6 +119,11 @@ namespace {
     return true;
   }
 
+  bool needs_forward_device(int fd) {
+    return (has_mouse_axes(fd) ||
+            has_uncommon_abs_axes(fd));
+  }
+
   std::string get_device_name(int fd) {
     auto name = std::array<char, 256>();
     if (::ioctl(fd, EVIOCGNAME(name.size()), name.data()) >= 0)
@@ -461,11 +466,13 @@ private:
     if (!grab_event_device(fd, true))
       return false;
 
+    // forward devices have the ranges of the device
+    const auto forward_device = needs_forward_device(fd);
     m_grabbed_devices.push_back({
       event_id,
       ::dup(fd),
-      get_device_abs_axis_range(fd, ABS_VOLUME),
-      get_device_abs_axis_range(fd, ABS_MISC),
+      (forward_device ? default_abs_range : get_device_abs_axis_range(fd, ABS_VOLUME)),
+      (forward_device ? default_abs_range : get_device_abs_axis_range(fd, ABS_MISC)),
       has_highres_wheel(fd),
     });
     return true;
@@ -549,8 +556,7 @@ private:
       });
 
       // obtain full descs of devices for which to create forward devices
-      if (has_mouse_axes(device.fd) ||
-          has_uncommon_abs_axes(device.fd)) {
+      if (needs_forward_device(device.fd)) {
         auto ext = DeviceDescLinux{ };
         ext.event_id = device.event_id;
         const auto ids = get_device_ids(device.fd);
-- 
2.43.0


From cf36e6271109a9f2d76b048dccdd5fc7f6c0537f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:52:22 +0000
Subject: [PATCH 34/47] fix: do not lose switch events of devices without
 pointer axes

---
 src/server/unix/GrabbedDevicesLinux.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server/unix/GrabbedDevicesLinux.cpp b/src/server/unix/GrabbedDevicesLinux.cpp
index a611cd8..7d969fa 100644
--- a/src/server/unix/GrabbedDevicesLinux.cpp
+++ b/src/server/unix/GrabbedDevicesLinux.cpp
@@ -121,7 +121,8 @@ namespace {
 
   bool needs_forward_device(int fd) {
     return (has_mouse_axes(fd) ||
-            has_uncommon_abs_axes(fd));
+            has_uncommon_abs_axes(fd) ||
+            has_switches(fd));
   }
 
   std::string get_device_name(int fd) {
-- 
2.43.0


From 8290d3213477d5a4251e3986ae9d7b2e4245fdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:07:42 +0000
Subject: [PATCH 35/47] fix: do not drop wheel movements while an output delay
 is pending

Turning the wheel by the same amount several times looked like a key
repeat, which is ignored while a flush or timeout is pending.
---
 src/server/ServerState.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server/ServerState.cpp b/src/server/ServerState.cpp
index 374ee48..a99c02b 100644
--- a/src/server/ServerState.cpp
+++ b/src/server/ServerState.cpp
@@ -198,6 +198,7 @@ const DeviceDesc* ServerState::get_device_desc(int device_index) const {
 bool ServerState::translate_input(KeyEvent input, int device_index) {
   // ignore key repeat while a flush or a timeout is pending
   if (input == m_last_key_event && 
+        !is_mouse_wheel(input.key) &&
         (m_flush_scheduled_at || m_timeout_start_at)) {
     verbose_debug_io(input, { }, true);
     return true;
-- 
2.43.0


From d8076762449187e06f129f46d928ec08ecb5a1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:36:19 +0000
Subject: [PATCH 36/47] fix: execute a command triggered before a reload, not
 the new one in its place

The daemon only sends the position of a triggered command, which the
client looked up in the configuration it had loaded meanwhile. Both now
also exchange which configuration is meant.
---
 src/client/ClientState.cpp | 7 +++++--
 src/client/ClientState.h   | 5 ++++-
 src/client/ServerPort.cpp  | 6 ++++--
 src/client/ServerPort.h    | 4 +++-
 src/server/ClientPort.cpp  | 3 +++
 src/server/ClientPort.h    | 1 +
 6 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/client/ClientState.cpp b/src/client/ClientState.cpp
index 6f7d7da..3f40403 100644
--- a/src/client/ClientState.cpp
+++ b/src/client/ClientState.cpp
@@ -40,8 +40,10 @@ namespace {
   }
 } // namespace
 
-void ClientState::on_execute_action_message(int triggered_action) {
-  const auto& actions = m_config_file.config().actions;
+void ClientState::on_execute_action_message(uint32_t config_id, int triggered_action) {
+  // it may have been triggered before a new configuration was received
+  m_actions.erase(m_actions.begin(), m_actions.lower_bound(config_id));
+  const auto& actions = m_actions[config_id];
   if (triggered_action >= 0 &&
       triggered_action < static_cast<int>(actions.size())) {
     const auto& action = actions[triggered_action];
@@ -142,6 +144,7 @@ bool ClientState::send_config() {
     error("Sending configuration failed");
     return false;
   }
+  m_actions[m_server.config_id()] = m_config_file.config().actions;
 
   m_control.set_virtual_key_aliases(
     m_config_file.config().virtual_key_aliases);
diff --git a/src/client/ClientState.h b/src/client/ClientState.h
index 431498d..efbd73b 100644
--- a/src/client/ClientState.h
+++ b/src/client/ClientState.h
@@ -4,6 +4,7 @@
 #include "client/ConfigFile.h"
 #include "client/ServerPort.h"
 #include "client/ControlPort.h"
+#include <map>
 
 class ClientState : public ServerPort::MessageHandler,
                     public ControlPort::MessageHandler {
@@ -32,7 +33,7 @@ public:
 
 protected:
   // server messages
-  void on_execute_action_message(int triggered_action) override;
+  void on_execute_action_message(uint32_t config_id, int triggered_action) override;
   void on_virtual_key_state_message(Key key, KeyState state) override;
   void on_next_key_info_message(Key key, DeviceDesc device) override;
 
@@ -49,6 +50,8 @@ private:
   ConfigFile m_config_file;
   std::vector<ConfigFile> m_recent_config_files;
   ServerPort m_server;
+  // actions of the configurations sent, by ascending id
+  std::map<uint32_t, std::vector<Config::Action>> m_actions;
   ControlPort m_control;
   FocusedWindow m_focused_window;
   std::vector<int> m_active_contexts;
diff --git a/src/client/ServerPort.cpp b/src/client/ServerPort.cpp
index 0a77373..454af6c 100644
--- a/src/client/ServerPort.cpp
+++ b/src/client/ServerPort.cpp
@@ -94,6 +94,7 @@ void ServerPort::disconnect() {
 bool ServerPort::send_config(const Config& config) {
   return m_connection.send_message([&](Serializer& s) {
     s.write(MessageType::configuration);
+    s.write(++m_config_id);
     write_grab_device_filters(s, config.grab_device_filters);    
     write_contexts(s, config.contexts);
     write_directives(s, config.server_directives);
@@ -147,8 +148,9 @@ bool ServerPort::read_messages(MessageHandler& handler,
     [&](Deserializer& d) {
       switch (d.read<MessageType>()) {
         case MessageType::execute_action: {
-          handler.on_execute_action_message(
-            static_cast<int>(d.read<uint32_t>()));
+          const auto config_id = d.read<uint32_t>();
+          const auto action = static_cast<int>(d.read<uint32_t>());
+          handler.on_execute_action_message(config_id, action);
           break;
         }
         case MessageType::virtual_key_state: {
diff --git a/src/client/ServerPort.h b/src/client/ServerPort.h
index 5b4a491..1669195 100644
--- a/src/client/ServerPort.h
+++ b/src/client/ServerPort.h
@@ -10,6 +10,7 @@ class ServerPort {
 public:
   ServerPort();
   Socket socket() const { return m_connection.socket(); }
+  uint32_t config_id() const { return m_config_id; }
   bool connect();
   void disconnect();
   bool send_config(const Config& config);
@@ -21,7 +22,7 @@ public:
   bool send_inject_output(const KeySequence& sequence);
 
   struct MessageHandler {
-    virtual void on_execute_action_message(int action_index) = 0;
+    virtual void on_execute_action_message(uint32_t config_id, int action_index) = 0;
     virtual void on_virtual_key_state_message(Key key, KeyState state) = 0;
     virtual void on_next_key_info_message(Key key, DeviceDesc device) = 0;
   };
@@ -30,4 +31,5 @@ public:
 private:
   Host m_host;
   Connection m_connection;
+  uint32_t m_config_id{ };
 };
diff --git a/src/server/ClientPort.cpp b/src/server/ClientPort.cpp
index ed5e02f..f479c35 100644
--- a/src/server/ClientPort.cpp
+++ b/src/server/ClientPort.cpp
@@ -133,6 +133,7 @@ bool ClientPort::send_triggered_action(int action) {
   return m_connection.send_message(
     [&](Serializer& s) {
       s.write(MessageType::execute_action);
+      s.write(m_config_id);
       s.write(static_cast<uint32_t>(action));
     });
 }
@@ -162,8 +163,10 @@ bool ClientPort::read_messages(MessageHandler& handler,
     [&](Deserializer& d) {
       switch (d.read<MessageType>()) {
         case MessageType::configuration: {
+          const auto config_id = d.read<uint32_t>();
           handler.on_grab_device_filters_message(read_grab_device_filters(d));        
           handler.on_configuration_message(read_stages(d));
+          m_config_id = config_id;
           handler.on_directives_message(read_directives(d));
           break;
         }
diff --git a/src/server/ClientPort.h b/src/server/ClientPort.h
index bacee97..643df5c 100644
--- a/src/server/ClientPort.h
+++ b/src/server/ClientPort.h
@@ -55,4 +55,5 @@ private:
   Host m_host;
   Connection m_connection;
   std::vector<int> m_active_context_indices;
+  uint32_t m_config_id{ };
 };
-- 
2.43.0


From 182eb8c4d9c618e3cc3e158f98bfad4405cd73b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:36:43 +0000
Subject: [PATCH 37/47] fix: complete pending output at once when a
 configuration is replaced

The output following another delay was kept until the next key event and
its commands were looked up in the new configuration.
---
 src/server/ServerState.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/server/ServerState.cpp b/src/server/ServerState.cpp
index a99c02b..795fad7 100644
--- a/src/server/ServerState.cpp
+++ b/src/server/ServerState.cpp
@@ -108,15 +108,16 @@ bool ServerState::read_client_messages(std::optional<Duration> timeout) {
 }
 
 void ServerState::reset_configuration(std::unique_ptr<MultiStage> stage) {
+  // complete pending output without further delays,
   // only complete releasing keys when there is no new configuration
-  if (!stage)
-    m_send_buffer.erase(
-      std::remove_if(m_send_buffer.begin(), m_send_buffer.end(),
-        [](const KeyEvent& event) { 
-          return (event.state != KeyState::Up ||
-            !is_device_key(event.key) || is_mouse_wheel(event.key));
-        }),
-      m_send_buffer.end());
+  m_send_buffer.erase(
+    std::remove_if(m_send_buffer.begin(), m_send_buffer.end(),
+      [&](const KeyEvent& event) { 
+        return (event.key == Key::timeout ||
+          (!stage && (event.state != KeyState::Up ||
+            !is_device_key(event.key) || is_mouse_wheel(event.key))));
+      }),
+    m_send_buffer.end());
 
   release_all_keys();
   flush_send_buffer();
-- 
2.43.0


From fff6ee32867cdffe1911ab770f875623928ed4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:41:34 +0000
Subject: [PATCH 38/47] fix: ignore repeats of all keys of the emergency
 combination

With two keyboards a key which was pressed first goes on repeating on its
keyboard after the next one was pressed on the other. The repeat restarted the
detection of the combination.
---
 src/runtime/Stage.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/runtime/Stage.cpp b/src/runtime/Stage.cpp
index a8fac45..d0cc5b9 100644
--- a/src/runtime/Stage.cpp
+++ b/src/runtime/Stage.cpp
@@ -324,8 +324,9 @@ void Stage::advance_exit_sequence(const KeyEvent& event) {
 
   if (event.state == KeyState::Down) {
     const auto p = m_exit_sequence_position;
-    // ignore key repeat
-    if (p > 0 && event.key == exit_sequence[p - 1])
+    // ignore key repeat (of each key, when they are on different keyboards)
+    const auto exit_begin = exit_sequence.begin();
+    if (std::find(exit_begin, exit_begin + p, event.key) != exit_begin + p)
       return;
     if (p < exit_sequence.size() && event.key == exit_sequence[p]) {
       ++m_exit_sequence_position;
-- 
2.43.0


From 2e63db66e24173e7270cfb1fa9935ce5a75425e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:06:31 +0000
Subject: [PATCH 39/47] fix: support more than 256 commands in a configuration

The keys standing for the commands ran into the range of the logical keys, so
the 257th command pressed Shift instead.
---
 src/runtime/Key.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/Key.h b/src/runtime/Key.h
index 5b65736..55fad89 100644
--- a/src/runtime/Key.h
+++ b/src/runtime/Key.h
@@ -470,10 +470,10 @@ enum class Key : uint16_t {
   last_keyboard_key  = 0xEFFF,
   first_virtual      = 0xF100,
   last_virtual       = 0xF1FF,
-  first_action       = 0xF200,
-  last_action        = 0xF2FF,
   first_logical      = 0xF300,
   last_logical       = 0xF3FF,
+  first_action       = 0xF400,
+  last_action        = 0xFFFF,
 
   first_mouse_button = ButtonLeft,
   last_mouse_button  = ButtonForward,
-- 
2.43.0


From ff027ac6ed7b12d5fbb51913b86ef92e6d2adf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:27:20 +0000
Subject: [PATCH 40/47] fix: detect a configuration file being replaced by an
 older one

Only the latest modification time of the configuration and the files it
includes was compared. Restoring an older configuration was not noticed
when one of the included files was newer.
---
 src/client/ConfigFile.cpp | 36 ++++++++++++++++++++++++------------
 src/client/ConfigFile.h   |  3 ++-
 2 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/client/ConfigFile.cpp b/src/client/ConfigFile.cpp
index 70d35de..c4d6308 100644
--- a/src/client/ConfigFile.cpp
+++ b/src/client/ConfigFile.cpp
@@ -50,30 +50,38 @@ namespace {
 #endif // !defined(_WIN32)
 
 namespace {
-  std::int64_t get_latest_modify_time(const std::filesystem::path& filename, 
-      const std::vector<std::filesystem::path>& include_filenames) {
-    auto time = std::int64_t{ get_modify_time(filename) };
-    if (time)
-      for (const auto& include_filename : include_filenames)
-        if (const auto include_time = std::int64_t{ get_modify_time(include_filename) })
-          time = std::max(time, include_time);
-    return time;
+  using ModifyTimes = std::map<std::filesystem::path, std::int64_t>;
+
+  ModifyTimes get_modify_times(const std::filesystem::path& filename,
+      const std::vector<std::filesystem::path>& include_filenames,
+      const ModifyTimes& known = { }) {
+    auto times = ModifyTimes{ };
+    const auto insert = [&](const std::filesystem::path& filename) {
+      const auto it = known.find(filename);
+      times.emplace(filename, it != known.end() ? it->second :
+        std::int64_t{ get_modify_time(filename) });
+    };
+    insert(filename);
+    for (const auto& include_filename : include_filenames)
+      insert(include_filename);
+    return times;
   }
 } // namespace
 
 bool ConfigFile::load(std::filesystem::path filename) {
   m_filename = std::move(filename);
-  m_modify_time = { -1 };
+  m_modify_times.clear();
   return update();
 }
 
 bool ConfigFile::update(bool check_modified) {
-  const auto modify_time = get_latest_modify_time(
+  // a file can also be replaced by an older one
+  const auto modify_times = get_modify_times(
     m_filename, m_config.include_filenames);
   if (check_modified && 
-      modify_time == m_modify_time)
+      modify_times == m_modify_times)
     return false;
-  m_modify_time = modify_time;
+  m_modify_times = modify_times;
   auto parse = ParseConfig();
   try {
     // do not reload too quickly after a modification was detected
@@ -84,6 +92,8 @@ bool ConfigFile::update(bool check_modified) {
     auto is = std::ifstream(m_filename);
     if (is.good()) {
       m_config = parse(is, m_filename.parent_path());
+      m_modify_times = get_modify_times(m_filename,
+        m_config.include_filenames, modify_times);
       return true;
     }
     else {
@@ -94,6 +104,8 @@ bool ConfigFile::update(bool check_modified) {
     error("%s", ex.what());
     // the invalid configuration can be corrected in a file it includes
     m_config.include_filenames = parse.include_filenames();
+    m_modify_times = get_modify_times(m_filename,
+      m_config.include_filenames, modify_times);
   }
   return false;
 }
diff --git a/src/client/ConfigFile.h b/src/client/ConfigFile.h
index a695bd6..6b377a6 100644
--- a/src/client/ConfigFile.h
+++ b/src/client/ConfigFile.h
@@ -3,6 +3,7 @@
 #include "config/Config.h"
 #include <cstdint>
 #include <ctime>
+#include <map>
 #include <string>
 #include <filesystem>
 
@@ -16,6 +17,6 @@ public:
 
 private:
   std::filesystem::path m_filename;
-  std::int64_t m_modify_time{ -1 };
+  std::map<std::filesystem::path, std::int64_t> m_modify_times;
   Config m_config;
 };
-- 
2.43.0


From 6f19560f1ed63422ad92689bb2ffa3c3dc74ba5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:27:34 +0000
Subject: [PATCH 41/47] fix: also wait for the first valid configuration to be
 saved completely

The delay before reading a modified configuration was skipped while no
valid configuration was loaded. The beginning of a file could be put in
force and the rest was not noticed with coarse modification times.
---
 src/client/ConfigFile.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/client/ConfigFile.cpp b/src/client/ConfigFile.cpp
index c4d6308..63daf3c 100644
--- a/src/client/ConfigFile.cpp
+++ b/src/client/ConfigFile.cpp
@@ -70,8 +70,7 @@ namespace {
 
 bool ConfigFile::load(std::filesystem::path filename) {
   m_filename = std::move(filename);
-  m_modify_times.clear();
-  return update();
+  return update(false);
 }
 
 bool ConfigFile::update(bool check_modified) {
@@ -86,7 +85,7 @@ bool ConfigFile::update(bool check_modified) {
   try {
     // do not reload too quickly after a modification was detected
     // at least saving with gedit resulted in reading and empty configuration
-    if (check_modified && !m_config.contexts.empty())
+    if (check_modified)
       std::this_thread::sleep_for(std::chrono::milliseconds(250));
   
     auto is = std::ifstream(m_filename);
-- 
2.43.0


From 1fd40749a1567a2509352f08a83d99facd3f04be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:16:02 +0000
Subject: [PATCH 42/47] fix: do not let the shell execute parts of
 notifications

Window titles, device names and parts of an invalid configuration are
contained in messages. Their dollar signs and backticks were interpreted
by the shell which starts notify-send, a backslash in front of a quote
ended the quoted text.
---
 src/client/unix/main.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/client/unix/main.cpp b/src/client/unix/main.cpp
index 40ff43b..d4843ee 100644
--- a/src/client/unix/main.cpp
+++ b/src/client/unix/main.cpp
@@ -42,8 +42,13 @@ namespace {
 
   void show_notification(const char* message) {
     auto escaped = std::string(message);
-    replace_all<char>(escaped, "\\", "\\\\\\");
+    replace_all<char>(escaped, "\\", "\\\\\\\\");
     replace_all<char>(escaped, "\"", "\\\"");
+#if !defined(__APPLE__)
+    // do not let the shell execute parts of the message
+    replace_all<char>(escaped, "$", "\\$");
+    replace_all<char>(escaped, "`", "\\`");
+#endif
     auto ss = std::stringstream();
 #if defined(__APPLE__)
     ss << R"(osascript -e 'display notification ")" << escaped << R"(" with title "keymapper"')";
-- 
2.43.0


From 001ad6fb74f02d7d0fb847d2ddcca5732bd73ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:43:05 +0000
Subject: [PATCH 43/47] fix: do not take a new window for the closed one which
 was focused

---
 src/client/unix/FocusedWindowWlroots.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client/unix/FocusedWindowWlroots.cpp b/src/client/unix/FocusedWindowWlroots.cpp
index fddb6d1..ab0423b 100644
--- a/src/client/unix/FocusedWindowWlroots.cpp
+++ b/src/client/unix/FocusedWindowWlroots.cpp
@@ -117,6 +117,8 @@ private:
 
   void toplevel_handle_closed(Toplevel* toplevel, zwlr_foreign_toplevel_handle_v1 *handle) {
     zwlr_foreign_toplevel_handle_v1_destroy(handle);
+    if (toplevel == m_active_toplevel)
+      m_active_toplevel = nullptr;
     delete toplevel;
   }
 };
-- 
2.43.0


From 8f9195339fa03074289a695240d5badfecf81c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:44:30 +0000
Subject: [PATCH 44/47] fix: do not activate contexts of windows which were
 focused while inactive

---
 src/client/ClientState.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/client/ClientState.cpp b/src/client/ClientState.cpp
index 3f40403..7bb8f77 100644
--- a/src/client/ClientState.cpp
+++ b/src/client/ClientState.cpp
@@ -180,9 +180,7 @@ void ClientState::clear_active_contexts() {
 }
 
 bool ClientState::update_active_contexts() {
-  if (!m_active)
-    return false;
-
+  // also keep up with the focused window while not active
   if (m_focused_window.update()) {
     verbose("Detected focused window changed:");
     verbose("  class = '%s'", m_focused_window.window_class().c_str());
@@ -193,6 +191,8 @@ bool ClientState::update_active_contexts() {
     if (!m_active_contexts.empty())
       return false;
   }
+  if (!m_active)
+    return false;
 
   m_new_active_contexts.clear();
   const auto& contexts = m_config_file.config().contexts;
-- 
2.43.0


From a61419b667fca91c8194fbae13e7e6aee9f6c56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:56:22 +0000
Subject: [PATCH 45/47] fix: show in the menu that mapping is paused after
 keymapperd was restarted

---
 src/client/unix/TrayIcon.h       | 1 +
 src/client/unix/TrayIconCocoa.mm | 2 +-
 src/client/unix/TrayIconGtk.cpp  | 2 +-
 src/client/unix/main.cpp         | 1 +
 4 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/client/unix/TrayIcon.h b/src/client/unix/TrayIcon.h
index f878cb8..07999fe 100644
--- a/src/client/unix/TrayIcon.h
+++ b/src/client/unix/TrayIcon.h
@@ -5,6 +5,7 @@
 class TrayIcon {
 public:
   struct Handler {
+    virtual bool is_active() const = 0;
     virtual void on_toggle_active() = 0;
     virtual void on_open_config() = 0;
     virtual void on_reload_config() = 0;
diff --git a/src/client/unix/TrayIconCocoa.mm b/src/client/unix/TrayIconCocoa.mm
index a72a13c..9bc5de0 100644
--- a/src/client/unix/TrayIconCocoa.mm
+++ b/src/client/unix/TrayIconCocoa.mm
@@ -90,7 +90,7 @@ public:
     [menu addItem:header];
     [menu addItem:[NSMenuItem separatorItem]];
     const auto itemActive = [menu addItemWithTitle:@"Active" action:@selector(onActiveClicked:) keyEquivalent:@"a"];
-    [itemActive setState:NSControlStateValueOn];
+    [itemActive setState:(handler->is_active() ? NSControlStateValueOn : NSControlStateValueOff)];
     [menu addItemWithTitle:@"Configuration" action:@selector(onConfigurationClicked:) keyEquivalent:@"c"];
     if (show_reload)
       [menu addItemWithTitle:@"Reload" action:@selector(onReloadClicked:) keyEquivalent:@"r"];
diff --git a/src/client/unix/TrayIconGtk.cpp b/src/client/unix/TrayIconGtk.cpp
index 8e87f4b..7d4d0e2 100644
--- a/src/client/unix/TrayIconGtk.cpp
+++ b/src/client/unix/TrayIconGtk.cpp
@@ -54,7 +54,7 @@ public:
       g_signal_connect(item, "activate", cast(callback), handler);
     };
     auto active = gtk_check_menu_item_new_with_label("Active");
-    gtk_check_menu_item_set_active(cast(active), true);
+    gtk_check_menu_item_set_active(cast(active), handler->is_active());
     append(active, callback<&Handler::on_toggle_active>);
     append(gtk_menu_item_new_with_label("Configuration"),
       callback<&Handler::on_open_config>);
diff --git a/src/client/unix/main.cpp b/src/client/unix/main.cpp
index d4843ee..74c5702 100644
--- a/src/client/unix/main.cpp
+++ b/src/client/unix/main.cpp
@@ -22,6 +22,7 @@ extern bool execute_terminal_command(const std::string& command);
 namespace {
   class ClientStateImpl final : public ClientState, public TrayIcon::Handler {
   public:
+    bool is_active() const override { return ClientState::is_active(); }
     void on_toggle_active() override;
     void on_open_config() override;
     void on_reload_config() override;
-- 
2.43.0


From 8046f67793b36e1eb75694c646d13a6de8758363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:57:25 +0000
Subject: [PATCH 46/47] fix: apply the options of a configuration selected by
 keymapperctl

---
 src/client/unix/main.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/client/unix/main.cpp b/src/client/unix/main.cpp
index 74c5702..303db11 100644
--- a/src/client/unix/main.cpp
+++ b/src/client/unix/main.cpp
@@ -30,6 +30,9 @@ namespace {
     void on_open_help() override;
     void on_open_about() override;
     void on_exit() override;
+
+  private:
+    bool on_set_config_file_message(std::string filename) override;
   };
   
   const auto system_config_path = std::filesystem::path("/etc/");
@@ -70,6 +73,13 @@ namespace {
       g_tray_icon.reset();
   }
 
+  bool ClientStateImpl::on_set_config_file_message(std::string filename) {
+    if (!ClientState::on_set_config_file_message(std::move(filename)))
+      return false;
+    update_options();
+    return true;
+  }
+
   void ClientStateImpl::on_toggle_active() {
     g_state.toggle_active();
   }
-- 
2.43.0


From f41872227e1c58b6e71b26d3d7e9076acf2cbf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:42:30 +0000
Subject: [PATCH 47/47] fix: show no notifications when they are turned off

With --no-notify or the option no-notify every notification was shown as a
message box instead, which on Linux is also a notification.
---
 src/client/unix/main.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/client/unix/main.cpp b/src/client/unix/main.cpp
index 303db11..59714a1 100644
--- a/src/client/unix/main.cpp
+++ b/src/client/unix/main.cpp
@@ -62,11 +62,15 @@ namespace {
     execute_terminal_command(ss.str());
   }
 
+  void ignore_notification(const char*) {
+  }
+
   void update_options() {
     const auto settings = apply_config_options(g_settings, g_state.config());
     g_auto_update_config = settings.auto_update_config;
     g_verbose_output = settings.verbose;
-    g_show_notification = (!settings.no_notify ? &show_notification : nullptr);
+    g_show_notification = (!settings.no_notify ?
+      &show_notification : &ignore_notification);
     if (!settings.no_tray_icon)
       g_tray_icon.initialize(&g_state, !g_auto_update_config);
     else
@@ -257,8 +261,8 @@ int main(int argc, char* argv[]) {
     return 1;
   }
   g_verbose_output = g_settings.verbose;
-  if (!g_settings.no_notify)
-    g_show_notification = &show_notification;
+  g_show_notification = (!g_settings.no_notify ?
+    &show_notification : &ignore_notification);
 
 #if defined(ENABLE_COCOA)
   extern void showMessageBoxCocoa(const char* title, const char* message);
-- 
2.43.0

