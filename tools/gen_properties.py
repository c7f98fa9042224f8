#!/usr/bin/env python3
"""Writes properties.jsonl (one JSON object per line) from the table below."""
import json, os

P = []

def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })

ST, MS, MK = "src/runtime/Stage.cpp", "src/runtime/MultiStage.cpp", "src/runtime/MatchKeySequence.cpp"
SS, SM = "src/server/ServerState.cpp", "src/server/unix/main.cpp"
GD, VD = "src/server/unix/GrabbedDevicesLinux.cpp", "src/server/unix/VirtualDevicesLinux.cpp"
SCP = "src/server/ClientPort.cpp"
CO, HO = "src/common/Connection.cpp", "src/common/Host.cpp"
COH = "src/common/Connection.h"
CS, CM, CF = "src/client/ClientState.cpp", "src/client/unix/main.cpp", "src/client/ConfigFile.cpp"
CP, SP = "src/client/ControlPort.cpp", "src/client/ServerPort.cpp"
KM, KP = "src/control/main.cpp", "src/control/ClientPort.cpp"
FW = "src/client/unix/FocusedWindowImpl.cpp"
FX = "src/client/unix/FocusedWindowX11.cpp"
FD = "src/client/unix/FocusedWindowDBus.cpp"
FL = "src/client/unix/FocusedWindowWlroots.cpp"

prop("C01", "No key stays pressed after every physical key has been released",
 "Once every physical key is released, every virtual key is off and all configured delays have elapsed, no key or button is pressed on any device the user's desktop reads from. "
 "This holds whatever was pressed before, in whatever order and on whichever devices, and whatever happened meanwhile: focus changes, configuration reloads, client loss, pausing, injected sequences. "
 "(A key held for more than five seconds while the daemon takes over or gives back its device is outside this statement, since the daemon deliberately stops waiting for its release then.)",
 ["histories", "configurations", "schedules", "fault_sequences"],
 "all configurations of the generated mapping classes (sequences, chords, modifier groups, not-keys, Any, stages, timeouts, output-on-release, virtual keys), all press/release/repeat histories over several devices, all interleavings of key events with context, configuration and control messages",
 "The unit tests feed single hand-written sequences into one mapping stage and inspect its return value; no test runs the daemon loop, the delayed output buffer, the virtual devices or a configuration change while keys are held.",
 [ST, MS, SS, SM, VD],
 [("release of output when its trigger is released", ST + ": release_triggered"),
  ("release of all output before a configuration is replaced", SS + ": reset_configuration"),
  ("same device used for press and release", VD + ": send_key_event")],
 [("keys down in output", "keys the stage has pressed and not yet released", ST), ("send buffer", "output events not written yet", SS),
  ("down keys of virtual device", "decides between press, repeat and release", VD)],
 ["key state of each simulated virtual and ungrabbed physical device as the desktop sees it"])

prop("C02", "After everything is released, past input has no influence",
 "When all physical keys are released, all virtual keys are off, no sequence is half entered and all delays and timeouts have elapsed, the system answers any further input exactly as a freshly started system with the same configuration and focused window would.",
 ["histories", "configurations", "schedules"],
 "all histories (including interrupted sequences, cancelled timeouts, context switches, configuration reloads to other files and back, client reconnects, control requests) followed by all probe inputs; mappings that explicitly match already typed history are excluded",
 "The fuzz test only asks one stage whether its own containers are empty for two fixed configurations; it never compares behaviour and never goes through the daemon.",
 [ST, MS, SS, SM],
 [("sequence and output bookkeeping is emptied on release", ST + ": apply_input"), ("timeouts and scheduled output are reset", SS + ": reset_configuration, cancel_timeout")],
 [("sequence", "input since last match", ST), ("current timeout", "timeout waiting or matched", ST), ("last key event", "used to suppress repeats", SS)],
 ["events written to virtual devices for the probe input, compared with a fresh run"])

prop("C03", "Keys without a mapping pass through unchanged, once and in order",
 "A key that takes part in no mapping reaches the desktop with exactly the press and release events that the physical device produced, each exactly once, in the original order and without added delay, and it repeats while it is held and nothing else happens. "
 "This holds on every grabbed device and while configurations, focus, virtual keys or other devices change.",
 ["histories", "inputs", "schedules", "fault_sequences"],
 "all key codes a keyboard can send, all press/repeat/release orders over several keyboards, all schedules of daemon, client and control, interrupted and short system calls",
 "Tests look at the stage's return value for a handful of keys; reading from devices, forwarding, repeat classification and writing to virtual devices are not linked into the tests.",
 [GD, VD, SM, SS, ST],
 [("forwarding of unmatched input", ST + ": forward_from_sequence"), ("reading one event at a time from every device", GD + ": read_input_event"),
  ("writing of press/repeat/release", VD + ": send_key_event")],
 [("grabbed devices", "device index of each event", GD)],
 ["events read from physical devices vs events the desktop receives"])

prop("C04", "Mapped keys produce exactly the configured output",
 "Pressing a mapped key or combination in an active context produces exactly the output configured for the first matching mapping, and nothing else: its keys go down and up in the configured order, the last ones stay down as long as the triggering key is held, and they are released with it. "
 "With several stages the output of one stage is the input of the next, and keys held back by a possibly matching combination are either consumed by the match or delivered afterwards in their original order.",
 ["configurations", "inputs", "histories", "schedules"],
 "all configurations of a class with single keys, modifier groups, chords, sequences, not-keys, output groups, output-on-release, virtual keys, command indirection and stages, over all key histories including repeats",
 "The tests check hand-picked configurations against hand-written expectations in one stage; combinations of mappings, contexts, stages and histories are unbounded.",
 [ST, MS, MK, SS, SCP, SP],
 [("matching of the input sequence", MK), ("first match in order of active contexts", ST + ": match_input"), ("application of outputs", ST + ": apply_output, update_output"),
  ("chaining of stages", MS + ": update"), ("transfer of the configuration", SP + ": write_contexts / " + SCP + ": read_contexts")],
 [("sequence", "input since last match", ST), ("active contexts", "contexts whose mappings apply", ST)],
 ["events written to virtual devices vs an independent reference model fed with the events read"])

prop("C05", "Only mappings of contexts matching window, device and modifiers apply",
 "A mapping takes effect exactly while its context is active: the focused window matches its class, title and path conditions, the event comes from a device matching its device conditions, and its modifier condition holds. "
 "Contexts that are not active never influence any output, and within a bounded time after the focused window changes the new window's contexts are in force.",
 ["configurations", "histories", "schedules"],
 "all combinations of window, device and modifier conditions, inverted and combined contexts, all focus changes relative to key events, all hotplug orders that change device numbering",
 "Context activation is computed in the client, sent over a socket and combined with device and modifier conditions in the daemon; the tests set context indices by hand in one stage.",
 [CS, ST, MS, SP, SCP, GD, FX, FD, FL, FW, "src/config/Config.h", "src/common/Filter.h"],
 [("matching of window conditions in the client", CS + ": update_active_contexts"), ("activation in the daemon", MS + ": set_active_client_contexts, " + ST + ": update_active_contexts"),
  ("device conditions", ST + ": evaluate_device_filters, device_matches_filter")],
 [("active contexts", "last sent indices", CS), ("matching device bits", "devices matching a context", ST)],
 ["output of keys mapped per context after focus changes", "differential run with inactive contexts removed"])

prop("C06", "Timed mappings are decided by the time that really elapsed",
 "A mapping requiring a key to be held, or nothing to be pressed, for a given time takes effect exactly when that time passes without interruption, and one requiring less time takes effect exactly when it does not; the held back input is otherwise delivered unchanged. "
 "A delay in an output sequence separates the events before and after it by at least that time, without reordering or losing later input.",
 ["histories", "schedules", "configurations"],
 "all arrival times of events relative to the limits, also within one scheduling quantum, all delays of the daemon's wake-up, all other traffic while a timeout or delay is pending",
 "The tests inject timeout events with made-up elapsed times; the clock, the scheduling of wake-ups and the cancellation by real events are never executed.",
 [SS, SM, ST, MK, "src/runtime/Timeout.h"],
 [("scheduling and cancellation of timeouts", SS + ": schedule_timeout, cancel_timeout, translate_input"), ("wake-up of the main loop", SM + ": main_loop"), ("delayed flush", SS + ": flush_send_buffer")],
 [("timeout start", "when the current timeout was started", SS), ("flush scheduled at", "when pending output continues", SS)],
 ["timestamps of events read from and written to devices in simulated time"])

prop("C07", "When mapping stops, the keyboard is handed back cleanly",
 "Whenever the daemon stops mapping because the client exits, crashes or disconnects, because it is told to terminate, or because a device fails, it releases every key it holds down, gives up exclusive access to every device and removes its virtual devices, all within a bounded time after the physical keys are released (at most about five seconds when one stays held). "
 "It then either terminates or waits for the next client; no key event is swallowed afterwards.",
 ["crash_points", "fault_sequences", "schedules"],
 "client or daemon stopped at every system call boundary, by exit, kill, signal or failing device operation, with any keys held and any output pending",
 "No test runs the daemon's connection loop, its signal handling or its device code.",
 [SM, SS, GD, VD, HO, CO],
 [("leaving the main loop", SM + ": main_loop, connection_loop, handle_shutdown_signal"), ("release of all keys", SS + ": reset_configuration"), ("ungrabbing", GD + ": ungrab_device"), ("destruction of virtual devices", VD)],
 [("shutdown flag", "set by signal or exit combination", SM)],
 ["grab state of each device, existence and key state of virtual devices, delivery of later key presses to the desktop"])

prop("C08", "The emergency key combination always stops the daemon",
 "Pressing left Shift, Escape and K in this order while holding them terminates the daemon and gives the devices back, within a bounded time after the keys are released, regardless of the configuration, the active contexts, pausing, pending timeouts and delays, and the state of the client. No other sequence of keys does.",
 ["configurations", "histories", "schedules", "fault_sequences"],
 "all configurations (also ones that map or swallow the three keys, several stages, timeouts), any keys held before, key repeats in between, client alive, stalled or gone",
 "One unit test checks a flag of a stage for an empty configuration; that the daemon really ends and returns the devices is not tested.",
 [ST, MS, SS, SM],
 [("recognition on raw input of the first stage", ST + ": advance_exit_sequence"), ("shutdown", SS + ": translate_input, " + SM + ": on_exit_requested")],
 [("exit sequence position", "keys of the combination already pressed", ST)],
 ["termination of the daemon process, grab state of devices"])

prop("C09", "Mapping resumes after any process was restarted",
 "After the daemon or the client crashes, is killed or is restarted at any moment, the surviving client reconnects by itself and, within a bounded time after both are running again, the current configuration and window context are in force and keys are mapped as before. "
 "A client that had an established connection never gives up because the daemon went away.",
 ["crash_points", "schedules", "fault_sequences"],
 "crash of either process at every system call boundary outside of the connection handshake, repeated restarts in any order, with control requests and key events going on",
 "Nothing in the tests starts the processes, opens a socket or reconnects.",
 [CM, CS, HO, CO, SM, SCP, CP],
 [("retrying connect", HO + ": connect"), ("connection loops", CM + ": connection_loop, " + SM + ": connection_loop"), ("re-sending configuration and contexts", CS + ": send_config")],
 [],
 ["mapped output of a probe key after the last restart, liveness of the client process"])

prop("C10", "The last valid saved configuration is in force; an invalid one never is",
 "With automatic update, on request of the user or when another file is selected, the configuration in force becomes the last valid content saved, within a bounded time after saving, no matter how the file was written (in place within a fifth of a second, or replaced by another file) and which of the documented places it was found in. "
 "An invalid, unreadable or half-written file never replaces the working configuration, and daemon and client always use the same one.",
 ["histories", "schedules", "fault_sequences"],
 "all sequences of saves (atomic replace, truncate and write in pieces, several saves within one second, deletion and re-creation, changes of included files), valid and invalid contents, selection of other files, key events at any time in between",
 "Tests parse strings; file watching, switching files, sending and resetting are never executed.",
 [CF, CS, CM, SP, SCP, SS],
 [("modification detection", CF + ": update, get_latest_modify_time"), ("keeping the old configuration on errors", CF + ": update"), ("switching files", CS + ": load_config"), ("sending", CS + ": send_config")],
 [("modify time", "last seen modification", CF), ("recent config files", "previously loaded files", CS)],
 ["mapped output of probe keys that tell the configurations apart, executed commands"])

prop("C11", "Each triggered terminal command is executed exactly once",
 "Every time a mapping with a terminal command is triggered, exactly that command is executed exactly once, in the order of the triggers, and no command is ever executed without its trigger. "
 "Key repeat, releases, focus changes, other connections and configuration updates neither lose, duplicate nor exchange commands while the connection is up.",
 ["histories", "schedules", "configurations"],
 "all trigger histories, all interleavings of triggers with message delivery, child exits, context and configuration updates, fragmentation of messages",
 "The tests only see an action key in the output of a stage; sending, indexing and executing are not covered.",
 [SS, SCP, SP, CS, CM, "src/config/ParseConfig.cpp"],
 [("action messages", SCP + ": send_triggered_action, " + SP + ": read_messages"), ("lookup and execution", CS + ": on_execute_action_message, " + CM + ": execute_terminal_command")],
 [("actions", "commands of the current configuration", "src/config/Config.h")],
 ["exec calls of simulated children of the client"])

prop("C12", "Virtual key state is consistent between daemon and control",
 "After the exchange of messages has settled, the pressed state of every virtual key reported by the control program equals the state the daemon uses for mapping, for every virtual key and alias. "
 "Press, release and toggle requests and mappings toggling virtual keys take effect exactly once each, and the state is off again after a configuration change.",
 ["histories", "schedules", "inputs"],
 "all virtual keys, all orders of control requests from several control programs, key-triggered toggles, configuration reloads and reconnects",
 "The tests cover toggling inside the daemon state with a stub client; the state kept by the client, the control connections and their interplay are not linked.",
 [SS, CP, CS, SCP, SP, "src/client/ControlPort.h"],
 [("state kept by the daemon and notification", SS + ": set_virtual_key_state"), ("state kept by the client", CP + ": on_virtual_key_state_changed"), ("reset", CP + ": reset, " + SS + ": reset_configuration")],
 [("virtual keys down (daemon)", "state used for mapping", SS), ("virtual keys down (client)", "state reported to control", "src/client/ControlPort.h")],
 ["exit codes of simulated control programs vs behaviour of keys mapped with the virtual key"])

prop("C13", "The control program's result tells what really happened",
 "Each request of the control program ends with the documented result for that very request: the state asked for, success of a wait only after the awaited change, not-found for unknown names, a timeout only after the given time has passed and never when none was given, and connection failure only when the connection is gone. "
 "Requests of concurrently running control programs do not influence each other's results, and a control program with an instance id replaces the previous one with the same id.",
 ["histories", "schedules", "inputs", "fault_sequences"],
 "all request lists, several control programs at once, all fragmentations of requests and replies, all delays of the client, toggles at any moment between the messages of a request",
 "No test links the control program or the client's control port.",
 [KM, KP, CP, COH, CO, HO],
 [("request and reply", KM + ": make_request, " + CP + ": read_messages"), ("notification of toggles", CP + ": send_virtual_key_toggle_notification"), ("instance ids", CP + ": on_set_instance_id"), ("waiting for messages", COH + ": read_messages")],
 [("controls", "connected control programs", CP)],
 ["exit code, end time and standard output of simulated control programs"])

prop("C14", "Injected sequences are output completely, in order and end released",
 "A key sequence or string passed to the control program for injection is processed exactly once, completely and in order: as input it is mapped like typed keys, as output it is sent unmapped, with its delays respected. "
 "All keys it pressed are released at its end, other held keys are unaffected, and a malformed sequence is reported and has no effect.",
 ["inputs", "histories", "schedules"],
 "all sequences and strings of the generated classes, injected at any time relative to typed keys, pending delays, other injections and message fragmentation",
 "One test injects into the daemon state directly; parsing, completion, transport and flushing are not covered.",
 [CS, CP, SS, SP, SCP, KP, SM],
 [("completion of the sequence", CS + ": ensure_all_keys_up"), ("injection", SS + ": on_inject_input_message, on_inject_output_message")],
 [("send buffer", "output events not written yet", SS)],
 ["events written to virtual devices after an injection"])

prop("C15", "Messages between the programs survive any fragmentation of the stream",
 "Whatever sequence of messages one program sends to another, the receiver acts on exactly these messages, complete, unmodified and in order, no matter how the byte stream is split, delayed or interrupted and how large a message is. "
 "The visible behaviour therefore does not depend on how transfers are cut into pieces.",
 ["schedules", "fault_sequences", "inputs"],
 "all splits of sends and receives down to single bytes, interrupted calls, full buffers, message sizes from empty to several hundred kilobytes, bursts of messages",
 "The transport classes are not linked into the tests at all.",
 [CO, COH, HO, SCP, SP, CP, KP],
 [("length prefixed messages", COH + ": send_message, read_messages"), ("partial transfers", CO + ": send, recv")],
 [("receive buffer", "bytes of incomplete messages", COH)],
 ["behaviour of the whole system compared between fragmented and unfragmented runs of the same workload"])

prop("C16", "Exactly the intended devices are grabbed, also when plugging",
 "While a client is connected the daemon has exclusive access to exactly the devices that the configuration's device directives and the default rules select, never to its own virtual devices, and does not take a device over while one of its keys is held (unless for more than five seconds). "
 "A device plugged in at any moment is picked up and an unplugged one given up within a bounded time, without disturbing other devices, and every event is attributed to the device that sent it.",
 ["histories", "schedules", "configurations", "fault_sequences"],
 "all sets of devices (keyboards, mice, tablets, switches, other), directives with names, ids, regular expressions and negation, plug and unplug at every point of the daemon's scan, failing opens and grabs",
 "Device enumeration and grabbing are not linked into the tests.",
 [GD, VD, SM, "src/common/Filter.h"],
 [("scan after resetting the monitor", GD + ": update"), ("selection", GD + ": is_grabbed_by_default, evaluate_grab_filters"), ("recognition of own devices", GD + ": is_virtual_device")],
 [("grabbed devices", "open grabbed devices", GD), ("devices changed", "rescan needed", GD)],
 ["grab state of every simulated device", "device specific mappings after plugging"])

prop("C17", "Next-key information is delivered once and swallows exactly one press",
 "After the information about the next key is requested, the next key pressed on a grabbed device is reported exactly once to every waiting requester, with the right key, device and focused window, and neither its press nor its repeats and release are forwarded or mapped. "
 "The repeat of a key which was already held is no press. All other key events are processed normally, and nothing is swallowed when nothing was requested.",
 ["histories", "schedules"],
 "requests by several control programs and the tray menu at any time relative to key events, requesters that time out or disappear",
 "Only the stage is tested; the request path crosses three processes.",
 [SS, SCP, CS, CP, KM],
 [("request flag", SS + ": on_request_next_key_info_message, translate_input"), ("reply", CP + ": reply_next_key_info")],
 [("next key info requested", "swallow and report the next press", SS)],
 ["standard output of control programs, notifications, events written to virtual devices"])

prop("C18", "Commands started by the client never hold up the client or the system",
 "Programs started by mappings may run for any time and end in any order, and notifications may be shown at any time, without stopping the client from reacting to focus changes, configuration changes, control requests and further commands within a bounded time. "
 "A program still running after the client ended does not keep a connection open, so that a new client can connect and be controlled, and ended programs do not pile up.",
 ["schedules", "histories", "fault_sequences"],
 "any number of children with any lifetime, child exits at every system call boundary of the client, client restart while children are running",
 "Starting processes and handling their exit is not covered by any test.",
 [CM, HO, CO],
 [("starting of programs", CM + ": execute_terminal_command"), ("reaping", CM + ": catch_child"), ("descriptors of sockets", HO + ": listen, accept, connect")],
 [],
 ["reaction time of the client, ability of a new client to connect, zombie children at the end of the run"])

prop("C19", "Pausing disables all mappings, resuming restores them",
 "While the user has paused mapping, every key passes through as if no context was active, also across configuration reloads and focus changes, and no key stays pressed because of pausing. "
 "After resuming, the mappings for the window focused at that time are in force within a bounded time. The menu shows whether mapping is paused.",
 ["histories", "schedules"],
 "pause and resume at any time relative to key events, focus changes, reloads and reconnects",
 "The client's state is not linked into the tests.",
 [CS, CM, SS, MS],
 [("toggling", CS + ": toggle_active, clear_active_contexts, update_active_contexts")],
 [("active flag", "mapping enabled", CS)],
 ["output of mapped keys while paused and after resuming"])

prop("C20", "Pointer motion, wheel and other device events are conserved",
 "Every motion, absolute axis, switch and misc event of a grabbed device (except scan codes of keys) reaches the desktop through one counterpart device with the same axis ranges and properties, unchanged, exactly once and in order relative to the buttons of that device. Wheel movement, also of a wheel mapped to another one, keeps its total in high and low resolution, for every amount up to 34 detents per event and every direction, also while delays or timeouts are pending. "
 "Buttons are released on the same device they were pressed on.",
 ["inputs", "histories", "schedules"],
 "all event values, devices with and without high resolution wheels, several pointing devices used at the same time, mapped and unmapped buttons and wheels, pending timeouts and delays, plugging while buttons are held",
 "Forwarding and wheel handling are not linked into the tests, except for wheel keys inside the daemon state.",
 [GD, VD, SM, SS],
 [("conversion to key events", GD + ": to_key_event, read_input_event"), ("forwarding", VD + ": forward_event"), ("wheel accumulation", VD + ": update_lowres_wheel")],
 [("last active mouse", "device that gets buttons and wheel", VD), ("wheel accumulators", "remainder of high resolution movement", VD)],
 ["events read from physical devices vs written to virtual devices"])

prop("C21", "Incompatible, broken or vanishing peers do no harm",
 "A program with another version is never served, and one that connects and disappears, stalls for a while, or disconnects in the middle of a message never makes the daemon or the client crash, hang or apply a part of a message. "
 "Afterwards correct programs are served as before, and if the daemon ends because of a version mismatch no device is left grabbed.",
 ["fault_sequences", "inputs", "schedules"],
 "peers connecting to the daemon's or the client's socket at any time that send any prefix of a valid conversation, a wrong version, or stop reading or writing for a bounded time",
 "The socket code is not linked into the tests.",
 [HO, CO, COH, SCP, CP, SM, CM],
 [("handshake", HO + ": accept, connect"), ("complete messages only", COH + ": read_messages")],
 [],
 ["termination state of the processes, mapped output and control results after the disturbance"])

prop("C22", "The programs rest while nothing happens",
 "Whenever no key, device, window, file or peer changes anything for a while and no timeout or delay is pending, the daemon, the client and waiting control programs sleep: they use only a small share of the time (below a fifth) and wake up only occasionally (below 200 times per second). "
 "This holds whatever happened before, also after failures, while keys are held, while the other program is gone and while requests are waiting.",
 ["histories", "schedules", "fault_sequences"],
 "all histories of the other properties (key strokes, plugging, reloading, requests, killed programs, faults), followed by a time without any event",
 "Tests only call functions; the loops which wait for devices, sockets, file changes and timeouts are not linked into them.",
 [SM, CM, GD, HO, CO, CP, SS],
 [("waiting for input", GD + ": read_input_event"), ("deadlines", SM + ": main_loop"), ("waiting for connections", HO + ": connect, accept")],
 [("device monitor", "stays readable until it is reset", GD), ("timeout and scheduled flush", "deadlines which have to be cleared", SS)],
 ["time spent waiting and number of times each program wakes up"])

prop("C23", "Trying a configuration or wrong options disturbs nothing",
 "keymapper --check ends by itself within a bounded time, whether or not keymapperd is running and whatever other options are given, with result 0 exactly if the configuration it would use (the given file or the default one, with its includes) is valid, and starting a program with unknown or incomplete options ends with an error. "
 "Neither connects to the running programs, grabs a device, changes the configuration in force, the output of keys or ends another program. Mistakes are reported by a notification, and none is shown when notifications are turned off by the option of the command line or of the configuration.",
 ["configurations", "histories", "schedules"],
 "all contents of configuration and included files (valid, invalid, missing, unreadable), combinations of options, with or without running programs, while keys are typed",
 "The main functions and the evaluation of the command line are not linked into the tests.",
 [CM, SM, "src/client/Settings.cpp", "src/client/Settings.h", "src/client/ConfigFile.cpp"],
 [("command line", "src/client/Settings.cpp: interpret_commandline"), ("check and exit", CM + ": main"), ("notifications", CM + ": update_options")],
 [],
 ["result and end of the additional process", "its connections and commands", "output of the running programs"])

prop("N01", "Configuration text is interpreted as documented",
 "Every configuration text is either rejected with an error naming the line or translated to the contexts, mappings, macros and commands the documentation describes.",
 ["programs"], "all configuration texts",
 "Tests can only list examples; however it is a pure function of the text, without time, scheduling, failures or other state.",
 ["src/config/ParseConfig.cpp", "src/config/ParseKeySequence.cpp"],
 [("parser", "src/config/ParseConfig.cpp")], (), ["result of parsing"])

prop("N02", "Strings are typed according to the active keyboard layout",
 "A string in an output is typed with the keys and modifiers that produce its characters in the keyboard layout of the desktop session.",
 ["inputs", "configurations"], "all strings and keyboard layouts",
 "The layout comes from the real desktop session (X11, Wayland, xkbcommon), which tests do not have; the translation itself is a pure function of layout and string.",
 ["src/client/unix/StringTyperXKB.cpp", "src/client/unix/StringTyperX11.cpp", "src/client/unix/StringTyperWayland.cpp"],
 [("dictionary of the layout", "src/client/unix/StringTyperXKB.cpp")], (), ["key sequence of a typed string"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
