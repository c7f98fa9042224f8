// Saving, reloading and selecting configuration files.
#include "props.h"
#include <algorithm>
#include <linux/input.h>

namespace sim {

static const char* OTHER = "/home/user/.config/other.conf";
static const char* INC = "/home/user/.config/inc.conf";
static const char* INC2 = "/home/user/.config/inc2.conf";

//---------------------------------------------------------------- C10
// A maps to a pair of keys, S executes a command and H maps to a pair in one context; all of
// them tell which content of the main file is in force. F and G do so for included files.
static std::string c10_pair(Rng& r) {
  auto a = r.range(0, (int64_t)OUTK.size() - 1), b = r.range(0, (int64_t)OUTK.size() - 1);
  return OUTK[(size_t)a] + " " + OUTK[(size_t)(a == b ? (b + 1) % (int64_t)OUTK.size() : b)];
}
// a line which makes a configuration invalid, it contains NoSuchKey
static std::string c10_mistake(Rng& r, const std::string& key) {
  if (r.chance(0.6)) return key + " >> NoSuchKey\n";
  static const char* lines[] = { "@unknown-directive", "@include \"missing.conf\"", "[title=\"Nothing\"", "J > X", "J",
    "[something=\"Nothing\"]", "J{ >> X", "J >> not_mapped", "J >> Out3", "J >> Both", ">> X", "@options everything", "J >> X{Y" };
  return lines[r.range(0, (int64_t)(sizeof(lines) / sizeof(*lines)) - 1)] + std::string(" # NoSuchKey\n");
}
static std::string c10_include(Rng& r, const char* key, bool valid) {
  std::string t = std::string(key) + " >> " + c10_pair(r) + "\n";
  if (!valid) t += c10_mistake(r, key);
  return t;
}
static std::string c10_config(Rng& r, int version, bool valid, int includes) {
  std::string t;
  if (includes & 1) t += "@include \"inc.conf\"\n";
  if (includes & 2) t += "@include \"inc2.conf\"\n";
  // nothing of what other contents defined may be left
  auto special = r.chance(0.4);
  std::string macro = special && r.chance(0.6) ? r.chance(0.5) ? "Out1" : "Out2" : "";
  if (!macro.empty()) t += macro + " = " + c10_pair(r) + "\n";
  if (special && r.chance(0.2)) t += "Out3 = X\n";
  if (special && r.chance(0.2)) t += "Both = X | Y\n";
  if (special && r.chance(0.2)) t += "@allow-unmapped-commands\n";
  if (special && r.chance(0.1)) t += "@forward-modifiers Shift\n";
  auto n = r.range(0, 3);
  for (auto i = 0; i < n; ++i) t += PLAIN[(size_t)i] + " >> $(unused" + S(version) + S(i) + ") ^\n";
  if (r.chance(0.3)) t += "\n[title=\"Nothing\"]\nB >> X\n\n[default]\n";
  t += "A >> " + (macro.empty() ? c10_pair(r) : macro) + "\n";
  t += "S >> $(ver" + S(version) + ") ^\n";
  if (!valid && r.chance(0.5)) t += c10_mistake(r, "D");
  if (r.chance(0.3)) t += "\n[class=\"nothing\"]\nB >> Y\n";
  t += "\n[title=\"Firefox\"]\nH >> " + c10_pair(r) + "\n";
  if (r.chance(0.3)) t += "\n[path=\"nothing\"]\nB >> Z\n";
  t += "\n[title=\"Terminal\"]\nH >> " + c10_pair(r) + "\n";
  if (!valid && t.find("NoSuchKey") == t.npos) t += c10_mistake(r, "D");
  if (special && r.chance(0.4)) t += "\n[system=\"Windows\"]\nA >> Z\nOut1 = Z\nOut2 = Z\n";
  else if (special && r.chance(0.3)) t += "\n@done\nA >> NoSuchKey\n[\n";
  return t;
}

// the configuration of each of the files turns automatic update on or off
static const char* c10_option(const Scenario& s, const std::string& path) {
  auto o = s.get("options");
  auto main = path == (s.get("main").empty() ? CONF : s.get("main"));
  if (o.size() != 2 || (!main && path != OTHER)) return "";
  auto c = o[main ? 0 : 1];
  return c == '1' ? "@options update\n" : c == '0' ? "@options no-update\n" : "";
}

// moves the configuration to another of the places where it is looked for
static void c10_move(Scenario& s, Rng& r) {
  auto xdg = r.chance(0.4);
  std::vector<std::string> places;
  if (xdg) { s.set("xdg", "/home/user/xdg"); places = { "/home/user/xdg/", "/home/user/xdg/keymapper/" }; }
  else places = { "/home/user/.config/", "/home/user/.config/keymapper/" };
  for (auto p : { "/etc/", "/etc/keymapper/", "/home/user/" }) places.push_back(p);
  auto given = r.chance(0.25);
  std::string main = given ? "/home/user/sub/mine.conf" : "", dir = "/home/user/sub/";
  auto place = given ? size_t{ } : (size_t)r.range(0, (int64_t)places.size() - 1);
  if (!given) { dir = places[place]; main = dir + "keymapper.conf"; }
  s.set("main", main);
  for (auto& op : s.ops) {
    if (op.name == "start" && op.args[0] == "client" && given) {
      op.args.push_back(r.chance(0.5) ? "-c" : "--config");
      op.args.push_back(r.chance(0.5) ? "sub/mine.conf" : main);
    }
    for (auto& a : op.args)
      if (a == CONF) a = main;
      else if (a == INC) a = dir + "inc.conf";
      else if (a == INC2) a = dir + "inc2.conf";
  }
  // others which do not matter
  std::vector<std::string> decoys(places.begin() + (given ? 0 : (long)place + 1), places.end());
  if (xdg) { decoys.push_back("/home/user/.config/"); decoys.push_back("/home/user/.config/keymapper/"); }
  for (auto& d : decoys)
    if (r.chance(0.4)) {
      Op op{ };
      op.name = "conf";
      op.args = { d + "keymapper.conf", "A >> " + c10_pair(r) + "\nS >> $(ver999) ^\n" };
      op.pinned = true;
      s.ops.insert(s.ops.begin(), op);
    }
}

static void gen_c10(Scenario& s, Rng& r) {
  auto automatic = r.chance(0.65);
  auto options = r.chance(0.15);
  if (options) {
    auto c = [&] { return std::string(1, "10-"[r.range(0, 2)]); };
    s.set("options", c() + c());
  }
  auto with_include = r.chance(0.4);
  auto includes = [&] { return with_include ? (r.chance(0.8) ? 1 : 0) | (r.chance(0.3) ? 2 : 0) : 0; };
  Setup u;
  auto version = 1;
  u.conf = c10_option(s, CONF) + c10_config(r, version, options || r.chance(0.93), with_include ? 1 : 0);
  if (automatic) u.client_args = { "-u" };
  u.windows = WINDOWS;
  u.focus = (int)r.range(1, 2);
  if (with_include) {
    s.pin(0, "conf", { INC, c10_include(r, "F", true) });
    if (r.chance(0.7)) s.pin(0, "conf", { INC2, c10_include(r, "G", r.chance(0.7)) });
  }
  if (r.chance(0.4)) s.pin(0, "conf", { OTHER, c10_option(s, OTHER) + c10_config(r, ++version, r.chance(0.8), 0) });
  prologue(s, r, u);
  s.set("mtime_gran", r.chance(0.5) ? 4000000 : 1);
  if (r.chance(0.4)) add_faults(s, r, FS_TIMING | (r.chance(0.3) ? FS_FRAG | FS_EINTR : 0));
  auto faulty = !s.get("fault.stall").empty() || !s.get("fault.late_wakeup").empty() || !s.get("fault.short_recv").empty() ||
    !s.get("fault.short_send").empty() || !s.get("fault.send_eagain").empty();
  auto tap = [&](int64_t gap, const char* key) {
    s.add(gap, "key", { "kb0", S(key_code(key)), "1" });
    s.add(r.range(5000, 30000), "key", { "kb0", S(key_code(key)), "0" });
  };
  auto probe = [&](int64_t gap) {
    tap(gap, "A");
    tap(60000, "S");
    tap(60000, "H");
    if (with_include) { tap(60000, "F"); tap(60000, "G"); }
    s.add(500000, "wait");
  };
  auto taps = [&](int n, int64_t gap) { for (auto i = 0; i < n; ++i) tap(gap + r.range(0, gap), r.chance(0.7) ? "A" : r.chance(0.5) ? "H" : "F"); };
  auto save = [&](int64_t gap, const char* path, std::string text) {
    text = c10_option(s, path) + text;
    if (options || r.chance(0.5)) { s.add(gap, "conf", { path, text }); return; }
    // restored with its earlier modification time
    if (r.chance(0.1)) { s.add(gap, "conf", { path, text, S(r.range(1, r.chance(0.5) ? 30 : 3000000)) }); return; }
    // truncated and written in pieces
    s.add(gap, "conf", { path, "" });
    std::vector<std::string> pieces(1);
    for (auto c : text) {
      pieces.back() += c;
      if (c == '\n' && r.chance(0.3)) pieces.emplace_back();
    }
    if (r.chance(0.3)) pieces = { text };
    auto quick = r.chance(0.5);
    for (auto& p : pieces)
      if (!p.empty()) {
        if (r.chance(0.4)) tap(quick ? 100 : 4000, "A");
        s.add(r.range(100, quick ? 1000 : 20000), "append", { path, p });
      }
  };
  probe(300000);
  auto n = r.range(1, 7);
  for (auto i = 0; i < n; ++i) {
    int64_t g = r.range(1200000, 2200000);
    auto* path = r.chance(0.75) ? CONF : OTHER;
    switch (r.range(0, 9)) {
      case 0: case 1: case 2:
        save(g, path, c10_config(r, ++version, r.chance(0.75), includes()));
        // another one shortly afterwards
        while (r.chance(0.35)) { if (r.chance(0.5)) taps((int)r.range(1, 6), 20000); save(r.range(30000, 1100000), path, c10_config(r, ++version, r.chance(0.75), includes())); }
        break;
      case 3:
        if (with_include) {
          auto second = r.chance(0.3);
          save(g, second ? INC2 : INC, c10_include(r, second ? "G" : "F", r.chance(0.7)));
          if (r.chance(0.4)) save(r.range(30000, 1100000), second ? INC2 : INC, c10_include(r, second ? "G" : "F", r.chance(0.8)));
        }
        break;
      case 4: s.add(g, "rmconf", { with_include && r.chance(0.4) ? INC : path }); if (r.chance(0.7)) s.add(r.range(1000, 900000), "conf", { path, c10_option(s, path) + c10_config(r, ++version, r.chance(0.8), includes()) }); break;
      case 5: s.add(g, "readable", { path, "0" }); s.add(r.range(1000, 500000), "conf", { path, c10_option(s, path) + c10_config(r, ++version, true, includes()) }); break;
      case 6: s.add(g, "readable", { path, "1" }); break;
      case 7: case 8: s.add(g, "tray", { "Reload" }); break;
      case 9: s.add(g, "ctl", { "--set-config", r.chance(0.6) ? OTHER : CONF }); break;
    }
    if (r.chance(0.5)) taps((int)r.range(1, 14), 30000);
    if (!automatic && r.chance(0.5)) s.add(r.range(600000, 900000), "tray", { "Reload" });
    if (r.chance(0.7)) probe(faulty ? 3200000 : 1700000);
  }
  s.pin(faulty ? 3200000 : 1700000, "wait");
  probe(100000);
  s.pin(300000, "calm", { "1" });
  s.pin(10000, "releaseall");
  s.pin(500000, "mark", { "end" });
  if (r.chance(0.12)) c10_move(s, r);
}

namespace {
struct Snap {
  std::string a, s, h, f, g;
  bool operator<(const Snap& o) const { return std::tie(a, s, h, f, g) < std::tie(o.a, o.s, o.h, o.f, o.g); }
};
struct Reader {
  std::string block;
  std::map<std::string, std::string> macros;
  bool unmapped = false, suspect = false, done = false;
};
struct FileState { bool exists = false, readable = true; std::string text; };
}

// what a configuration consisting of the files means, false when it is invalid
static bool c10_load(const std::map<std::string, FileState>& files, const std::string& path, const std::string& title,
    Snap* out, Reader* reader, std::set<std::string>* used, int level = 0) {
  used->insert(path);
  auto it = files.find(path);
  if (it == files.end() || !it->second.exists || !it->second.readable || level > 3) return false;
  std::string line;
  for (auto c : it->second.text + "\n") {
    if (c != '\n') { line += c; continue; }
    auto l = line;
    line.clear();
    if (reader->done) break;
    auto foreign = reader->block == "\x02";
    if (l == "@done" && !foreign) { reader->done = true; break; }
    if (l == "@allow-unmapped-commands" && !foreign) reader->unmapped = true;
    if (l == "[") return false;
    // unknown identifiers are names of commands, which have to be mapped
    if (l.size() > 5 && l.substr(1) == " >> NoSuchKey") { reader->suspect = true; continue; }
    if (l == "J >> not_mapped # NoSuchKey" || l == "J >> Out3 # NoSuchKey" || l == "J >> Both # NoSuchKey") {
      if (!reader->macros.count(l.substr(5, 4))) reader->suspect = true;
      continue;
    }
    if (l.find("NoSuchKey") != l.npos) return false;
    if (auto eq = l.find(" = "); eq != l.npos) {
      if (!foreign || !reader->macros.count(l.substr(0, eq))) reader->macros[l.substr(0, eq)] = l.substr(eq + 3);
      continue;
    }
    if (l.rfind("@include \"", 0) == 0) {
      if (!c10_load(files, path.substr(0, path.rfind('/') + 1) + l.substr(10, l.size() - 11), title, out, reader, used, level + 1)) return false;
      continue;
    }
    if (!l.empty() && l[0] == '[') {
      if (l.find("[title=\"") == 0) reader->block = l.substr(8, l.size() - 10);
      else reader->block = l == "[default]" ? "" : l.find("[system") == 0 ? "\x02" : "\x01";
      continue;
    }
    if (l.size() < 6 || l.substr(1, 4) != " >> ") continue;
    auto v = l.substr(5);
    if (reader->macros.count(v)) v = reader->macros[v];
    auto active = reader->block.empty() || title.find(reader->block) != title.npos;
    if (!active) continue;
    auto set = [&](std::string& k) { if (k.empty()) k = v; };
    if (l[0] == 'A') set(out->a);
    if (l[0] == 'S') set(out->s);
    if (l[0] == 'H') set(out->h);
    if (l[0] == 'F') set(out->f);
    if (l[0] == 'G') set(out->g);
  }
  return true;
}

static void check_c10(const Scenario& s, Outcome& o) {
  auto ready = mark_time("ready"), end = mark_time("end");
  if (ready < 0 || end < 0) return;
  auto requested = false, automatic = false, menu = false;
  auto update_options = [&](const std::string& path) {
    std::string option = c10_option(s, path);
    automatic = option.find("no-update") != option.npos ? false : !option.empty() ? true : requested;
  };
  auto title = std::string();
  auto faulty = false;
  for (auto& p : s.params) if (p.first.rfind("fault.", 0) == 0) faulty = true;
  auto settle = (faulty ? 3000 : 1500) * MS;

  // what may be in force, from a time on
  struct Phase { Time from; std::set<Snap> allowed; bool quiet; };
  std::vector<Phase> phases;
  std::map<std::string, FileState> files;
  const auto main = s.get("main").empty() ? std::string(CONF) : s.get("main");
  std::string selected = main;
  std::set<Snap> allowed;
  struct Tap { Time t; char key; };
  std::vector<Tap> taps;
  auto times = op_times(s);
  std::vector<std::pair<Time, std::string>> results;     // control programs and whether they have to succeed
  auto load = [&](const std::string& path, Snap* snap, std::set<std::string>* used) {
    Reader reader;
    return c10_load(files, path, title, snap, &reader, used) && (!reader.suspect || reader.unmapped);
  };
  // state of the current burst of changes
  Time burst = -1, last = -1;
  auto sure = true;
  auto blind = false;                    // the selected file could be unread since its permissions changed
  std::set<std::string> watched;         // files of the configuration in force, or of the last attempt
  auto push = [&](Time t, bool quiet) { phases.push_back({ t, allowed, quiet }); };
  std::set<Snap> halves;
  auto apply = [&](Time until) {          // ends the burst when it has settled
    if (burst < 0 || until < last + settle) return;
    Snap snap;
    std::set<std::string> used;
    auto valid = load(selected, &snap, &used);
    if (automatic && valid && sure && !blind) { allowed = { snap }; watched = used; }
    push(last + settle, allowed.size() == 1);
    burst = -1;
    sure = true;
    halves.clear();
  };
  auto ctls = 0;
  for (auto i = size_t{ }; i < s.ops.size(); ++i) {
    auto& op = s.ops[i];
    auto t = W->start + times.at[i];
    apply(t);
    if (op.name == "start" && op.args[0] == "client") {
      for (auto& a : op.args) if (a == "-u") requested = true;
      update_options(main);
      menu = !automatic;
      Snap snap;
      if (!load(selected, &snap, &watched)) {            // nothing is mapped until it is corrected
        snap = {};
        o.probes["initially_invalid"]++;
      }
      allowed = { snap };
      push(t, true);
    }
    else if (op.name == "focus") {
      auto f = atoi(op.args[0].c_str());
      if (t > W->start + SEC || f < 0 || f > 3) return;
      title = WINDOWS[(size_t)f][0];
    }
    else if (op.name == "conf" || op.name == "append" || op.name == "rmconf" || op.name == "readable") {
      auto path = op.args[0];
      if (op.name == "conf" && op.args[1].find(c10_option(s, path)) != 0) return;
      Snap before, snap;
      std::set<std::string> used_before, used;
      auto valid_before = load(selected, &before, &used_before);
      auto& f = files[path];
      if (op.name == "rmconf") f = {};
      else if (op.name == "readable") { if (f.exists) f.readable = op.args[1] != "0"; }
      else {
        f.exists = true;
        f.text = (op.name == "append" ? f.text : std::string()) + op.args[1];
      }
      if (allowed.empty()) continue;           // not started yet
      auto valid = load(selected, &snap, &used);
      if (!automatic) continue;
      if (!used.count(path) && !used_before.count(path) && !watched.count(path)) continue;
      // permissions are not watched
      if (op.name == "readable") { sure = false; blind = true; }
      else if (op.name != "rmconf" && path == selected && f.readable) blind = false;
      if (op.name == "rmconf" && path != selected) sure = false;
      if (burst < 0) burst = t;
      last = t;
      // incomplete content is not read when it is completed quickly
      auto half = false;
      for (auto j = i + 1; j < s.ops.size() && W->start + times.at[j] < t + 180 * MS; ++j)
        if (s.ops[j].name == "append" && s.ops[j].args[0] == path && t - burst < 20 * MS &&
            W->start + times.at[j] - burst < 180 * MS) half = true;
      if (valid && (!half || faulty)) allowed.insert(snap);
      (void)valid_before;
      push(t, false);
      watched.insert(used.begin(), used.end());
    }
    else if (op.name == "tray" && op.args[0] == "Reload") {
      if (t < ready) return;
      if (!menu) continue;
      if (automatic) return;
      // has to be clear what is loaded
      if (burst >= 0 && t - last < (faulty ? 1200 : 600) * MS) return;
      for (auto j = i + 1; j < s.ops.size() && W->start + times.at[j] < t + (faulty ? 1200 : 600) * MS; ++j)
        if (s.ops[j].name != "key" && s.ops[j].name != "wait" && s.ops[j].name != "mark" && s.ops[j].name != "calm" && s.ops[j].name != "releaseall") return;
      Snap snap;
      std::set<std::string> used;
      if (load(selected, &snap, &used)) {
        allowed.insert(snap);
        push(t, false);
        allowed = { snap };
        watched = used;
        sure = true;
        blind = false;
      }
      else push(t, false);
      if (burst < 0) burst = t;
      last = t;
      push(t + (faulty ? 1200 : 600) * MS, allowed.size() == 1);
    }
    else if (op.name == "ctl" && op.args[0] == "--set-config") {
      if (t < ready) return;
      if (burst >= 0 && t - last < settle) return;
      for (auto j = i + 1; j < s.ops.size() && W->start + times.at[j] < t + (faulty ? 1200 : 600) * MS; ++j)
        if (s.ops[j].name != "key" && s.ops[j].name != "wait" && s.ops[j].name != "mark" && s.ops[j].name != "calm" && s.ops[j].name != "releaseall") return;
      Snap snap;
      std::set<std::string> used;
      auto ok = load(op.args[1], &snap, &used);
      auto p = ctl_proc(ctls++);
      if (!p || !p->exited) return fail(o, "selecting a file was not answered");
      if (p->exit_code != (ok ? 0 : 1))
        return fail(o, "selecting a " + std::string(ok ? "valid" : "invalid") + " file gave result " + S(p->exit_code));
      o.probes[ok ? "selected" : "select_failed"]++;
      if (ok) {
        selected = op.args[1];
        update_options(selected);
        allowed.insert(snap);
        push(t, false);
        allowed = { snap };
        watched = used;
        blind = false;
      }
      else push(t, false);
      // also notices what was changed without being watched
      sure = true;
      push(t + (faulty ? 1200 : 600) * MS, allowed.size() == 1);
    }
    else if (op.name == "key" && op.args[2] == "1") {
      taps.push_back({ t, key_name(atoi(op.args[1].c_str()))[0] });
    }
    else if (op.name == "ctl") return;
  }
  apply(end);

  // when the client sent something the contexts may not be active yet
  std::vector<Time> sent;
  for (auto& e : W->log)
    if (e.type == R_SEND && W->procs[(size_t)e.proc]->kind == P_CLIENT) sent.push_back(e.t);
  auto transient = [&](Time t) {
    for (auto x : sent) if (x <= t + (faulty ? 100 : 5) * MS && x >= t - (faulty ? 300 : 5) * MS) return true;
    return false;
  };
  std::vector<std::pair<Time, int>> presses;
  for (auto& e : desktop_events(ready)) if (e.value == 1 && e.key != key_code("S")) presses.push_back({ e.t, e.key });
  std::vector<std::pair<Time, std::string>> execs;
  for (auto& e : W->log)
    if (e.type == R_EXEC && e.s.find("ver") == 0) execs.push_back({ e.t, e.s });
  // a key pressed in the moment in which the keyboard is grabbed can be seen twice
  for (auto& e : W->log)
    if (e.type == R_GRAB)
      for (auto& tap : taps)
        if (e.t > tap.t - (faulty ? 300 : 20) * MS && e.t < tap.t + (faulty ? 300 : 20) * MS) return;
  auto next = size_t{ };
  for (auto& tap : taps) {
    const Phase* ph = nullptr, *later = nullptr;
    for (auto& p : phases) {
      if (p.from <= tap.t) ph = &p;
      else if (!later && p.from <= tap.t + (faulty ? 300 : 20) * MS) later = &p;
    }
    if (!ph) return;
    auto allow = ph->allowed;
    if (later) allow.insert(later->allowed.begin(), later->allowed.end());
    auto quiet = ph->quiet && !later;
    auto at = " (key at " + S((tap.t - W->start) / MS) + " ms)";
    if (tap.key == 'S') {
      if (!quiet) continue;
      auto& want = ph->allowed.begin()->s;
      std::string got;
      auto count = 0;
      for (auto& e : execs) if (e.first >= tap.t && e.first < tap.t + 450 * MS) { got = "$(" + e.second + ") ^"; ++count; }
      if (want != got || count > 1)
        return fail(o, "executed '" + got + "' instead of '" + want + "'" + at);
      o.probes["commands"]++;
      continue;
    }
    std::string got;
    if (next >= presses.size()) return fail(o, "no output for " + std::string(1, tap.key) + at);
    if (presses[next].second == key_code(std::string(1, tap.key))) ++next;
    else {
      got = key_name(presses[next].second);
      if (++next < presses.size()) got += " " + key_name(presses[next].second);
      ++next;
    }
    auto ok = false;
    for (auto& a : allow) {
      auto& v = tap.key == 'A' ? a.a : tap.key == 'H' ? a.h : tap.key == 'F' ? a.f : a.g;
      if (v == got) ok = true;
    }
    if (got.empty() && transient(tap.t)) ok = true;
    if (!ok) {
      auto& a = *allow.begin();
      auto& v = tap.key == 'A' ? a.a : tap.key == 'H' ? a.h : tap.key == 'F' ? a.f : a.g;
      return fail(o, std::string(1, tap.key) + " >> '" + got + "' is in force " + (quiet ? "instead of '" : ", acceptable would be '") + v + "'" + at);
    }
    o.probes[quiet ? "settled" : "unsettled"]++;
  }
  o.probes["phases"] = phases.size();
}

//---------------------------------------------------------------- C23
// other copies of the programs are started to check a configuration or with wrong options, while
// the keyboards are mapped or nothing is running
static bool c23_extra(const Op& op) {
  if (op.name != "start") return false;
  for (auto& a : op.args) if (a == "--check" || a == "--wrong" || a == "stray" || (&a == &op.args.back() && a == "-c")) return true;
  return false;
}

static void gen_c23(Scenario& s, Rng& r) {
  Setup u;
  auto version = 1;
  u.conf = c10_config(r, version, true, 0);
  if (r.chance(0.2)) u.conf = "@options no-notify\n" + u.conf;
  else if (r.chance(0.2)) u.client_args = { "--no-notify" };
  u.windows = WINDOWS;
  u.focus = (int)r.range(1, 2);
  if (r.chance(0.7)) s.pin(0, "conf", { INC, c10_include(r, "F", true) });
  if (r.chance(0.7)) s.pin(0, "conf", { INC2, c10_include(r, "G", r.chance(0.7)) });
  prologue(s, r, u);
  auto running = r.chance(0.8);
  if (!running) {
    auto keep_daemon = r.chance(0.4);
    s.ops.erase(std::remove_if(s.ops.begin(), s.ops.end(), [&](const Op& op) {
      return op.name == "start" && (op.args[0] == "client" || !keep_daemon);
    }), s.ops.end());
  }
  if (r.chance(0.5)) add_faults(s, r, FS_TIMING | (r.chance(0.3) ? FS_FRAG | FS_EINTR : 0));
  auto tap = [&](int64_t gap, const char* key) {
    s.add(gap, "key", { "kb0", S(key_code(key)), "1" });
    s.add(r.range(5000, 30000), "key", { "kb0", S(key_code(key)), "0" });
  };
  auto n = r.range(1, 4);
  for (auto i = 0; i < n; ++i) {
    auto own = r.chance(0.3);               // the file of the running program
    auto* path = own ? CONF : OTHER;
    switch (r.range(0, 7)) {
      case 0: s.add(r.range(1000, 200000), "rmconf", { path }); break;
      case 1: s.add(r.range(1000, 200000), "readable", { path, r.chance(0.5) ? "0" : "1" }); break;
      case 2: s.add(r.range(1000, 200000), r.chance(0.3) ? "rmconf" : "conf", { INC, c10_include(r, "F", r.chance(0.7)) }); break;
      default: s.add(r.range(1000, 200000), "conf", { path, c10_config(r, ++version, r.chance(0.6), r.chance(0.4) ? (int)r.range(1, 3) : 0) }); break;
    }
    for (auto k = r.range(0, 3); k > 0; --k) tap(r.range(1000, 60000), r.chance(0.7) ? "A" : "H");
    auto held = r.chance(0.2);
    if (held) s.add(r.range(1000, 60000), "key", { "kb0", S(key_code("B")), "1" });
    std::vector<std::string> args;
    if (r.chance(0.85)) {
      args = { "client", "--check" };
      if (r.chance(0.3)) args.insert(args.begin() + r.range(1, 2), "--no-notify");
      if (r.chance(0.2)) args.insert(args.begin() + r.range(1, 2), "--no-tray");
      if (r.chance(0.2)) args.insert(args.begin() + r.range(1, 2), "-v");
      if (r.chance(0.2)) args.insert(args.begin() + r.range(1, 2), r.chance(0.5) ? "-u" : "--update");
      if (!own || r.chance(0.3)) {
        auto at = args.begin() + r.range(1, (int64_t)args.size());
        at = args.insert(at, r.chance(0.2) ? ".config/" + std::string(own ? "keymapper.conf" : "other.conf") : path);
        args.insert(at, r.chance(0.5) ? "-c" : "--config");
      }
    }
    else if (r.chance(0.5)) {
      args = { r.chance(0.7) ? "client" : "daemon" };
      if (r.chance(0.3)) args.push_back("-v");
      args.push_back(r.chance(0.5) ? "--wrong" : "stray");
    }
    else {
      args = { "client", "-c" };
    }
    s.add(r.range(1000, 200000), "start", args);
    for (auto k = r.range(0, 3); k > 0; --k) tap(r.range(100, 30000), r.chance(0.7) ? "A" : "H");
    if (held) s.add(r.range(1000, 60000), "key", { "kb0", S(key_code("B")), "0" });
    s.add(r.range(2500000, 3500000), "wait");
    if (r.chance(0.3)) { s.add(r.range(1000, 60000), "ctl", { "--set-config", "/home/user/none.conf" }); s.add(r.range(2500000, 3500000), "wait"); }
  }
  tap(r.range(1000, 60000), "A");
  tap(r.range(40000, 60000), "H");
  s.pin(300000, "calm", { "1" });
  s.pin(10000, "releaseall");
  s.pin(800000, "mark", { "end" });
}

static void check_c23(const Scenario& s, Outcome& o) {
  auto ready = mark_time("ready"), end = mark_time("end");
  if (ready < 0 || end < 0) return;
  auto faulty = false;
  for (auto& p : s.params) if (p.first.rfind("fault.", 0) == 0) faulty = true;
  auto limit = (faulty ? 2500 : 1000) * MS;
  auto times = op_times(s);
  std::map<std::string, FileState> files;
  std::string title;
  Snap running;
  auto mapped = 0;
  struct Tap { Time t; char key; };
  std::vector<Tap> taps;
  std::vector<Proc*> extras;
  std::vector<Time> mistakes;
  Proc* client = nullptr;
  auto silent = false;
  auto next_proc = size_t{ };
  for (auto i = size_t{ }; i < s.ops.size(); ++i) {
    auto& op = s.ops[i];
    auto t = W->start + times.at[i];
    auto load = [&](const std::string& path, Snap* snap) {
      Reader reader;
      std::set<std::string> used;
      return c10_load(files, path, title, snap, &reader, &used) && (!reader.suspect || reader.unmapped);
    };
    if (op.name == "conf") { auto& f = files[op.args[0]]; f.exists = true; f.text = op.args[1]; }
    else if (op.name == "rmconf") files[op.args[0]] = {};
    else if (op.name == "readable") { auto& f = files[op.args[0]]; if (f.exists) f.readable = op.args[1] != "0"; }
    else if (op.name == "focus") title = WINDOWS[(size_t)atoi(op.args[0].c_str())][0];
    else if (op.name == "key" && op.args[2] == "1") {
      auto name = key_name(atoi(op.args[1].c_str()));
      if (name == "A" || name == "H") taps.push_back({ t, name[0] });
    }
    else if (op.name == "ctl") mistakes.push_back(t);
    else if (op.name == "start") {
      // the process which was started by it
      Proc* p = nullptr;
      auto kind = op.args[0] == "daemon" ? P_DAEMON : P_CLIENT;
      while (next_proc < W->procs.size() && !p) {
        auto& q = *W->procs[next_proc++];
        if (q.kind == kind && q.args.size() == op.args.size() && q.start_time >= t) p = &q;
      }
      if (!p) return;
      if (!c23_extra(op)) {
        ++mapped;
        if (kind == P_CLIENT) {
          if (!load(CONF, &running)) return;
          client = p;
          silent = op.args.back() == "--no-notify" || files[CONF].text.rfind("@options no-notify\n", 0) == 0;
        }
        continue;
      }
      // has to be clear what is read
      for (auto j = i + 1; j < s.ops.size() && W->start + times.at[j] < t + limit; ++j) {
        auto& n = s.ops[j].name;
        if (n == "conf" || n == "rmconf" || n == "readable") return;
      }
      if (t + limit > end || t < ready) return;
      extras.push_back(p);
      auto wrong = true, quiet = false;
      std::string path = CONF, what = "keymapper";
      for (auto k = size_t{ 1 }; k < op.args.size(); ++k) {
        auto& a = op.args[k];
        what += " " + a;
        if (a == "--check") wrong = false;
        if (a == "--no-notify") quiet = true;
        if ((a == "-c" || a == "--config") && k + 1 < op.args.size()) {
          path = op.args[++k];
          what += " " + path;
          if (path[0] != '/') path = "/home/user/" + path;
        }
      }
      Snap snap;
      auto valid = !wrong && load(path, &snap);
      if (!p->exited || p->exit_time > t + limit) return fail(o, "'" + what + "' did not end");
      if (p->exit_signal) return fail(o, "'" + what + "' ended by signal " + S(p->exit_signal));
      if ((p->exit_code == 0) != valid)
        return fail(o, "'" + what + "' gave result " + S(p->exit_code) + (wrong ? " for wrong options" : valid ? " for a valid file" : " for an invalid file"));
      o.probes[wrong ? "wrong_options" : valid ? "valid" : "invalid"]++;
      for (auto& e : W->log) {
        if (e.proc != p->index) continue;
        if (e.type == R_CONNECT) return fail(o, "'" + what + "' connected to '" + e.s + "'");
        if (e.type == R_GRAB) return fail(o, "'" + what + "' grabbed a device");
      }
      for (auto& e : W->log)
        if (e.type == R_EXEC && e.a == p->index) {
          if (e.s.rfind("notify-send", 0) != 0) return fail(o, "'" + what + "' executed '" + e.s + "'");
          if (quiet) return fail(o, "'" + what + "' showed a notification");
        }
    }
  }
  // the others are not affected
  for (auto& p : W->procs)
    if ((p->kind == P_DAEMON || p->kind == P_CLIENT) && p->exited &&
        std::find(extras.begin(), extras.end(), p.get()) == extras.end())
      return fail(o, p->name + " ended");
  if (mapped != 2 || !client) return;
  // mistakes are reported unless it is not wanted
  for (auto t : mistakes) {
    if (t < ready || t + limit > end) return;
    auto shown = false;
    for (auto& e : W->log) shown |= e.type == R_EXEC && e.a == client->index && e.t >= t && e.t < t + limit && e.s.rfind("notify-send", 0) == 0;
    if (shown == silent) return fail(o, silent ? "a notification was shown although they are turned off" : "no notification about a mistake");
    o.probes[silent ? "silent" : "notified"]++;
  }
  std::vector<std::pair<Time, int>> presses;
  for (auto& e : desktop_events(ready)) if (e.value == 1 && e.key != key_code("B")) presses.push_back({ e.t, e.key });
  auto next = size_t{ };
  for (auto& tap : taps) {
    if (tap.t < ready + SEC / 10) return;
    auto& want = tap.key == 'A' ? running.a : running.h;
    std::string got;
    for (auto k = 0; k < 2 && next < presses.size(); ++k) got += (got.empty() ? "" : " ") + key_name(presses[next++].second);
    if (got != want)
      return fail(o, std::string(1, tap.key) + " >> '" + got + "' instead of '" + want + "' (key at " + S((tap.t - W->start) / MS) + " ms)");
    o.probes["mapped"]++;
  }
}

void register_config(std::vector<Property>& list) {
  list.push_back({ "C10", "last valid saved configuration in force", gen_c10, check_c10, 1, nullptr, nullptr,
    "files were changed, reloaded or selected and key strokes told which content was in force afterwards",
    [](const Outcome& o) { return o.get("settled") >= 4 && o.get("phases") >= 2; }, 20000, "" });
  list.push_back({ "C23", "checking a configuration disturbs nothing", gen_c23, check_c23, 1, nullptr, nullptr,
    "a configuration was checked or wrong options were given",
    [](const Outcome& o) { return o.get("valid") + o.get("invalid") + o.get("wrong_options") > 0; }, 20000, "" });
}

}  // namespace sim
