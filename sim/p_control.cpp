// The control program: its results, waiting, time limits and instances.
#include "props.h"
#include <algorithm>
#include <linux/input.h>
#include <optional>
#include <signal.h>

namespace sim {

//---------------------------------------------------------------- C13
namespace {
const std::vector<std::string> VKEYS = { "Virtual1", "Virtual2", "Virtual3" };
const std::vector<std::string> MIRROR = { "F1", "F2", "F3" };     // held while the virtual key is down
const std::vector<std::string> SWITCH = { "A", "B", "C" };        // toggle the virtual key

enum Kind { PRESS, RELEASE, TOGGLE, IS_PRESSED, IS_RELEASED, WAIT_PRESSED, WAIT_RELEASED, WAIT_TOGGLED,
  WAIT, INSTANCE, RESTART, SEQUENCE };
struct Req {
  Kind kind;
  std::string arg;
  std::optional<Time> limit;     // a time limit for this operation
  bool limit_sure = true;        // it was given directly before
  Time wait = 0;
  bool shown = false;            // followed by --stdout
};
struct Ctl {
  const Proc* p = nullptr;
  bool valid = true;
  std::vector<Req> reqs;
  bool restarts = false;
};
// a request which was made, with what it resulted in
struct Done {
  const Ctl* c;
  const Req* q;
  Time b, e;
  int result;
  bool first;                    // has to get connected before
  bool finished;                 // otherwise it lasts until the end
};
}  // namespace

static std::string c13_name(Rng& r) {
  if (r.chance(0.12)) return r.chance(0.5) ? "NoSuchKey" : "K";
  if (r.chance(0.15)) return "Mode";                               // an alias
  return VKEYS[(size_t)r.range(0, 2)];
}

static void gen_c13(Scenario& s, Rng& r) {
  Setup u;
  u.conf = "Mode = Virtual3\n";
  for (size_t i = 0; i < 3; ++i) {
    u.conf += SWITCH[i] + " >> " + (i == 2 && r.chance(0.5) ? "Mode" : VKEYS[i]) + "\n";
    u.conf += VKEYS[i] + " >> " + MIRROR[i] + "\n";
  }
  u.windows = WINDOWS;
  u.focus = 0;
  prologue(s, r, u);
  auto faults = r.chance(0.4);
  if (faults)
    add_faults(s, r, FS_TIMING | (r.chance(0.5) ? FS_FRAG | FS_EINTR : 0));
  static const std::vector<int> limits = { 0, 1, 5, 20, 50, 200, 500, 1000, 3000 };
  auto add_ctl = [&](int64_t gap, bool endless) {
    std::vector<std::string> a;
    auto n = r.chance(0.5) ? 1 : r.range(1, 5);
    auto limited = r.chance(0.6);
    for (auto i = 0; i < n; ++i) {
      if (r.chance(limited ? 0.7 : 0.1)) {
        a.push_back("--timeout");
        a.push_back(S(limits[(size_t)r.range(0, 8)]));
      }
      auto c = r.range(0, 99);
      auto add = [&](const char* op, std::string v) { a.push_back(op); a.push_back(v); };
      if (c < 12) add("--is-pressed", c13_name(r));
      else if (c < 24) add("--is-released", c13_name(r));
      else if (c < 38) add("--wait-pressed", c13_name(r));
      else if (c < 52) add("--wait-released", c13_name(r));
      else if (c < 66) add("--wait-toggled", c13_name(r));
      else if (c < 72) add("--toggle", c13_name(r));
      else if (c < 78) add("--press", c13_name(r));
      else if (c < 84) add("--release", c13_name(r));
      else if (c < 90) add("--instance", r.chance(0.8) ? (r.chance(0.5) ? "one" : "two") : "0");
      else if (c < 94) add("--wait", S(r.range(1, 400)));
      else if (c < 97) add("--output", r.chance(0.6) ? "Z" : "NoSuchKey");
      else add("--input", r.chance(0.6) ? "Y" : "Y{");
      if (r.chance(0.9)) a.push_back("--stdout");
    }
    if (endless) { a.push_back("--wait"); a.push_back(S(r.range(20, 300))); a.push_back("--restart"); }
    if (r.chance(0.02)) a.push_back(r.chance(0.5) ? "--press" : "--nonsense");
    s.add(gap, "ctl", a);
  };
  auto n = r.range(4, 22);
  auto ctls = 0, killed = 0;
  for (auto i = 0; i < n; ++i) {
    int64_t g = r.chance(0.3) ? r.range(0, 3000) : r.chance(0.5) ? r.range(1000, 120000) : r.range(100000, 1500000);
    // without a limit one waits for long
    if (r.chance(0.003)) g = r.range(20, 120) * 1000000;
    auto c = r.range(0, 99);
    if (c < 45 && ctls < 14) {
      ++ctls;
      add_ctl(g, r.chance(0.12));
    }
    else if (c < 92 || killed) {
      auto k = S(key_code(SWITCH[(size_t)r.range(0, 2)]));
      s.add(g, "key", { "kb0", k, "1" });
      s.add(r.range(2000, 90000), "key", { "kb0", k, "0" });
    }
    else {
      ++killed;
      auto p = r.chance(0.6) ? "client" : "daemon";
      s.add(g, "kill", { p, r.chance(0.5) ? "9" : "15" });
      for (auto m = r.range(0, 2); m > 0; --m) { add_ctl(r.range(1000, 300000), false); ++ctls; }
      s.add(r.range(300000, 3500000), "ensure", { p });
      s.add(5500000, "wait");
    }
  }
  s.pin(4500000, "mark", { "end" });
}

static bool parse_ctl(const std::vector<std::string>& a, Ctl* c) {
  std::optional<Time> limit;
  auto fresh = false;
  static const std::map<std::string, Kind> kinds = {
    { "--press", PRESS }, { "--release", RELEASE }, { "--toggle", TOGGLE }, { "--is-pressed", IS_PRESSED },
    { "--is-released", IS_RELEASED }, { "--wait-pressed", WAIT_PRESSED }, { "--wait-released", WAIT_RELEASED },
    { "--wait-toggled", WAIT_TOGGLED }, { "--instance", INSTANCE },
  };
  for (size_t i = 0; i < a.size(); ++i) {
    auto& o = a[i];
    auto has = i + 1 < a.size();
    if (o == "--stdout") { if (!c->reqs.empty()) c->reqs.back().shown = true; else return false; }
    else if (o == "--restart") { c->reqs.push_back({ RESTART, "", {}, true, 0, true }); c->restarts = true; }
    else if (o == "--timeout") { if (!has) { c->valid = false; return true; } limit = atoll(a[++i].c_str()) * MS; fresh = true; }
    else if (o == "--wait") { if (!has) { c->valid = false; return true; } c->reqs.push_back({ WAIT, "", {}, true, atoll(a[++i].c_str()) * MS, false }); }
    else if (o == "--input" || o == "--output") {
      std::string t;
      while (i + 1 < a.size() && a[i + 1][0] != '-') t += a[++i] + " ";
      c->reqs.push_back({ SEQUENCE, t, limit, fresh, 0, false });
      fresh = false;
    }
    else if (kinds.count(o)) {
      if (!has) { c->valid = false; return true; }
      auto k = kinds.at(o);
      c->reqs.push_back({ k, a[++i], k == INSTANCE ? std::nullopt : limit, fresh, 0, false });
      if (k != INSTANCE) fresh = false;
    }
    else { c->valid = false; return true; }
  }
  if (c->reqs.empty()) c->valid = false;
  return true;
}

static void check_c13(const Scenario& s, Outcome& o) {
  if (!conf_accepted()) { o.probes["rejected"] = 1; return; }
  auto end = mark_time("end");
  if (end < 0) return;
  const Time L = s.get("fault.stall", "").empty() && s.get("fault.late_wakeup", "").empty() && s.get("fault.short_recv", "").empty() ? 160 * MS : 700 * MS;
  const Time E = 30 * MS;
  // the configuration has to be the expected one
  auto conf = conf_text(s);
  for (size_t i = 0; i < 3; ++i)
    if (conf.find(VKEYS[i] + " >> " + MIRROR[i] + "\n") == std::string::npos) return;
  auto alias = conf.find("Mode = Virtual3\n") != std::string::npos;
  // what is done
  std::vector<Ctl> ctls;
  struct Gone { Time from, to; };
  std::vector<Gone> gone;
  std::vector<std::vector<Time>> taps(3);
  auto times = op_times(s);
  auto ordinal = 0;
  for (size_t i = 0; i < s.ops.size(); ++i) {
    auto& op = s.ops[i];
    auto t = W->start + times.at[i];
    if (op.name == "ctl") {
      Ctl c;
      c.p = ctl_proc(ordinal++);
      if (!c.p) return;
      if (!parse_ctl(op.args, &c)) return;
      ctls.push_back(c);
    }
    else if (op.name == "kill") gone.push_back({ t, INT64_MAX });
    else if (op.name == "ensure" && !gone.empty() && gone.back().to == INT64_MAX) gone.back().to = t + 4 * SEC;
    else if (op.name == "key" && op.args[2] == "1")
      for (size_t k = 0; k < 3; ++k)
        if (op.args[1] == S(key_code(SWITCH[k]))) {
          if (conf.find("\n" + SWITCH[k] + " >> " + VKEYS[k] + "\n") == std::string::npos &&
              conf.find("\n" + SWITCH[k] + " >> Mode\n") == std::string::npos) return;
          taps[k].push_back(t);
        }
  }
  for (auto& p : W->procs)
    if (p->kind != P_CTL && p->exited && p->kind != P_CMD) {
      auto told = false;
      for (auto& g : gone) told |= p->exit_time >= g.from && p->exit_time < g.to;
      if (!told) return fail(o, p->name + " ended by itself");
    }
  auto disturbed = [&](Time from, Time to) {
    for (auto& g : gone) if (from < g.to && to >= g.from) return true;
    return from < W->start + SEC;
  };
  // state of the virtual keys
  struct Change { Time t; bool down; };
  std::vector<std::vector<Change>> changes(3);
  for (auto& e : desktop_events())
    for (size_t k = 0; k < 3; ++k)
      if (e.key == key_code(MIRROR[k]) && e.virt && e.value != 2) changes[k].push_back({ e.t, e.value == 1 });
  auto was = [&](int k, bool down, Time from, Time to) {       // at some time in between
    auto state = false;
    auto seen = false;
    for (auto& c : changes[(size_t)k]) {
      if (c.t > to) break;
      if (c.t > from && state == down) seen = true;
      state = c.down;
    }
    return seen || state == down;
  };
  auto vkey = [&](const std::string& name) {
    for (size_t k = 0; k < 3; ++k) if (name == VKEYS[k]) return (int)k;
    return name == "Mode" && alias ? 2 : -1;
  };
  // split up the runs of the control programs into requests
  std::vector<Done> done;
  std::map<const Ctl*, Time> unserved;       // did not get connected at all
  for (auto& c : ctls) {
    auto& p = *c.p;
    if (!c.valid) {
      if (!p.exited || p.exit_code != 2) return fail(o, p.name + ": invalid arguments resulted in " + (p.exited ? S(p.exit_code) : "waiting"));
      ++o.probes["invalid_arguments"];
      continue;
    }
    size_t w = 0;
    auto b = p.start_time;
    auto steps = 0;
    for (size_t i = 0; i < c.reqs.size() && steps < 4000; ++i, ++steps) {
      auto& q = c.reqs[i];
      if (q.kind == RESTART) { i = (size_t)-1; continue; }
      if (q.kind == WAIT && !q.shown) {
        auto last = i + 1 == c.reqs.size();
        if (last) break;
        b += q.wait;
        continue;
      }
      auto last = i + 1 == c.reqs.size();
      Done d{ &c, &q, b, 0, -1, done.empty() || done.back().c != &c, true };
      if (q.shown && w < p.writes.size()) {
        d.e = p.writes[w].second;
        d.result = p.out[p.writes[w].first] - '0';
        ++w;
      }
      else if (p.exited && last && !q.shown) { d.e = p.exit_time; d.result = p.exit_code; }
      else if (p.exited && q.shown) { d.e = p.exit_time; d.result = p.exit_code; d.finished = true; unserved[&c] = p.exit_time; }
      else if (q.shown || last) { d.e = end; d.finished = false; }
      else break;                            // nothing known about this one and those following
      done.push_back(d);
      if (!d.finished || unserved.count(&c)) break;
      b = d.e;
    }
  }
  auto text = [&](const Done& d) {
    static const char* names[] = { "press", "release", "toggle", "is-pressed", "is-released", "wait-pressed", "wait-released",
      "wait-toggled", "wait", "instance", "restart", "sequence" };
    return d.c->p->name + " " + names[d.q->kind] + " " + d.q->arg;
  };
  // instances which are replaced
  auto replaced = [&](const Ctl& c, Time* from, Time* by) {
    *from = *by = INT64_MAX;
    std::string id;
    std::set<std::string> ids;
    for (auto& q : c.reqs) if (q.kind == INSTANCE) ids.insert(q.arg);
    Time since = 0;
    auto again = false;        // may have connected again later
    for (auto& g : gone) again |= c.restarts && c.p->start_time < g.to;
    for (auto& n : ctls)
      if (&n != &c)
        for (auto& q : n.reqs)
          if (q.kind == INSTANCE && q.arg != "0" && ids.count(q.arg)) {
            auto known = false;
            for (auto& d : done) known |= d.q == &q;
            // repeated after requests of which nothing is known
            if (n.restarts)
              for (auto& u : n.reqs) if (!u.shown && u.kind != WAIT && u.kind != RESTART) known = false;
            if (!known) *from = std::min(*from, n.p->start_time);
          }
    for (auto& d : done)
      if (d.c == &c && d.q->kind == INSTANCE && d.finished) {
        if (id != d.q->arg) since = d.b;
        id = d.q->arg;
        for (auto& n : done)
          if (n.c != &c && n.q->kind == INSTANCE && n.q->arg == id && id != "0" && (ids.size() > 1 || n.e + L >= since)) {
            *from = std::min(*from, n.b);
            if (ids.size() == 1 && !again && n.b > d.e + L && n.finished && n.result == 0) *by = std::min(*by, n.e);
          }
      }
  };
  auto sure = true;
  for (auto& d : done) {
    auto& p = *d.c->p;
    auto& q = *d.q;
    auto len = d.e - d.b;
    auto first = d.first;
    if (disturbed(d.b, d.e + L)) {
      if (q.kind <= TOGGLE) sure = false;
      // nobody to connect to
      for (auto& g : gone)
        if (first && d.b == p.start_time && !q.shown && q.limit && q.limit_sure && d.b >= g.from + E && d.b + *q.limit + L < g.to - 4 * SEC) {
          if (!d.finished || d.result != 3 || len < *q.limit - MS || len > *q.limit + L)
            return fail(o, text(d) + ": expected result 3 after " + S(*q.limit / MS) + " ms without a client, it is " +
              (d.finished ? S(d.result) + " after " + S(len / MS) : "still waiting"));
          ++o.probes["no_client"];
        }
      // connection lost while waiting
      for (auto& g : gone)
        if (q.kind >= WAIT_PRESSED && q.kind <= WAIT_TOGGLED && d.b + 2 * L < g.from && d.e >= g.from + L + SEC && !d.c->restarts &&
            g.from + 2 * SEC + L < end && (!q.limit || d.b + *q.limit > g.from + SEC + L))
          return fail(o, text(d) + ": did not notice that the client is gone");
      continue;
    }
    if (q.kind == WAIT) continue;
    Time from, by;
    replaced(*d.c, &from, &by);
    if (d.finished && d.result == 3) {
      if (d.e + E >= from) { ++o.probes["replaced"]; continue; }
      auto earlier = false;      // connection was lost before
      for (auto& g : gone) earlier |= p.start_time < g.to && d.e >= g.from;
      if (earlier) continue;
      if (first && q.limit && len >= *q.limit) continue;     // not even connected in time
      return fail(o, text(d) + ": result 3 although the client was there");
    }
    if (by != INT64_MAX && d.e > by + L && d.b < by && by + L < end)
      return fail(o, text(d) + ": was not ended by the program with the same instance id");
    if (by != INT64_MAX && d.b > by + L)
      return fail(o, text(d) + ": goes on although replaced");
    if (d.e >= from) continue;
    auto lost = false;
    for (auto& g : gone) lost |= p.start_time < g.to && d.e >= g.from;
    if (lost) continue;
    ++o.probes["requests"];
    auto k = vkey(q.arg);
    // time limits
    auto slow = first ? 2 * L + 70 * MS * (Time)ctls.size() : L;      // they are connected one by one
    if (d.finished && d.result == 4) {
      if (!q.limit) return fail(o, text(d) + ": result 4 without a time limit");
      if (len < *q.limit - MS) return fail(o, text(d) + ": result 4 after " + S(len / MS) + " ms, the limit is " + S(*q.limit / MS));
      ++o.probes["timeouts"];
    }
    if (q.limit && q.limit_sure && len > *q.limit + slow)
      return fail(o, text(d) + ": took " + S(len / MS) + " ms, the limit is " + S(*q.limit / MS));
    auto waits = q.kind >= WAIT_PRESSED && q.kind <= WAIT_TOGGLED && k >= 0;
    if (!waits && len > slow && !q.limit)
      return fail(o, text(d) + ": took " + S(len / MS) + " ms");
    if (d.finished && d.result == 4) {
      if (q.kind <= TOGGLE) sure = false;
      if (!waits && *q.limit > slow) return fail(o, text(d) + ": was not answered");
    }
    else if (d.finished) {
      std::string e;
      if (q.kind == SEQUENCE) {
        auto valid = q.arg.find("NoSuch") == std::string::npos && q.arg.find("{") == std::string::npos;
        if (d.result != (valid ? 0 : 1)) e = valid ? "0" : "1";
      }
      else if (q.kind == INSTANCE) {
        if (d.result != 0) e = "0";
      }
      else if (k < 0) {
        if (d.result != 5) e = "5";
      }
      else if (q.kind == IS_PRESSED || q.kind == IS_RELEASED) {
        auto down = (d.result == 0) == (q.kind == IS_PRESSED);
        if (d.result != 0 && d.result != 1) e = "0 or 1";
        else if (!was(k, down, d.b - L, d.e + E)) e = d.result ? "0" : "1";
        ++o.probes["queries"];
      }
      else if (q.kind <= TOGGLE) {
        if (d.result != 0) e = "0";
        else if (q.kind != TOGGLE && !was(k, q.kind == PRESS, d.b, d.e + L) && d.e + L < end)
          e = "that the key is " + std::string(q.kind == PRESS ? "pressed" : "released");
      }
      else {
        if (d.result != 0) e = "0";
        else if (q.kind == WAIT_PRESSED && !was(k, true, d.e - L, d.e + E)) e = "to wait until pressed";
        else if (q.kind == WAIT_RELEASED && !was(k, false, d.e - L, d.e + E)) e = "to wait until released";
        else if (q.kind == WAIT_TOGGLED && !(was(k, true, d.e - L, d.e + E) && was(k, false, d.e - L, d.e + E))) e = "to wait until toggled";
        ++o.probes["waits"];
      }
      if (!e.empty()) return fail(o, text(d) + ": result " + S(d.result) + ", expected " + e);
    }
    // has to notice
    if (waits && (!d.finished || d.result == 4 || d.result == 0)) {
      auto fine = [&](bool down) { return q.kind == WAIT_TOGGLED || (q.kind == WAIT_PRESSED) == down; };
      for (auto& c : changes[(size_t)k])
        if (c.t > d.b + slow && c.t + L < d.e && fine(c.down))
          return fail(o, text(d) + ": did not notice the change " + S((c.t - d.b) / MS) + " ms after it began, it took " + S(len / MS) + " ms");
      // not having to wait
      Time since = 0;
      auto state = false;
      auto check = [&](Time until) {
        return q.kind != WAIT_TOGGLED && fine(state) && std::min(until, d.e) - std::max(since, d.b) > slow + L;
      };
      for (auto& c : changes[(size_t)k]) {
        if (check(c.t)) return fail(o, text(d) + ": waits although it is so");
        since = c.t;
        state = c.down;
      }
      if (check(end)) return fail(o, text(d) + ": waits although it is so");
    }
  }
  // each request has its effect once
  if (gone.empty() && sure)
    for (size_t k = 0; k < 3; ++k) {
      auto exact = true;
      auto expected = (int64_t)taps[k].size();
      for (auto& c : ctls)
        for (auto& q : c.reqs)
          if (q.kind <= TOGGLE && vkey(q.arg) == (int)k) {
            if (q.kind != TOGGLE || c.restarts) exact = false;
          }
      for (auto& d : done)
        if (d.q->kind == TOGGLE && vkey(d.q->arg) == (int)k) {
          ++expected;
          if (!d.finished || d.result != 0) exact = false;
        }
      auto listed = 0, all = 0;
      for (auto& d : done) listed += d.q->kind == TOGGLE && vkey(d.q->arg) == (int)k;
      for (auto& c : ctls) for (auto& q : c.reqs) all += q.kind == TOGGLE && vkey(q.arg) == (int)k;
      if (exact && listed == all && expected != (int64_t)changes[k].size())
        return fail(o, VKEYS[k] + " changed " + S((int64_t)changes[k].size()) + " times, " + S(expected) + " were asked for");
    }
}

//---------------------------------------------------------------- C17
static void gen_c17(Scenario& s, Rng& r) {
  ConfOpts b;
  b.timeouts = b.not_timeouts = b.delays = b.strings = b.history = b.forward_mods = false;
  auto opts = swarm(r, b);
  opts.context_active = opts.context_active && r.chance(0.2);
  auto conf = random_config(r, opts);
  Setup u;
  u.conf = conf.text;
  u.keyboards = r.chance(0.4) ? 2 : 1;
  u.mice = conf.mouse ? 1 : 0;
  u.windows = WINDOWS;
  u.focus = (int)r.range(0, 3);
  // titles are chosen by others
  if (r.chance(0.2)) {
    static const std::vector<std::string> titles = { "pay $(other1)", "`other2`", "\\\"; other3; \\\"", "a 'b' \"c\" d\\", "50 % & more; $HOME <b>", "C:\\new\\" };
    for (auto& w : u.windows) if (r.chance(0.5)) w[0] = titles[(size_t)r.range(0, (int64_t)titles.size() - 1)];
  }
  prologue(s, r, u);
  if (r.chance(0.4))
    add_faults(s, r, FS_TIMING | (r.chance(0.3) ? FS_FRAG | FS_EINTR : 0));
  auto keys = pick_keys(r, u, 0.6, 0.3, 0.3);
  if (u.mice) for (auto k : { "ButtonLeft", "ButtonRight", "ButtonBack" }) keys.push_back({ "m0", k });
  Typist t{ s, r, {} };
  auto n = r.range(2, 8);
  auto ctls = 0;
  for (auto i = 0; i < n; ++i) {
    for (auto m = r.range(0, 6); m > 0; --m) {
      auto g = human_gap(r);
      if (u.mice && r.chance(0.1)) t.wheel(g, "m0", r.chance(0.2), r.chance(0.5) ? 1 : -1, true);
      else t.random(g, keys, 3, 0.05);
    }
    auto k = r.range(0, 9);
    if (k < 6) {
      // requests, sometimes given up, or followed by a key at once
      for (auto m = r.chance(0.6) ? 1 : r.range(2, 4); m > 0; --m) {
        auto g = r.chance(0.5) ? 500000 : r.range(0, 600000);
        if (r.chance(0.15)) { s.add(g, "tray", { "Next Key Info" }); continue; }
        std::vector<std::string> args;
        if (r.chance(0.25)) args = { "--timeout", S(r.range(50, 2500)) };
        args.push_back("--next-key-info");
        if (args.size() == 1 && r.chance(0.15)) args.push_back("--next-key-info");
        s.add(g, "ctl", args);
        ++ctls;
        if (r.chance(0.1)) s.add(r.range(0, 900000), "kill", { "k" + S(ctls - 1), r.chance(0.5) ? "9" : "15" });
      }
      if (r.chance(0.8)) s.add(r.chance(0.01) ? r.range(20, 120) * 1000000 : r.range(500000, 1500000), "wait");
    }
    else if (k < 8) {
      s.add(600000, "focus", { S(r.range(0, 3)) });
      s.add(600000, "wait");
    }
    else if (k < 9 && r.chance(0.3)) {
      t.release_all(600000);
      s.add(600000, "kill", { r.chance(0.6) ? "client" : "daemon" });
      s.add(500000, "ensure", { "client" });
      s.add(10000, "ensure", { "daemon" });
      s.add(4500000, "wait");
    }
    else if (r.chance(0.3)) {
      t.release_all(600000);
      s.add(600000, "conf", { CONF, conf.text + "# " + S(i) + "\n" });
      s.add(600000, "tray", { "Reload" });
      s.add(1500000, "wait");
    }
  }
  s.pin(600000, "releaseall");
  s.pin(1500000, "mark", { "end" });
}

static void check_c17(const Scenario& s, Outcome& o) {
  if (!conf_accepted()) { o.probes["rejected"] = 1; return; }
  auto ready = mark_time("ready"), end = mark_time("end");
  if (ready < 0 || end < 0) return;
  auto faults = false;
  for (auto& [k, v] : s.params) faults |= k.rfind("fault.", 0) == 0;
  const Time lag = faults ? 700 * MS : 250 * MS;

  // presses the daemon read
  struct Press { size_t log; Time t; int64_t dev; int code; bool reported; };
  std::vector<Press> presses;
  std::multiset<int64_t> down;
  auto twice = false;                   // on two keyboards
  for (size_t i = 0; i < W->log.size(); ++i) {
    auto& e = W->log[i];
    if (e.type != R_DREAD || e.t < ready) continue;
    if (e.b == EV_KEY && e.d == 1)
      presses.push_back({ i, e.t, e.a, (int)e.c, false });
    else if (e.b == EV_REL && (e.c == REL_WHEEL_HI_RES || e.c == REL_HWHEEL_HI_RES))
      presses.push_back({ i, e.t, e.a, e.c == REL_WHEEL_HI_RES ? (e.d > 0 ? 0x150 : 0x151) : (e.d > 0 ? 0x153 : 0x152), false });
    if (e.b == EV_KEY) {
      if (e.d == 1) down.insert(e.c);
      else if (e.d == 0) if (auto it = down.find(e.c); it != down.end()) down.erase(it);
      twice |= down.count(e.c) > 1;
    }
  }
  if (twice) return;
  std::vector<std::pair<Time, const std::vector<std::string>*>> focus;
  std::vector<const std::vector<std::string>*> windows;
  auto times = op_times(s);
  // the requests
  struct Ask { Time from, sure, until; const Proc* p; int press; };
  std::vector<Ask> asks;
  std::vector<Time> restarts;
  auto ctls = 0;
  auto model = s;
  auto until_restart = [&](Time t) {
    for (auto& e : W->log)
      if (e.type == R_EXIT && e.proc >= 0 && e.t > t && (W->procs[(size_t)e.proc]->kind == P_DAEMON || W->procs[(size_t)e.proc]->kind == P_CLIENT))
        return e.t;
    return end + SEC;
  };
  auto near = 0;
  Time last_ask = 0;
  for (size_t i = 0; i < s.ops.size(); ++i) {
    auto& op = s.ops[i];
    auto t = W->start + times.at[i];
    if (op.name == "window") windows.push_back(&op.args);
    else if (op.name == "focus") {
      auto f = (size_t)atoi(op.args[0].c_str());
      if (f < windows.size()) focus.push_back({ t, windows[f] });
    }
    else if (op.name == "tray" && op.args[0] == "Next Key Info") {
      model.ops[i].name = "wait"; model.ops[i].args.clear();
      asks.push_back({ t, t + lag, until_restart(t), nullptr, -1 });
    }
    else if (op.name == "ctl") {
      model.ops[i].name = "wait"; model.ops[i].args.clear();
      auto p = ctl_proc(ctls++);
      if (!p) return;
      near = t - last_ask < SEC ? near + 1 : 0;
      last_ask = t;
      asks.push_back({ t, t + lag + near * 70 * MS, until_restart(t), p, -1 });
    }
    else if (op.name == "kill" && op.args[0][0] == 'k') { model.ops[i].name = "wait"; model.ops[i].args.clear(); }
  }
  auto find = [&](const std::string& text, Time t, Time sure) {
    // any spelling which configurations accept, its number is not checked
    auto line = [&](const char* what) {
      auto from = text.find(what);
      return from == std::string::npos ? std::string() : text.substr(from, text.find('\n', from) - from);
    };
    auto name = line("key_name = '"), rest = text;
    name = name.substr(12, name.size() - 13);
    rest.erase(0, line("key_name").size() + 1 + line("scan_code = 0x").size() + 1);
    if (isdigit(name[0])) name = "Digit" + name;
    // the first one when it was surely asked for it, otherwise the last
    std::vector<size_t> order;
    for (size_t i = 0; i < presses.size(); ++i)
      if (presses[i].t >= sure && t - presses[i].t < lag) order.push_back(i);
    for (auto i = presses.size(); i-- > 0; ) order.push_back(i);
    for (auto i : order)
      if (presses[i].t <= t && name == key_name(presses[i].code)) {
        auto& d = *W->devs[(size_t)presses[i].dev];
        for (auto f = focus.rbegin(); f != focus.rend(); ++f) {
          auto& w = *f->second;
          auto want = "system = 'Linux'\ntitle = '" + w[0] + "'\nclass = '" + w[1] + "'\npath = '" + w[2] +
            "'\ndevice = '" + d.name + "'\ndevice-id = '" + d.byid + "'";
          if (rest == want && f->first <= presses[i].t + lag) return (int)i;
          if (f->first < presses[i].t - lag) break;
        }
      }
    return -1;
  };
  auto split = [&](const Proc& p) {
    std::vector<std::pair<std::string, Time>> r;
    for (size_t at = p.out.find("key_name = '"); at != std::string::npos; ) {
      auto next = p.out.find("key_name = '", at + 1);
      auto text = p.out.substr(at, next == std::string::npos ? next : next - at);
      Time t = end;
      for (auto& [pos, when] : p.writes) if (pos <= at) t = when;
      r.push_back({ text, t });
      at = next;
    }
    return r;
  };
  // what each of them was told
  for (size_t i = 0, n = asks.size(); i < n; ++i) {
    auto p = asks[i].p;
    if (!p) continue;
    auto told = split(*p);
    auto a = asks[i];
    auto again = 0;
    for (auto& x : p->args) again += x == "--next-key-info";
    for (auto& [text, t] : told) {
      if (again-- == 0) return fail(o, "told too often: " + p->name + " got '" + text + "'");
      a.press = find(text, t, a.sure);
      if (a.press < 0) return fail(o, "wrong information: " + p->name + " was told '" + text + "'");
      auto& press = presses[(size_t)a.press];
      if (press.t < a.from) return fail(o, "old key: " + p->name + " was told about a key pressed before it asked");
      if (t - press.t > lag + 200 * MS) return fail(o, "late: " + p->name + " was told about a key after " + S((t - press.t) / MS) + " ms");
      press.reported = true;
      a.until = t;
      ++o.probes["told"];
      asks.push_back(a);
      a = Ask{ t, t + lag, until_restart(t), p, -1 };
    }
    if (again > 0) {
      if (p->exited) a.until = std::min(a.until, p->exit_time);
      asks.push_back(a);
      if (p->exited && !p->exit_signal && p->exit_code != 4 && p->exit_code != 3)
        return fail(o, "wrong result: " + p->name + " ended with " + S(p->exit_code) + " without having got information");
    }
    else if (p->exited && !p->exit_signal && p->exit_code != 0)
      return fail(o, "wrong result: " + p->name + " ended with " + S(p->exit_code));
    asks[i].until = 0;                // replaced
  }
  for (auto& p : W->procs)
    if (p->kind == P_CLIENT)
      for (auto& [raw, t] : split(*p)) {
        auto text = raw.substr(0, raw.find("'\n", raw.find("device-id")) + 1);
        auto i = find(text, t, end);
        if (i < 0) return fail(o, "wrong information: the message is '" + text + "'");
        if (presses[(size_t)i].reported) return fail(o, "told twice: the same key was reported in a message");
        presses[(size_t)i].reported = true;
        // the program which shows it resolves escape sequences
        auto shown = false;
        for (auto& e : W->log)
          if (e.type == R_EXEC && e.t >= t && e.t < t + SEC && e.s.rfind("notify-send ", 0) == 0) {
            std::vector<std::string> others;
            auto words = shell_words(e.s, &others);
            if (words.size() != 5) continue;
            std::string body;
            for (size_t k = 0; k < words[4].size(); ++k)
              if (words[4][k] != '\\') body += words[4][k];
              else if (++k < words[4].size()) body += words[4][k] == 'n' ? '\n' : words[4][k] == 't' ? '\t' : words[4][k];
            shown |= body == text;
          }
        if (!shown) return fail(o, "not shown: the notification differs from '" + text + "'");
        ++o.probes["shown"];
      }
  // the answer to one which was about to give up may have been lost
  for (auto& a : asks)
    if (a.p && a.until && a.press < 0)
      for (auto& p : presses)
        if (a.from <= p.t && !p.reported && std::abs(p.t - a.until) < lag) { o.probes["lost"] = 1; return; }
  // nobody waits in vain
  for (auto& a : asks) {
    if (!a.p)
      for (auto& p : presses)
        if (p.t >= a.from && p.reported) { a.until = std::min(a.until, p.t); break; }
    auto until = a.press >= 0 ? presses[(size_t)a.press].t - 1 : a.until - lag;
    for (auto& p : presses)
      if (p.t >= a.sure && p.t <= until && p.code != BTN_LEFT && (a.p || !p.reported))
        return fail(o, "not told: " + (a.p ? a.p->name : std::string("the user")) + " asked before, but was not told about " + key_name(p.code) + " pressed at " + S((p.t - W->start) / MS) + " ms");
  }
  // only requested keys are reported
  Time previous = -1;
  for (auto& p : presses)
    if (p.reported) {
      auto asked = false;
      for (auto& a : asks) {
        // whether a request which was given up is still answered is open
        auto gone = until_restart(a.from);
        asked |= a.until && a.from <= p.t && gone >= p.t && previous < a.sure;
      }
      if (!asked) return fail(o, "not requested: " + key_name(p.code) + " was reported");
      previous = p.t;
    }
  // apart from that everything is as usual
  ModelOptions mo;
  for (auto& p : presses)
    if (p.reported) {
      mo.swallowed.insert(p.log);
      if (model::is_wheel(p.code)) continue;
      for (auto i = p.log + 1; i < W->log.size(); ++i) {
        auto& e = W->log[i];
        if (e.type != R_DREAD || e.a != p.dev || e.b != EV_KEY || e.c != p.code) continue;
        mo.swallowed.insert(i);
        if (e.d == 0) break;
      }
    }
  compare_with_model(model, o, mo);
}

void register_control(std::vector<Property>& list) {
  list.push_back({ "C17", "next-key information", gen_c17, check_c17, 1, nullptr, nullptr,
    "at least one requester was told about a key, or the user was shown it, and at least 2 key events were compared with the model",
    [](const Outcome& o) { return o.get("told") + o.get("shown") > 0 && o.get("compared_events") >= 2; }, 20000, "" });
  list.push_back({ "C13", "results of the control program", gen_c13, check_c13, 1, nullptr, nullptr,
    "at least three requests of control programs were judged, one of them waiting, timing out or being replaced",
    [](const Outcome& o) { return o.get("requests") >= 3 && o.get("waits") + o.get("timeouts") + o.get("replaced") > 0; }, 20000, "" });
}

}  // namespace sim
