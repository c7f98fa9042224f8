// Timed mappings and output delays.
#include "props.h"
#include <algorithm>
#include <linux/input.h>

namespace sim {

// Every timed mapping is on keys of its own; an episode is the use of one of them, all keys are
// released and everything has settled in between.
namespace {
struct Item { int key = 0; int64_t ms = 0; };              // ms > 0: a delay
struct Rule {
  enum Kind { Hold, NotHold, Seq, Pause, Plain } kind = Plain;
  int key = 0, key2 = 0;
  int64_t ms = 0;
  std::vector<Item> out;
};
struct Config {
  std::vector<Rule> rules;
  bool valid = true;
};
}

static std::vector<std::string> words(const std::string& s) {
  std::vector<std::string> r;
  std::string w;
  for (auto c : s + " ")
    if (c == ' ') { if (!w.empty()) r.push_back(w); w.clear(); }
    else w += c;
  return r;
}
static int64_t read_ms(const std::string& s) {
  if (s.size() < 3 || s.substr(s.size() - 2) != "ms") return -1;
  for (auto i = size_t{ }; i + 2 < s.size(); ++i) if (!isdigit(s[i])) return -1;
  return atoll(s.c_str());
}

static Config parse_timed(const std::string& text) {
  Config c;
  std::string line;
  auto skip_block = false;
  for (auto ch : text + "\n") {
    if (ch != '\n') { line += ch; continue; }
    auto l = line;
    line.clear();
    if (l.empty() || l[0] == '#') continue;
    if (l[0] == '[') {
      // unrelated contexts follow
      skip_block = l != "[stage]";
      if (!skip_block) c.valid = false;
      continue;
    }
    if (skip_block) continue;
    auto p = l.find(" >> ");
    if (p == l.npos) { c.valid = false; continue; }
    Rule r;
    auto in = words(l.substr(0, p));
    if (in.empty()) { c.valid = false; continue; }
    auto b = in[0].find('{');
    if (b != in[0].npos) {
      auto t = in[0].substr(b + 1);
      if (t.empty() || t.back() != '}' || in.size() != 1) { c.valid = false; continue; }
      t.pop_back();
      r.key = key_code(in[0].substr(0, b));
      r.kind = Rule::Hold;
      if (!t.empty() && t[0] == '!') { r.kind = Rule::NotHold; t = t.substr(1); }
      r.ms = read_ms(t);
    }
    else if (in.size() == 1) { r.key = key_code(in[0]); }
    else if (in.size() == 2) { r.key = key_code(in[0]); r.kind = Rule::Pause; r.ms = read_ms(in[1]); }
    else if (in.size() == 3 && in[1][0] == '!') {
      r.key = key_code(in[0]); r.key2 = key_code(in[2]); r.kind = Rule::Seq; r.ms = read_ms(in[1].substr(1));
    }
    else r.ms = -1;
    if (r.kind != Rule::Plain && r.ms <= 0) c.valid = false;
    for (auto& w : words(l.substr(p + 4))) {
      Item i;
      auto ms = read_ms(w);
      if (ms >= 0) i.ms = ms; else i.key = key_code(w);
      if (!i.key && i.ms <= 0) c.valid = false;
      r.out.push_back(i);
    }
    if (r.out.empty() || !r.out.back().key || !r.out.front().key) c.valid = false;
    c.rules.push_back(r);
  }
  if (c.rules.empty()) c.valid = false;
  return c;
}

static bool daemon_delayed(const Scenario& s) {
  return !s.get("fault.stall").empty() || !s.get("fault.late_wakeup").empty();
}
static int64_t margin_ms(const Scenario& s) { return daemon_delayed(s) ? 150 : 8; }

static const std::vector<std::string> INJECTED = { "F8", "Home", "End" };

static void gen_c06(Scenario& s, Rng& r) {
  struct G { Rule::Kind kind; std::string key, key2; int64_t ms, ms2; bool delays; };
  std::vector<std::string> keys = TRIG, outs = { "X", "Y", "Z", "W", "U", "I", "O", "P", "Digit8", "Digit9", "Delete" };
  for (auto i = keys.size(); i > 1; --i) std::swap(keys[i - 1], keys[(size_t)r.range(0, (int64_t)i - 1)]);
  for (auto i = outs.size(); i > 1; --i) std::swap(outs[i - 1], outs[(size_t)r.range(0, (int64_t)i - 1)]);
  size_t nk = 0, no = 0;
  auto key = [&] { return keys[nk++ % keys.size()]; };
  auto outk = [&] { return outs[no++ % outs.size()]; };
  auto limit = [&] { return r.chance(0.3) ? r.range(60, 200) : r.chance(0.8) ? r.range(200, 1200) : r.range(1200, 4000); };
  auto out = [&](bool delays) {
    auto o = outk();
    if (!delays) return o;
    auto n = r.range(1, 2);
    for (auto i = 0; i < n; ++i) o += " " + S(r.chance(0.8) ? r.range(20, 700) : r.range(700, 3000)) + "ms " + outk();
    return o;
  };
  std::string conf;
  std::vector<G> rules;
  auto n = r.range(1, 4);
  for (auto i = 0; i < n; ++i) {
    G g{ (Rule::Kind)r.range(0, 4), key(), "", limit(), 0, r.chance(0.25) };
    auto t = S(g.ms) + "ms";
    switch (g.kind) {
      case Rule::Hold:
        conf += g.key + "{" + t + "} >> " + out(g.delays) + "\n";
        if (g.ms > 300 && r.chance(0.3)) {
          g.ms2 = r.range(60, g.ms - 200);
          conf += g.key + "{" + S(g.ms2) + "ms} >> " + out(false) + "\n";
        }
        if (r.chance(0.4)) conf += g.key + " >> " + out(false) + "\n";
        break;
      case Rule::NotHold:
        conf += g.key + "{!" + t + "} >> " + out(g.delays) + "\n";
        if (r.chance(0.4)) conf += g.key + " >> " + out(false) + "\n";
        break;
      case Rule::Seq: g.key2 = key(); conf += g.key + " !" + t + " " + g.key2 + " >> " + out(g.delays) + "\n"; break;
      case Rule::Pause: conf += g.key + " " + t + " >> " + out(g.delays) + "\n"; break;
      case Rule::Plain: g.delays = true; conf += g.key + " >> " + out(true) + "\n"; break;
    }
    rules.push_back(g);
  }
  if (r.chance(0.4)) conf += "[title=\"Firefox\"]\nF9 >> Insert\n\n[title=\"Terminal\"]\nF9 >> F10\n";
  Setup u;
  u.conf = conf;
  u.keyboards = r.chance(0.4) ? 2 : 1;
  u.mice = r.chance(0.4) ? 1 : 0;
  u.windows = WINDOWS;
  u.focus = (int)r.range(0, 3);
  if (u.mice) u.conf = "ButtonBack >> Insert\n" + u.conf;    // mice are grabbed when they are mapped
  prologue(s, r, u);
  if (r.chance(0.5)) add_faults(s, r, FS_TIMING | (r.chance(0.3) ? FS_FRAG | FS_EINTR : 0));
  auto m = margin_ms(s);

  auto kb = [&] { return u.keyboards > 1 && r.chance(0.3) ? std::string("kb1") : std::string("kb0"); };
  // one episode is a list of timed operations, in microseconds from its start
  struct Timed { int64_t at; std::string name; std::vector<std::string> args; };
  auto last = int64_t{ };
  auto delayed = false;
  auto episodes = r.range(2, 7);
  for (auto e = 0; e < episodes; ++e) {
    std::vector<Timed> ops;
    auto stroke = [&](int64_t at, const std::string& dev, const std::string& k, int v) {
      ops.push_back({ std::max<int64_t>(0, at), "key", { dev, S(key_code(k)), S(v) } });
    };
    auto& g = rules[(size_t)r.range(0, (int64_t)rules.size() - 1)];
    auto T = (g.ms2 && r.chance(0.5) ? g.ms2 : g.ms) * 1000;
    // a time on one side of the limit, preferably close to it
    auto around = [&](bool less) {
      auto d = (m + 1) * 1000 + (r.chance(0.5) ? r.range(0, 5000) : r.range(0, 400000));
      auto t = less ? T - d : T + d;
      return t < 5000 ? (less ? r.range(3000, std::max<int64_t>(3001, T / 2)) : T + d) : t;
    };
    auto less = r.chance(0.5);
    auto dev = std::string("kb0"), dev2 = kb();
    auto base = int64_t{ };
    auto shift = r.chance(0.2);
    if (shift) { stroke(0, "kb0", "ShiftLeft", 1); base = r.range(180000, 400000); }
    auto end = base;
    auto i = around(less);
    auto plain = PLAIN[(size_t)r.range(0, 9)];
    if (g.kind == Rule::Plain) {
      stroke(base, dev, g.key, 1);
      auto k = r.range(0, 6);
      auto t = base, rel = base + r.range(5000, 900000);
      for (auto j = 0; j < k; ++j) {
        t += r.range(200000, 420000);
        if (r.chance(0.25)) { ops.push_back({ t, "ctl", { "--output", INJECTED[(size_t)r.range(0, 2)] } }); t += 200000; continue; }
        auto p = PLAIN[(size_t)r.range(0, 9)];
        stroke(t, dev2, p, 1);
        t += r.range(180000, 300000);
        stroke(t, dev2, p, 0);
      }
      stroke(rel, dev, g.key, 0);
      end = std::max(t, rel);
    }
    else if (g.kind == Rule::Seq && r.chance(0.7)) {
      auto early = r.chance(0.5);
      stroke(base, dev, g.key, 1);
      auto rel = early ? base + i / 2 : base + i + r.range(250000, 500000);
      stroke(base + i, dev, r.chance(0.8) ? g.key2 : plain, 1);
      auto k2 = ops.back().args;
      stroke(rel, dev, g.key, 0);
      auto r2 = base + i + r.range(20000, 200000);
      ops.push_back({ r2, "key", { k2[0], k2[1], "0" } });
      end = std::max(rel, r2);
    }
    else if (r.chance(0.5)) {
      // only the key itself
      stroke(base, dev, g.key, 1);
      stroke(base + i, dev, g.key, 0);
      if (r.chance(0.3))
        for (auto t = base + 250000 + r.range(0, 20000); t < base + i - 2000 && ops.size() < 40; t += 33000) stroke(t, dev, g.key, 2);
      end = base + i;
    }
    else {
      // interrupted
      stroke(base, dev, g.key, 1);
      auto rel = base + i + r.range(250000, 900000);
      if (r.chance(0.3))
        for (auto t = base + 250000 + r.range(0, 20000); t < base + i - 2000 && ops.size() < 40; t += 33000) stroke(t, dev, g.key, 2);
      if (shift && r.chance(0.5)) { stroke(base + i, "kb0", "ShiftLeft", 0); shift = false; }
      else {
        stroke(base + i, dev2, plain, 1);
        stroke(base + i + r.range(180000, 230000), dev2, plain, 0);
      }
      stroke(rel, dev, g.key, 0);
      end = rel;
    }
    end = std::max(end, base + g.ms * 1000);
    if (shift) { stroke(end + 200000, "kb0", "ShiftLeft", 0); end += 200000; }
    // other traffic
    auto noise = r.chance(0.5) ? r.range(1, 6) : 0;
    for (auto j = 0; j < noise; ++j) {
      auto t = r.range(0, end + 300000);
      switch (r.range(0, 6)) {
        case 0: ops.push_back({ t, "focus", { S(r.range(0, 3)) } }); break;
        case 1: if (u.mice) for (auto k = 0; k < 12; ++k) ops.push_back({ t + k * r.range(2000, 9000), "ev", { "m0", S(EV_REL), S(REL_X), S(r.range(1, 9)) } }); break;
        case 2: ops.push_back({ t, "ctl", { g.kind == Rule::Plain && r.chance(0.7) ? "--toggle" : "--is-pressed", "Virtual1" } }); break;
        case 3: if (g.kind != Rule::Plain) ops.push_back({ t, "ctl", { "--output", INJECTED[(size_t)r.range(0, 2)] } }); break;
        case 4: ops.push_back({ t, "freeze", { "client", S(r.range(1000, 400000)) } }); break;
        case 5: if (r.chance(0.3)) ops.push_back({ t, "dev", { "p" + S(e) + S(j), r.chance(0.5) ? "keyboard" : "mouse", "Plugged " + S(e) + S(j), "usb-p" + S(e) + S(j) } }); break;
        case 6: ops.push_back({ t, "ev", { "kb0", S(EV_MSC), S(MSC_SCAN), S(r.range(1, 99)) } }); break;
      }
    }
    std::stable_sort(ops.begin(), ops.end(), [](auto& a, auto& b) { return a.at < b.at; });
    auto prev = int64_t{ };
    for (auto& op : ops) {
      auto gap = op.at - prev;
      if (prev == 0 && &op == &ops.front()) gap += (delayed ? 8500000 : 3500000) + last;
      s.add(gap, op.name, op.args);
      prev = op.at;
    }
    last = std::max<int64_t>(0, end - prev);
    delayed = g.delays || r.chance(0.05);
  }
  s.pin(7000000, "calm", { "1" });
  s.pin(100000, "releaseall");
  s.pin(3000000, "mark", { "end" });
}

static void check_c06(const Scenario& s, Outcome& o) {
  if (!conf_accepted()) { o.probes["rejected"] = 1; return; }
  auto text = conf_text(s);
  auto conf = parse_timed(text);
  if (!conf.valid) return;
  auto by_key = [&](int key, Rule::Kind kind) -> const Rule* {
    for (auto& r : conf.rules) if (r.key == key && r.kind == kind) return &r;
    return nullptr;
  };
  auto mentioned = [&](int key) {
    for (auto& r : conf.rules) if (key && (r.key == key || r.key2 == key)) return true;
    return false;
  };
  for (auto& a : conf.rules)
    for (auto& b : conf.rules)
      if (&a != &b && ((a.key2 && (a.key2 == b.key || a.key2 == b.key2)) ||
          (a.key == b.key && (a.kind != Rule::Hold && a.kind != Rule::NotHold) && b.kind != Rule::Hold && b.kind != Rule::NotHold) ||
          (a.key == b.key && a.kind == Rule::NotHold && b.kind != Rule::Plain))) return;
  for (auto& a : conf.rules)
    for (auto& i : a.out)
      if (mentioned(i.key)) return;

  struct Key { Time t; std::string dev; int code, value; };
  std::vector<Key> keys;
  struct Inj { Time t; int key; };
  std::vector<Inj> injected;
  std::vector<Time> plugged;
  auto times = op_times(s);
  std::set<std::pair<std::string, int>> down;
  for (auto i = size_t{ }; i < s.ops.size(); ++i) {
    auto& op = s.ops[i];
    auto t = W->start + times.at[i];
    if (op.name == "key") {
      Key k{ t, op.args[0], atoi(op.args[1].c_str()), atoi(op.args[2].c_str()) };
      auto id = std::make_pair(k.dev, k.code);
      if (k.value == 1 ? down.count(id) : !down.count(id)) continue;   // no change
      if (k.value == 1) down.insert(id);
      if (k.value == 0) down.erase(id);
      keys.push_back(k);
    }
    if (op.name == "ctl" && op.args.size() == 2 && op.args[0] == "--output") injected.push_back({ t, key_code(op.args[1]) });
    if (op.name == "dev" && t > W->start + SEC) plugged.push_back(t);
    if (op.name == "releaseall") {
      for (auto& d : down) keys.push_back({ t, d.first, d.second, 0 });
      if (down.size() > 1) return;
      down.clear();
    }
  }
  auto ready = mark_time("ready");
  if (ready < 0 || mark_time("end") < 0) return;
  if (!keys.empty() && keys[0].t < ready) return;

  auto M = margin_ms(s) * MS, slack = (daemon_delayed(s) ? 250 : 30) * MS;
  auto late = [&](Time from, Time to) {          // hotplugging costs the daemon time
    for (auto p : plugged)
      if (p > from - 2 * SEC && p < to + SEC) return daemon_delayed(s) ? 500 * MS : 30 * MS;
    return Time{ };
  };

  // what has to be output, in order
  struct Exp { Time from, to; int key, value; };
  std::vector<Exp> exp;
  Time low = 0, high = 0;               // bounds of when pending delays have passed
  struct Busy { Time from, low, high; };
  std::vector<Busy> busy;
  auto put = [&](Time t, Time slack_, int key, int value) {
    low = std::max(low, t);
    high = std::max(high, t + slack_);
    exp.push_back({ low, high, key, value });
  };
  // a single key stays pressed until the trigger is released
  auto emit = [&](Time t, Time slack_, const std::vector<Item>& out, std::vector<int>& held) {
    for (auto i = size_t{ }; i < out.size(); ++i) {
      if (out[i].ms) {
        low = std::max(low, t) + out[i].ms * MS;
        high = std::max(high, t + slack_) + out[i].ms * MS + slack_;
        busy.push_back({ t, low, high });
        continue;
      }
      put(t, slack_, out[i].key, 1);
      if (out.size() > 1) put(t, slack_, out[i].key, 0);
      else held.push_back(out[i].key);
    }
  };

  std::vector<std::pair<Time, Time>> skipped;
  for (auto b = size_t{ }; b < keys.size(); ) {
    // split in episodes
    std::set<std::pair<std::string, int>> d;
    auto e = b;
    for (; e < keys.size(); ++e) {
      if (e > b && d.empty() && keys[e].t - keys[e - 1].t >= 1500 * MS) break;
      if (keys[e].value == 1) d.insert({ keys[e].dev, keys[e].code });
      if (keys[e].value == 0) d.erase({ keys[e].dev, keys[e].code });
    }
    auto begin = keys[b].t, finish = keys[e - 1].t;
    if (high + 100 * MS > begin) { o.probes["overlap"]++; return; }
    auto judge = [&]() -> bool {
    auto m = M + late(begin, finish), sl = slack + 2 * late(begin, finish);
    const Rule* rule = nullptr;
    auto trig = size_t{ };
    std::set<int> mapped;
    for (auto i = b; i < e; ++i)
      if (mentioned(keys[i].code)) {
        if (!rule)
          for (auto& r : conf.rules)
            if (r.key == keys[i].code) { rule = &r; trig = i; break; }
        mapped.insert(keys[i].code);
      }
    for (auto i = b + 1; i < e; ++i) {
      if (keys[i].dev != keys[i - 1].dev && keys[i].t - keys[i - 1].t < m) return false;
      if (keys[i].t - keys[i - 1].t < MS) return false;
    }
    std::vector<int> held;            // output keys until the trigger is released
    auto release = [&](Time t) {
      for (auto it = held.rbegin(); it != held.rend(); ++it) put(t, sl, *it, 0);
      held.clear();
    };
    if (!rule) {
      if (!mapped.empty()) return false;
      for (auto i = b; i < e; ++i) if (keys[i].value != 2) put(keys[i].t, sl, keys[i].code, keys[i].value);
      return true;
    }
    auto K = rule->key;
    auto hold = by_key(K, Rule::Hold), nothold = by_key(K, Rule::NotHold), seq = by_key(K, Rule::Seq),
      pause = by_key(K, Rule::Pause), plain = by_key(K, Rule::Plain);
    std::vector<const Rule*> holds;
    for (auto& r : conf.rules) if (r.key == K && r.kind == Rule::Hold) holds.push_back(&r);
    for (auto i = size_t{ 1 }; i < holds.size(); ++i) if (holds[i]->ms >= holds[i - 1]->ms) return false;
    if ((hold != nullptr) + (nothold != nullptr) + (seq != nullptr) + (pause != nullptr) > 1) return false;
    // shadowed by an earlier mapping
    if (plain && rule == plain && (hold || nothold)) return false;
    if (plain && (seq || pause)) return false;
    for (auto k : mapped) if (k != K && !(seq && k == seq->key2)) return false;
    // the trigger is pressed once
    auto presses = 0;
    for (auto i = b; i < e; ++i) presses += keys[i].code == K && keys[i].value == 1;
    if (presses != 1 || keys[trig].value != 1) return false;
    std::vector<Item> fb = plain ? plain->out : std::vector<Item>{ { K, 0 } };

    for (auto i = b; i < trig; ++i) if (keys[i].value != 2) put(keys[i].t, sl, keys[i].code, keys[i].value);
    auto t0 = keys[trig].t;
    // deliver the remaining input unchanged
    auto rest = [&](size_t i) {
      for (; i < e; ++i) {
        if (keys[i].value == 2) continue;
        if (keys[i].code == K) { if (keys[i].value == 0) release(keys[i].t); }
        else put(keys[i].t, sl, keys[i].code, keys[i].value);
      }
    };
    auto next = trig + 1;
    while (next < e && keys[next].value == 2 && keys[next].code == K) ++next;
    auto first = next < e ? keys[next].t : Time{ INT64_MAX / 2 };
    if (hold || nothold) {
      for (auto i = next; i < e; ++i) if (keys[i].value == 2) return false;
      // repeats make the output repeat, which is only invisible when it is a single key
      if (next > trig + 1)
        for (auto& r : conf.rules) if (r.key == K && r.out.size() > 1) return false;
      auto el = first - t0;
      auto longest = hold ? hold : nothold;
      auto T = longest->ms * MS;
      if (std::abs(el - T) < m) { o.probes["close"]++; return false; }
      if (hold) {
        if (el > T) { emit(t0 + T, sl, hold->out, held); o.probes["held"]++; }
        else {
          const Rule* sel = nullptr;
          for (auto h : holds) {
            if (std::abs(el - h->ms * MS) < m) { o.probes["close"]++; return false; }
            if (!sel && el > h->ms * MS) sel = h;
          }
          emit(first, sl, sel ? sel->out : fb, held);
          o.probes["not_held"]++;
        }
        rest(next);
      }
      else {
        // only when the key is released as the next event
        if (el > T) { emit(t0 + T, sl, fb, held); o.probes["held"]++; }
        else if (next < e && keys[next].code == K) { emit(first, sl, nothold->out, held); o.probes["not_held"]++; }
        else if (next < e && keys[next].value == 1) { emit(first, sl, fb, held); o.probes["interrupted"]++; }
        else return false;
        rest(next);
      }
    }
    else if (seq || pause) {
      auto T = (seq ? seq : pause)->ms * MS;
      // the release of the key itself does not matter
      auto n = trig + 1;
      while (n < e && keys[n].value == 2 && keys[n].code == K) ++n;
      for (auto i = n; i < e; ++i) if (keys[i].value == 2) return false;
      auto up = Time{ -1 };
      while (n < e && keys[n].value == 0) {
        if (keys[n].code == K) up = keys[n].t; else return false;
        ++n;
      }
      auto f = n < e ? keys[n].t : Time{ INT64_MAX / 2 };
      if (std::abs(f - t0 - T) < m) { o.probes["close"]++; return false; }
      if (up >= 0 && std::abs(up - t0 - T) < m) { o.probes["close"]++; return false; }
      auto released_before = [&](Time t) { return up >= 0 && up < t; };
      if (seq && f - t0 < T && keys[n].code == seq->key2) {
        // completed: output until the second key is released, first key is silent
        emit(f, sl, seq->out, held);
        o.probes["completed"]++;
        for (auto i = n + 1; i < e; ++i) {
          if (keys[i].code == seq->key2) { if (keys[i].value == 0) release(keys[i].t); else return false; }
          else if (keys[i].code != K) put(keys[i].t, sl, keys[i].code, keys[i].value);
        }
      }
      else {
        auto at = std::min(f, t0 + T);
        auto fits = pause && f - t0 > T;
        emit(at, sl, fits ? pause->out : fb, held);
        o.probes[fits ? "held" : "expired"]++;
        if (released_before(at)) release(at);
        for (auto i = trig + 1; i < e; ++i) {
          if (keys[i].value == 2) continue;
          if (keys[i].code == K) { if (!released_before(at)) release(keys[i].t); }
          else put(keys[i].t, sl, keys[i].code, keys[i].value);
        }
      }
    }
    else {
      for (auto i = trig; i < e; ++i) if (keys[i].value == 2) return false;
      emit(t0, sl, plain->out, held);
      o.probes["delayed"]++;
      rest(trig + 1);
    }
    return true;
    };
    auto size = exp.size();
    auto l = low, h = high;
    if (!judge()) {
      // nothing is claimed until everything has certainly settled
      exp.resize(size);
      low = l;
      high = std::max(h, finish);
      Time longest = 0;
      for (auto& r : conf.rules) {
        auto sum = r.ms;
        for (auto& i : r.out) sum += i.ms;
        longest = std::max(longest, sum * MS);
      }
      high += longest + SEC;
      skipped.push_back({ begin, high });
      o.probes["skipped"]++;
    }
    b = e;
  }
  auto in_skipped = [&](Time t) {
    for (auto& p : skipped) if (t >= p.first && t <= p.second) return true;
    return false;
  };

  std::set<int> inj;
  for (auto& k : INJECTED) inj.insert(key_code(k));
  auto i = size_t{ };
  std::vector<Seen> other;
  Time before = 0;
  auto pressed = std::map<int, int>();
  for (auto& ev : desktop_events(ready)) {
    if (ev.value == 2) continue;
    if (inj.count(ev.key)) { other.push_back(ev); continue; }
    if (in_skipped(ev.t)) continue;
    auto at = " " + S((ev.t - W->start) / MS) + " ms";
    if (i == exp.size()) return fail(o, "unexpected " + event_text(ev.key, ev.value) + " at" + at);
    auto& x = exp[i];
    if (x.key != ev.key || x.value != ev.value)
      return fail(o, "output " + event_text(ev.key, ev.value) + " at" + at + " instead of " + event_text(x.key, x.value));
    if (ev.t < x.from) return fail(o, "too early: " + event_text(ev.key, ev.value) + " at" + at + ", not before " + S((x.from - W->start) / MS));
    if (ev.t > x.to) return fail(o, "too late: " + event_text(ev.key, ev.value) + " at" + at + ", not after " + S((x.to - W->start) / MS));
    before = ev.t;
    ++i;
  }
  if (i < exp.size()) return fail(o, "missing " + event_text(exp[i].key, exp[i].value) + " at " + S((exp[i].from - W->start) / MS) + " ms");
  o.probes["events"] += exp.size();

  o.probes["judged"] = 1;
  // what is injected is only put back by delays which are pending
  for (auto j = size_t{ 1 }; j < injected.size(); ++j)
    if (injected[j].t - injected[j - 1].t < 1200 * MS) return;
  if (!skipped.empty()) return;
  auto n = size_t{ };
  for (auto& j : injected) {
    if (!inj.count(j.key)) return;
    auto from = j.t, to = j.t + SEC;
    for (auto& p : busy) {
      if (p.from + slack < j.t && p.low > j.t + SEC) from = std::max(from, p.low);
      if (p.from < j.t + SEC && p.high > j.t) to = std::max(to, p.high + SEC);
    }
    for (auto v = 1; v >= 0; --v, ++n) {
      if (n >= other.size() || other[n].key != j.key || other[n].value != v)
        return fail(o, "injected " + event_text(j.key, v) + " was not output in order");
      if (other[n].t < from) return fail(o, "injected " + event_text(j.key, v) + " came before delayed output");
      if (other[n].t > to) return fail(o, "injected " + event_text(j.key, v) + " came too late");
    }
    o.probes["injected"]++;
  }
  if (n != other.size()) return fail(o, "more was injected than requested");
}

void register_timing(std::vector<Property>& list) {
  list.push_back({ "C06", "timed mappings", gen_c06, check_c06, 1, nullptr, nullptr,
    "the complete output was judged and at least one time limit or delay was involved",
    [](const Outcome& o) { return o.get("judged") && o.get("held") + o.get("not_held") + o.get("interrupted") + o.get("completed") + o.get("expired") + o.get("delayed") > 0; },
    15000, "" });
}

}  // namespace sim
