// Driver: explores seeds, minimises and replays failures, writes evidence.
#include "scenario.h"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <poll.h>
#include <sstream>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;

static std::string g_self, g_pool_dir;
static int g_verbose;

static double now_s() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

//---------------------------------------------------------------- outcome transport
static std::string pack(const Outcome& o) {
  std::ostringstream s;
  s << "verdict " << escape(o.verdict) << "\nerror " << escape(o.error) << "\nhash " << o.hash
    << "\nihash " << o.ihash << "\nsteps " << o.steps << "\nsimtime " << o.simtime << "\n";
  for (auto i = 0; i < F_NUM; ++i)
    if (o.faults[i])
      s << "faults " << i << " " << o.faults[i] << "\n";
  for (auto& [k, v] : o.probes)
    s << "probe " << escape(k) << " " << v << "\n";
  if (!o.projection.empty())
    s << "projection " << escape(o.projection) << "\n";
  for (auto& [k, v] : o.fired)
    s << "fired " << k.kind << " " << k.proc << " " << k.ord << " " << v << "\n";
  s << "done\n";
  return s.str();
}

static bool unpack(const std::string& text, Outcome* o) {
  std::istringstream in(text);
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream ls(line);
    std::string w, v;
    ls >> w;
    if (w == "verdict") { ls >> v; o->verdict = unescape(v); }
    else if (w == "error") { ls >> v; o->error = unescape(v); }
    else if (w == "hash") ls >> o->hash;
    else if (w == "ihash") ls >> o->ihash;
    else if (w == "steps") ls >> o->steps;
    else if (w == "simtime") ls >> o->simtime;
    else if (w == "faults") { int i; uint64_t n; ls >> i >> n; if (i >= 0 && i < F_NUM) o->faults[i] = n; }
    else if (w == "probe") { uint64_t n; ls >> v >> n; o->probes[unescape(v)] = n; }
    else if (w == "projection") { ls >> v; o->projection = unescape(v); }
    else if (w == "fired") { FaultKey k; int64_t n; ls >> k.kind >> k.proc >> k.ord >> n; o->fired.push_back({ k, n }); }
    else if (w == "done") return true;
  }
  return false;
}

static void write_all(int fd, const std::string& s) {
  size_t pos = 0;
  while (pos < s.size()) {
    auto n = ::write(fd, s.data() + pos, s.size() - pos);
    if (n < 0) {
      if (errno == EINTR) continue;
      return;
    }
    pos += (size_t)n;
  }
}

//---------------------------------------------------------------- one run
static int g_result_fd = -1;
static void fill(Outcome& o) {
  o.hash = log_hash();
  o.ihash = W->sched_hash;
  o.steps = W->steps;
  o.simtime = W->now - W->start;
  for (auto i = 0; i < F_NUM; ++i)
    o.faults[i] = W->fault_count[i];
  o.fired = W->fired;
}

// called each second of CPU time
static void on_crash(int sig);
static void on_tick(int sig) {
  static uint64_t steps = ~0ul;
  static int same = 0, total = 0;
  static void* last = nullptr;
  auto progress = !W || W->steps != steps || last != g_cur || !g_cur;
  steps = W ? W->steps : 0;
  last = g_cur;
  same = progress ? 0 : same + 1;
  if (same >= 8 || ++total > 120)
    on_crash(sig);
}

static void on_crash(int sig) {
  signal(sig, SIG_DFL);
  auto p = g_cur;
  g_cur = nullptr;
  Outcome o;
  if (p && W) {
    auto what = sig == SIGPROF || sig == SIGXCPU ? std::string("hang") : "crash";
    o.verdict = what + " " + std::string(1, p->name[0]) + ": " + p->args[0] + " (" + p->name + ") " +
      (what == "hang" ? "is busy without end" : std::string("dies with ") + strsignal(sig));
    fill(o);
    write_all(g_result_fd, pack(o));
    if (g_verbose > 1) {
      for (auto& r : W->log)
        fprintf(stderr, "%s\n", format_rec(r).c_str());
    }
    _exit(0);
  }
  o.error = std::string("simulator died with ") + strsignal(sig);
  write_all(g_result_fd, pack(o));
  _exit(0);
}

// a program that never comes to rest is stopped at no particular point
static bool same(const Outcome& a, const Outcome& b) {
  return a.verdict == b.verdict && (a.hash == b.hash || a.verdict.rfind("hang ", 0) == 0);
}

static void child_main(const Property& prop, const Scenario& s, int fd) {
  g_result_fd = fd;
  static char altstack[1 << 16];
  stack_t ss{ };
  ss.ss_sp = altstack;
  ss.ss_size = sizeof(altstack);
  sigaltstack(&ss, nullptr);
  for (auto sig : { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGPROF, SIGXCPU, SIGTRAP }) {
    struct sigaction sa{ };
    sa.sa_handler = sig == SIGPROF ? &on_tick : &on_crash;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    sigaction(sig, &sa, nullptr);
  }
  itimerval tv{ };
  tv.it_value.tv_sec = tv.it_interval.tv_sec = 1;
  setitimer(ITIMER_PROF, &tv, nullptr);
  if (!g_verbose) {
    if (!freopen("/dev/null", "w", stdout)) {}
  }
  setup_world(s);
  run_ops(s);
  Outcome o;
  if (W->hit_step_cap)
    o.verdict = "endless: the programs are still busy after " + std::to_string(W->steps) + " system calls and " + std::to_string(W->procs.size()) + " processes";
  else {
    if (!W->verdict.empty())
      o.verdict = W->verdict;
    else if (W->exhausted)
      o.probes["too_many_programs"] = 1;
    else
      prop.check(s, o);
  }
  fill(o);
  if (g_verbose > 1)
    for (auto& r : W->log)
      fprintf(stderr, "%s\n", format_rec(r).c_str());
  write_all(fd, pack(o));
  _exit(0);
}

static Outcome run_one(const Property& prop, const Scenario& s) {
  int p[2];
  if (pipe(p) != 0) { perror("pipe"); _exit(3); }
  fflush(stdout);
  fflush(stderr);
  auto pid = fork();
  if (pid < 0) { perror("fork"); _exit(3); }
  if (pid == 0) {
    close(p[0]);
    child_main(prop, s, p[1]);
    _exit(0);
  }
  close(p[1]);
  std::string data;
  char b[65536];
  for (;;) {
    auto n = read(p[0], b, sizeof(b));
    if (n < 0 && errno == EINTR) continue;
    if (n <= 0) break;
    data.append(b, (size_t)n);
  }
  close(p[0]);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Outcome o;
  if (!unpack(data, &o)) {
    o = { };
    o.error = "run ended unexpectedly, status " + std::to_string(st);
  }
  return o;
}

// runs all variants; the combined verdict is in the first outcome
static Outcome run_full(const Property& prop, const Scenario& s) {
  auto first = run_one(prop, s);
  auto variants = (int)s.num("variants", prop.variants);
  if (variants <= 1 || !first.verdict.empty() || !first.error.empty())
    return first;
  std::vector<Outcome> all{ first };
  for (auto v = 1; v < variants; ++v) {
    auto t = s;
    prop.variant(t, v);
    all.push_back(run_one(prop, t));
    if (!all.back().error.empty()) { first.error = all.back().error; return first; }
    if (!all.back().verdict.empty()) { first.verdict = all.back().verdict; return first; }
    first.steps += all.back().steps;
    first.simtime += all.back().simtime;
    first.hash = hash_of(first.hash, all.back().hash);
    for (auto i = 0; i < F_NUM; ++i)
      first.faults[i] += all.back().faults[i];
  }
  first.verdict = prop.compare(s, all);
  std::replace(first.verdict.begin(), first.verdict.end(), '\n', ' ');
  return first;
}

static Scenario make(const Property& prop, uint64_t seed) {
  Scenario s;
  s.property = prop.id;
  s.seed = seed;
  Rng r(seed);
  prop.generate(s, r);
  return s;
}

static std::string signature(const std::string& verdict) {
  return verdict.substr(0, verdict.find(':'));
}

//---------------------------------------------------------------- minimise
static Scenario minimise(const Property& prop, Scenario s, const std::string& sig, double limit, uint64_t* tries) {
  auto end = now_s() + limit;
  auto fails = [&](const Scenario& c) {
    ++*tries;
    auto o = run_full(prop, c);
    return o.error.empty() && signature(o.verdict) == sig;
  };
  auto drop_ops = [&](const Scenario& in, size_t from, size_t count) {
    auto out = in;
    out.ops.clear();
    int64_t carry = 0;
    for (size_t i = 0; i < in.ops.size(); ++i) {
      if (i >= from && i < from + count && !in.ops[i].pinned) {
        carry += in.ops[i].gap;
        continue;
      }
      out.ops.push_back(in.ops[i]);
      out.ops.back().gap += carry;
      carry = 0;
    }
    return out;
  };
  auto changed = true;
  for (auto round = 0; round < 4 && changed && now_s() < end; ++round) {
    changed = false;
    // faults
    for (size_t n = std::max<size_t>(1, s.faults.size()); n >= 1; n /= 2) {
      for (size_t i = 0; i < s.faults.size() && now_s() < end; ) {
        auto c = s;
        c.faults.erase(c.faults.begin() + (long)i, c.faults.begin() + (long)std::min(i + n, c.faults.size()));
        if (fails(c)) { s = c; changed = true; }
        else i += n;
      }
      if (n == 1) break;
    }
    // operations
    for (size_t n = std::max<size_t>(1, s.ops.size() / 2); n >= 1; n /= 2) {
      for (size_t i = 0; i < s.ops.size() && now_s() < end; ) {
        auto any = false;
        for (size_t j = i; j < std::min(i + n, s.ops.size()); ++j)
          any = any || !s.ops[j].pinned;
        if (!any) { i += n; continue; }
        auto c = drop_ops(s, i, n);
        if (fails(c)) { s = c; changed = true; }
        else i += n;
      }
      if (n == 1) break;
    }
    // lines of configurations
    for (size_t i = 0; i < s.ops.size() && now_s() < end; ++i)
      if (s.ops[i].name == "conf" && s.ops[i].args.size() >= 2) {
        std::vector<std::string> lines;
        std::istringstream in(s.ops[i].args[1]);
        std::string l;
        while (std::getline(in, l)) lines.push_back(l);
        for (size_t k = 0; k < lines.size() && now_s() < end; ) {
          auto rest = lines;
          rest.erase(rest.begin() + (long)k);
          auto c = s;
          auto& text = c.ops[i].args[1];
          text.clear();
          for (auto& x : rest) text += x + "\n";
          if (fails(c)) { s = c; lines = rest; changed = true; }
          else ++k;
        }
      }
    // times
    for (size_t i = 0; i < s.ops.size() && now_s() < end; ++i)
      for (auto g : { 1000ll, 100000ll, 1000000ll })
        if (s.ops[i].gap > 2 * g && !s.ops[i].pinned) {
          auto c = s;
          c.ops[i].gap = g;
          if (fails(c)) { s = c; changed = true; break; }
        }
    for (auto& f : s.faults)
      if (now_s() < end && f.second > 1) {
        auto old = f.second;
        f.second = old / 2;
        if (!fails(s)) f.second = old;
        else changed = true;
      }
  }
  return s;
}

//---------------------------------------------------------------- files
static bool read_file(const std::string& path, std::string* out) {
  std::ifstream f(path, std::ios::binary);
  if (!f.good()) return false;
  std::ostringstream s;
  s << f.rdbuf();
  *out = s.str();
  return true;
}

static void write_text(const std::string& path, const std::string& text) {
  auto tmp = path + ".tmp" + std::to_string(getpid());
  std::ofstream(tmp, std::ios::binary) << text;
  rename(tmp.c_str(), path.c_str());
}

static std::string json_str(const std::string& s) {
  std::string r = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c == '\n') r += "\\n";
    else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof(b), "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r + "\"";
}

// replays a file in a fresh process; returns the verdict it printed
static std::string replay_fresh(const std::string& path, uint64_t* hash) {
  auto cmd = "'" + g_self + "' replay '" + path + "' 2>/dev/null";
  auto f = popen(cmd.c_str(), "r");
  std::string out;
  char b[4096];
  while (fgets(b, sizeof(b), f)) out += b;
  pclose(f);
  std::istringstream in(out);
  std::string line, verdict;
  while (std::getline(in, line)) {
    if (line.rfind("verdict: ", 0) == 0) verdict = line.substr(9);
    if (line.rfind("hash: ", 0) == 0) *hash = strtoull(line.c_str() + 6, nullptr, 10);
  }
  return verdict;
}

static Scenario load(const std::string& path) {
  std::string text, err;
  Scenario s;
  if (!read_file(path, &text) || !Scenario::parse(text, &s, &err)) {
    fprintf(stderr, "cannot read %s: %s\n", path.c_str(), err.c_str());
    exit(2);
  }
  return s;
}

//---------------------------------------------------------------- check
struct Finding { std::string property, replay, what; };
static std::vector<Finding> known_findings(const std::string& path) {
  std::vector<Finding> r;
  std::ifstream f(path);
  std::string line;
  while (std::getline(f, line)) {
    if (line.rfind("known: ", 0) != 0)
      continue;
    std::istringstream ls(line.substr(7));
    Finding k;
    std::string a, b;
    ls >> a >> b;
    k.property = a.substr(a.find('=') + 1);
    k.replay = b.substr(b.find('=') + 1);
    std::getline(ls, k.what);
    while (!k.what.empty() && k.what[0] == ' ') k.what.erase(0, 1);
    r.push_back(k);
  }
  return r;
}

struct RunMsg { uint64_t index; uint64_t seed; uint64_t shash; bool gate_bad; Outcome o; };

static int check(const Property& prop, const std::string& tier, uint64_t vseed, const std::string& root,
                 uint64_t runs, double budget, int jobs) {
  auto t0 = now_s();
  uint64_t evaluations = 0, nontrivial = 0, steps = 0, max_steps = 0, gates = 0, rejected = 0;
  Time simtime = 0;
  uint64_t faults[F_NUM] = { };
  std::set<uint64_t> hashes, inter, scen_nontrivial;
  std::map<std::string, uint64_t> probes;
  std::string error;
  auto errors = 0;
  struct Fail { uint64_t index, seed; Outcome o; };
  std::vector<Fail> fails;
  uint64_t violations = 0;
  std::vector<std::string> known_lines;

  // listed findings and earlier failures first
  for (auto& k : known_findings(root + "/known-findings.txt")) {
    if (k.property != prop.id)
      continue;
    auto s = load(root + "/" + k.replay);
    auto o = run_full(prop, s);
    ++evaluations;
    if (!o.error.empty()) { fprintf(stderr, "error in %s: %s\n", k.replay.c_str(), o.error.c_str()); return 2; }
    if (!o.verdict.empty())
      known_lines.push_back("KNOWN-FINDING: property=" + prop.id + " " + k.what);
  }
  for (auto& l : known_lines)
    printf("%s\n", l.c_str());
  std::vector<std::string> regress;
  {
    auto f = popen(("ls '" + root + "/regress' 2>/dev/null").c_str(), "r");
    char b[512];
    while (fgets(b, sizeof(b), f)) {
      std::string n = b;
      while (!n.empty() && n.back() == '\n') n.pop_back();
      if (n.rfind(prop.id + "-", 0) == 0)
        regress.push_back(root + "/regress/" + n);
    }
    pclose(f);
  }
  std::string regress_failed;
  Outcome regress_outcome;
  for (auto& path : regress) {
    auto o = run_full(prop, load(path));
    ++evaluations;
    if (!o.error.empty()) error = path + ": " + o.error;
    if (!o.verdict.empty() && regress_failed.empty()) {
      regress_failed = path;
      regress_outcome = o;
    }
  }

  if (regress_failed.empty()) {
    std::vector<pollfd> fds;
    std::vector<pid_t> pids;
    std::vector<std::string> bufs;
    for (auto j = 0; j < jobs; ++j) {
      int p[2];
      if (pipe(p) != 0) return 3;
      fflush(stdout);
      auto pid = fork();
      if (pid == 0) {
        close(p[0]);
        for (auto& f : fds) close(f.fd);
        for (uint64_t i = (uint64_t)j; i < runs; i += (uint64_t)jobs) {
          if (now_s() - t0 > budget)
            break;
          auto seed = hash_of(vseed, hash_bytes(prop.id.data(), prop.id.size()), i);
          auto s = make(prop, seed);
          auto o = run_full(prop, s);
          auto gate = (i / (uint64_t)jobs) % 25 == 0;
          auto bad = false;
          if (gate) {
            auto again = run_full(prop, s);
            bad = !same(again, o);
          }
          if (o.verdict.empty()) { o.fired.clear(); o.projection.clear(); }
          std::string m = "run " + std::to_string(i) + " " + std::to_string(seed) + " " +
            std::to_string(gate) + " " + std::to_string(bad) + "\n" + pack(o);
          write_all(p[1], m);
          if (!o.verdict.empty())
            break;
        }
        _exit(0);
      }
      close(p[1]);
      pids.push_back(pid);
      fds.push_back({ p[0], POLLIN, 0 });
      bufs.emplace_back();
    }
    auto open = jobs;
    uint64_t completed = 0;
    auto stop_at = 0.0;
    auto killed = false;
    while (open > 0) {
      if (poll(fds.data(), fds.size(), 200) < 0 && errno != EINTR)
        break;
      for (size_t j = 0; j < fds.size(); ++j) {
        if (fds[j].fd < 0 || !(fds[j].revents & (POLLIN | POLLHUP)))
          continue;
        char b[65536];
        auto n = read(fds[j].fd, b, sizeof(b));
        if (n <= 0) {
          close(fds[j].fd);
          fds[j].fd = -1;
          --open;
          continue;
        }
        bufs[j].append(b, (size_t)n);
        for (;;) {
          auto pos = bufs[j].find("\ndone\n");
          if (pos == std::string::npos)
            break;
          auto msg = bufs[j].substr(0, pos + 6);
          bufs[j].erase(0, pos + 6);
          uint64_t index = 0, seed = 0;
          int gate = 0, bad = 0;
          sscanf(msg.c_str(), "run %lu %lu %d %d", &index, &seed, &gate, &bad);
          Outcome o;
          if (!unpack(msg.substr(msg.find('\n') + 1), &o)) {
            if (error.empty()) error = "the result of run " + std::to_string(index) + " is not readable";
            continue;
          }
          ++completed;
          ++evaluations;
          gates += (uint64_t)gate;
          if (bad || !o.error.empty()) ++errors;
          if (bad && error.empty())
            error = "seed " + std::to_string(seed) + " is not deterministic";
          if (!o.error.empty() && error.empty())
            error = "seed " + std::to_string(seed) + ": " + o.error;
          steps += o.steps;
          max_steps = std::max(max_steps, o.steps);
          simtime += o.simtime;
          for (auto i = 0; i < F_NUM; ++i) faults[i] += o.faults[i];
          for (auto& [k, v] : o.probes) probes[k] += v;
          hashes.insert(o.hash);
          inter.insert(o.ihash);
          if (o.get("rejected")) ++rejected;
          if (prop.nontrivial ? prop.nontrivial(o) : true)
            scen_nontrivial.insert(o.hash);
          if (!o.verdict.empty()) {
            fails.push_back({ index, seed, o });
            if (!stop_at) stop_at = now_s() + 0.5;
          }
        }
      }
      if (!killed && ((stop_at && now_s() > stop_at) || errors > 200)) {
        for (auto pid : pids) kill(pid, SIGKILL);
        killed = true;
      }
    }
    // each run has to be accounted for, a worker which died judged nothing
    for (auto pid : pids) {
      int st = 0;
      while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
      if (!killed && (!WIFEXITED(st) || WEXITSTATUS(st) != 0) && error.empty())
        error = "a worker ended unexpectedly, status " + std::to_string(st);
    }
    if (!killed && fails.empty() && error.empty() && completed != runs && now_s() - t0 <= budget)
      error = std::to_string(completed) + " of " + std::to_string(runs) + " runs completed";
  }
  nontrivial = scen_nontrivial.size();
  auto explore_s = now_s() - t0;

  auto exit_code = 0;
  std::string replay_path, verdict_line;
  if (!regress_failed.empty()) {
    violations = 1;
    replay_path = regress_failed;
    verdict_line = regress_outcome.verdict;
    exit_code = 1;
  }
  else if (!fails.empty()) {
    std::sort(fails.begin(), fails.end(), [](auto& a, auto& b) { return a.index < b.index; });
    violations = fails.size();
    // a failure counts when its minimised replay file reproduces it in a fresh process
    for (size_t n = 0; n < std::min<size_t>(fails.size(), 4) && !exit_code; ++n) {
      auto& f = fails[n];
      auto s = make(prop, f.seed);
      auto sig = signature(f.o.verdict);
      s.explicit_faults = true;
      s.faults = f.o.fired;
      auto o = run_full(prop, s);
      if (signature(o.verdict) != sig || (s.num("variants", prop.variants) == 1 && !same(o, f.o))) {
        error = "seed " + std::to_string(f.seed) + ": failure '" + f.o.verdict + "' did not reproduce with explicit faults: '" + o.verdict + o.error + "'";
        continue;
      }
      uint64_t tries = 0;
      auto m = minimise(prop, s, sig, tier == "quick" ? 40 : 120, &tries);
      o = run_full(prop, m);
      mkdir((root + "/_build/replays").c_str(), 0777);
      auto path = root + "/_build/replays/" + prop.id + "-" + std::to_string(f.seed) + ".sim";
      // the comment lines precede the header
      write_text(path, "# " + o.verdict + "\n" + "# found with VERIF_SEED=" + std::to_string(vseed) +
        " run " + std::to_string(f.index) + ", " + std::to_string(s.ops.size()) + " operations reduced to " +
        std::to_string(m.ops.size()) + "\n" + m.text());
      Outcome fresh;
      fresh.verdict = replay_fresh(path, &fresh.hash);
      if (o.verdict.empty() || !same(fresh, o)) {
        error = "replay in a fresh process differs: '" + o.verdict + "' '" + fresh.verdict + "'";
        unlink(path.c_str());
        continue;
      }
      replay_path = path;
      verdict_line = o.verdict;
      exit_code = 1;
    }
  }
  if (!exit_code && !error.empty()) {
    fprintf(stderr, "error: %s\n", error.c_str());
    return 2;
  }

  // evidence
  auto wall = now_s() - t0;
  std::ostringstream e;
  e << "{\n \"property\": " << json_str(prop.id) << ",\n \"tier\": " << json_str(tier) << ",\n \"seed\": " << vseed
    << ",\n \"level\": \"exploration\",\n \"coverage\": {\n"
    << "  \"evaluations\": " << evaluations << ",\n  \"distinct_nontrivial\": " << nontrivial << ",\n"
    << "  \"rule\": " << json_str(std::string("One evaluation is one seeded simulation of the whole system (") +
        std::to_string(prop.variants) + " execution(s)); distinct by the hash of its complete event log; non-trivial when " +
        prop.nontrivial_rule) << ",\n";
  e << "  \"samples\": [";
  for (uint64_t i = 0; i < 2; ++i) {
    auto s = make(prop, hash_of(vseed, hash_bytes(prop.id.data(), prop.id.size()), i));
    auto text = s.text();
    if (text.size() > 3000) text = text.substr(0, 3000) + "...";
    e << (i ? ", " : "") << json_str(text);
  }
  e << "],\n";
  e << "  \"simulation_runs_per_hour\": " << (uint64_t)((double)evaluations / std::max(explore_s, 0.001) * 3600) << ",\n"
    << "  \"seeds_per_hour\": " << (uint64_t)((double)evaluations / std::max(explore_s, 0.001) * 3600) << ",\n"
    << "  \"simulated_seconds\": " << (uint64_t)(simtime / SEC) << ",\n"
    << "  \"scheduler_steps\": " << steps << ",\n"
    << "  \"scheduler_steps_of_longest_run\": " << max_steps << ",\n"
    << "  \"distinct_event_logs\": " << hashes.size() << ",\n"
    << "  \"distinct_interleavings\": " << inter.size() << ",\n"
    << "  \"interleaving_measure\": \"hash over the sequence of (process, number of system calls it had made) at each scheduling decision\",\n"
    << "  \"determinism_gates_run_twice\": " << gates << ",\n"
    << "  \"rejected_configurations\": " << rejected << ",\n  \"faults_injected\": {";
  auto first = true;
  for (auto i = 0; i < F_NUM; ++i)
    if (faults[i]) {
      e << (first ? "" : ", ") << json_str(fault_names[i]) << ": " << faults[i];
      first = false;
    }
  e << "},\n  \"probes\": {";
  first = true;
  for (auto& [k, v] : probes) {
    e << (first ? "" : ", ") << json_str(k) << ": " << v;
    first = false;
  }
  e << "},\n  \"known_findings_reproduced\": " << known_lines.size() << ",\n"
    << "  \"real_components\": [\"keymapperd (src/server, src/server/unix, src/runtime)\", \"keymapper (src/client, src/client/unix incl. X11/D-Bus/wlroots focus and tray code, src/config, src/runtime)\", \"keymapperctl (src/control)\", \"src/common\"],\n"
    << "  \"stubbed_components\": [\"Linux kernel: evdev, uinput, inotify, unix sockets, processes, signals, files, clock (simulated)\", \"X server, D-Bus daemon, Wayland compositor, GTK/appindicator libraries (simulated)\", \"desktop reading input devices (simulated)\", \"programs started by terminal commands (simulated)\", \"wlroots and Wayland/X11/XKB layout back ends (not built)\"]\n },\n"
    << " \"assumptions\": [\"the simulated kernel interfaces behave like Linux as described in DESIGN.md\", \"programs only interact through the intercepted libc, X11, D-Bus, Wayland and GTK calls; an unknown call ends the check with an error\"],\n"
    << " \"violations\": " << violations << ",\n \"wall_s\": " << wall << "\n}\n";
  mkdir((root + "/evidence").c_str(), 0777);
  write_text(root + "/evidence/" + prop.id + ".json", e.str());

  printf("%s %s: %lu runs, %lu distinct non-trivial, %lu interleavings, %.0f simulated s, %.1f s\n", prop.id.c_str(),
    tier.c_str(), evaluations, nontrivial, inter.size(), (double)simtime / 1e9, wall);
  if (exit_code) {
    printf("%s\n", verdict_line.c_str());
    printf("VIOLATION property=%s replay=%s\n", prop.id.c_str(), replay_path.c_str());
  }
  fflush(stdout);
  return exit_code;
}

int main(int argc, char** argv) {
  // fixed addresses, so that nothing can depend on them
  auto pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("KMSIM_NO_REEXEC")) {
    if (personality((unsigned long)pers | ADDR_NO_RANDOMIZE) != -1) {
      setenv("KMSIM_NO_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  char self[4096] = { };
  if (readlink("/proc/self/exe", self, sizeof(self) - 1) < 0) return 3;
  g_self = self;
  auto dir = g_self.substr(0, g_self.rfind('/'));
  g_pool_dir = dir + "/pool";
  std::vector<std::string> args(argv + 1, argv + argc);
  auto opt = [&](const std::string& name, const std::string& def) {
    for (size_t i = 0; i + 1 < args.size(); ++i)
      if (args[i] == name) return args[i + 1];
    return def;
  };
  auto flag = [&](const std::string& name) { return std::find(args.begin(), args.end(), name) != args.end(); };
  if (args.empty()) { fprintf(stderr, "usage: kmsim check|replay|one|show|list ...\n"); return 2; }
  if (flag("-v")) g_verbose = 2;
  if (args[0] == "list") {
    for (auto& p : properties()) printf("%s %d %s\n", p.id.c_str(), p.quick_runs, p.title.c_str());
    return 0;
  }
  if (!load_pool(g_pool_dir)) { fprintf(stderr, "cannot load programs\n"); return 3; }
  if (args[0] == "replay" && args.size() >= 2) {
    auto s = load(args[1]);
    auto prop = find_property(opt("--property", s.property));
    if (!prop) return 2;
    auto o = run_full(*prop, s);
    printf("verdict: %s\nhash: %lu\n", o.verdict.c_str(), o.hash);
    if (!o.error.empty()) { fprintf(stderr, "error: %s\n", o.error.c_str()); return 2; }
    if (!o.verdict.empty())
      printf("VIOLATION property=%s replay=%s\n", prop->id.c_str(), args[1].c_str());
    return o.verdict.empty() ? 0 : 1;
  }
  if ((args[0] == "one" || args[0] == "show") && args.size() >= 3) {
    auto prop = find_property(args[1]);
    if (!prop) return 2;
    auto s = make(*prop, strtoull(args[2].c_str(), nullptr, 0));
    if (args[0] == "show") { printf("%s", s.text().c_str()); return 0; }
    auto o = run_full(*prop, s);
    printf("verdict: %s\nerror: %s\nhash: %lu\nsteps: %lu simtime: %.3f\n", o.verdict.c_str(), o.error.c_str(), o.hash, o.steps, (double)o.simtime / 1e9);
    for (auto& [k, v] : o.probes) printf("probe %s %lu\n", k.c_str(), v);
    if (flag("-s")) printf("%s", s.text().c_str());
    return o.verdict.empty() ? 0 : 1;
  }
  if (args[0] == "check" && args.size() >= 2) {
    auto prop = find_property(args[1]);
    if (!prop) { fprintf(stderr, "unknown property\n"); return 2; }
    auto tier = opt("--tier", "quick");
    auto seed = strtoull(opt("--seed", "1").c_str(), nullptr, 0);
    auto root = opt("--root", dir + "/..");
    auto jobs = atoi(opt("--jobs", std::to_string(sysconf(_SC_NPROCESSORS_ONLN))).c_str());
    auto scale = atof(opt("--scale", tier == "quick" ? "1" : "20").c_str());
    auto runs = (uint64_t)atoll(opt("--runs", std::to_string((uint64_t)((double)prop->quick_runs * scale))).c_str());
    auto budget = atof(opt("--budget", tier == "quick" ? "240" : "780").c_str());
    return check(*prop, tier, seed, root, runs, budget, std::max(1, jobs));
  }
  return 2;
}
