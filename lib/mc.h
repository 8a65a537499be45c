// mc.h - a small stateless explicit-choice model checker.
//
// A scenario is a function that asks the explorer for every nondeterministic decision with
// Ctx::choose(n).  The explorer enumerates the complete tree of decisions, depth first; every
// execution starts from scratch on fresh objects of the code under test.  The tree is cut into
// units (decision prefixes); each unit is explored in its own forked process, so that the
// executions of one unit form a deterministic, replayable sequence.
#ifndef VERIF_MC_H
#define VERIF_MC_H
#include <algorithm>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
extern "C" const char *__asan_default_options() {
  return "abort_on_error=1:detect_leaks=0:allocator_may_return_null=0:handle_abort=0";
}
#define MC_ASAN 1
#endif

namespace mc {

inline double now() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

// ---------------------------------------------------------------- hashing
struct Hash {
  uint64_t v = 1469598103934665603ull;
  void raw(const void *p, size_t n) {
    const unsigned char *b = (const unsigned char *)p;
    for (size_t i = 0; i < n; ++i) { v ^= b[i]; v *= 1099511628211ull; }
    v ^= v >> 29;
  }
  template <typename T> Hash &operator<<(const T &t) { raw(&t, sizeof t); return *this; }
  Hash &operator<<(double d) {
    if (d == 0) d = 0; // -0
    if (std::isnan(d)) { d = 12345.678e200; }
    raw(&d, sizeof d); return *this;
  }
  Hash &operator<<(const std::string &s) { raw(s.data(), s.size()); size_t n = s.size(); raw(&n, sizeof n); return *this; }
  operator uint64_t() const { return v; }
};

// a template for mkdtemp/mkstemp; bin/check removes whatever an execution that died has left there
inline std::string scratch(const char *name) { const char *d = getenv("VERIF_SCRATCH"); return std::string(d && *d ? d : "/tmp") + "/" + name + "_XXXXXX"; }
struct Prune {};
struct Fail { std::string key, msg; };

struct Slot { // shared with the parent
  volatile int n;
  volatile double t0;
  volatile unsigned long execs;
  short c[6000];
};

class Ctx {
public:
  bool thorough = false;
  bool trace = false;
  // every nondeterministic decision of an execution
  int choose(int n, const char *label = "") {
    if (n <= 0) { fprintf(stderr, "mc: choose(%d) at %s\n", n, label); abort(); }
    if (!_word.empty()) { size_t k = _wpos++; return int((_word[k % _word.size()] + (k / _word.size()) * _drift) % size_t(n)); }
    int v = 0;
    if (_pos < _c.size()) {
      v = _c[_pos];
      if (_pos < _ar.size()) {
        if (_ar[_pos] != n) throw Fail{"nondeterminism", std::string("replaying the same decisions, the code under test reached a different state at decision '") + label + "'"};
      } else _ar.push_back(n);
      if (v >= n) throw Fail{"nondeterminism", std::string("recorded decision out of range at '") + label + "'"};
    } else {
      _c.push_back(0); _ar.push_back(n);
    }
    if (_slot && _pos < 6000) { _slot->c[_pos] = v; _slot->n = _pos + 1; }
    ++_pos;
    if (trace && n > 1) { _log << " " << (label[0] ? label : "choice") << "=" << v << "/" << n; }
    return v;
  }
  // From here on the execution follows a periodic history: a word of `len` answers (every word over 0..letters-1 is
  // explored), repeated for all later decisions, each repetition shifted by a drift of 0 .. drifts-1.  For histories
  // far too long to branch at every step.
  void periodic(int len, int letters, int drifts = 2) {
    size_t drift = choose(drifts, "drift"); std::vector<int> w; for (int i = 0; i < len; ++i) w.push_back(choose(letters, "letter"));
    _word = w; _drift = drift; _wpos = 0;
  }
  bool repeating() const { return !_word.empty(); }
  bool flag(const char *label = "") { return choose(2, label) == 1; }
  template <typename T> const T &pick(const std::vector<T> &v, const char *label = "") { return v[choose(v.size(), label)]; }
  // a decision whose non-default answers consume one unit of the deviation budget
  int budget = 1 << 30;
  int deviate(int n, const char *label = "") {
    if (budget <= 0) return 0;
    int v = choose(n, label);
    if (v) --budget;
    return v;
  }
  void step(unsigned n = 1) { transitions += n; }
  void state(uint64_t h) { states.insert(h); }
  // true if the state was already fully explored (only asked for states not in the replayed prefix)
  bool seen(uint64_t h) {
    states.insert(h);
    if (_pos < _fresh_from || !_word.empty()) return false;
    return !_visited.insert(h).second;
  }
  void prune() { throw Prune{}; }
  void outcome(uint64_t h) { outcomes.insert(h); _nontriv = true; }
  void nontrivial() { _nontriv = true; }
  [[noreturn]] void fail(const std::string &key, const std::string &msg) { throw Fail{key, msg}; }
  std::ostream &log() { return _log; }

  // ---- statistics
  uint64_t transitions = 0, execs = 0, pruned = 0, nontriv = 0;
  std::unordered_set<uint64_t> states, outcomes;
  std::map<std::string, uint64_t> counters;
  std::string logged() const { return _log.str(); }

  // ---- explorer side
  std::vector<int> _c, _ar;
  size_t _pos = 0, _fresh_from = 0, _wpos = 0, _drift = 0;
  std::vector<int> _word;
  bool _nontriv = false;
  Slot *_slot = nullptr;
  std::unordered_set<uint64_t> _visited;
  std::ostringstream _log;
};

#define MC_CHECK(cx, cond, key, msg)                                     \
  do { if (!(cond)) { std::ostringstream mc_os_; mc_os_.precision(17); mc_os_ << msg; (cx).fail(key, mc_os_.str()); } } while (0)
#define MC_LOG(cx, msg) do { if ((cx).trace) { (cx).log() << msg; } } while (0)

inline bool near(double a, double b, double tol = 1e-9) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (a == b) return true;
  return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
}

typedef std::function<void(Ctx &)> ScenarioFn;
// runs f in a child process; returns what it wrote to stderr if it was killed, and "" if it survived
inline std::string died(const std::function<void()> &f, double limit = 20) {
  int fd[2]; if (pipe(fd)) return "";
  fflush(nullptr); pid_t p = fork();
  if (!p) { dup2(fd[1], 2); close(fd[0]); close(fd[1]); alarm(unsigned(limit)); try { f(); } catch (const std::exception &e) { std::string m = std::string("exception ") + e.what(); if (write(2, m.c_str(), m.size())) {} _exit(9); } _exit(0); }
  close(fd[1]); std::string out; char buf[512]; ssize_t n; while ((n = read(fd[0], buf, sizeof buf)) > 0) out.append(buf, n);
  close(fd[0]); int st; waitpid(p, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
  return "died: " + out;
}

struct Scenario { std::string name; ScenarioFn fn; int split; bool thorough_only; };
inline std::vector<Scenario> &scenarios() { static std::vector<Scenario> s; return s; }
struct Reg {
  Reg(const char *name, ScenarioFn fn, int split = 2, bool thorough_only = false) { scenarios().push_back({name, fn, split, thorough_only}); }
};
#define MC_SCENARIO(name, ...)                                          \
  static void mc_sc_##name(mc::Ctx &);                                  \
  static mc::Reg mc_reg_##name(#name, mc_sc_##name, ##__VA_ARGS__);     \
  static void mc_sc_##name(mc::Ctx &cx)

// ---------------------------------------------------------------- running
enum Res { OK, PRUNED, FAILED };
struct RunOut { Res r; Fail f; };

// what the code under test leaves uninitialised reads as the same pattern in every execution:
// the heap through M_PERTURB (child_setup), the stack by filling it here
__attribute__((noinline, no_sanitize("address"))) inline void fill_stack() {
  volatile char pad[32768]; memset((void *)pad, 0x5b, sizeof pad); asm volatile("" : : "r"(pad) : "memory");
}

inline RunOut run_one(const Scenario &s, Ctx &cx) {
  fill_stack();
  cx._pos = 0; cx._nontriv = false; cx.budget = 1 << 30; cx._word.clear();
  if (cx._slot) { cx._slot->n = 0; cx._slot->t0 = now(); }
  RunOut o{OK, {}};
  try { s.fn(cx); }
  catch (Prune &) { o.r = PRUNED; ++cx.pruned; }
  catch (Fail &f) { o.r = FAILED; o.f = f; }
  catch (std::exception &e) { o.r = FAILED; o.f = Fail{"exception", std::string("exception escaped from the code under test: ") + e.what()}; }
  catch (...) { o.r = FAILED; o.f = Fail{"exception", "unknown exception escaped from the code under test"}; }
  ++cx.execs;
  if (cx._nontriv) ++cx.nontriv;
  if (cx._slot) cx._slot->execs = cx.execs;
  if (o.r == OK && cx._pos < cx._c.size()) {
    o.r = FAILED; o.f = Fail{"nondeterminism", "replaying the same decisions, the execution ended earlier than before"};
  }
  return o;
}
// next decision vector in depth-first order, keeping the first `locked` decisions
inline bool advance(Ctx &cx, size_t locked) {
  cx._c.resize(std::min(cx._c.size(), cx._pos)); cx._ar.resize(cx._c.size());
  while (cx._c.size() > locked) {
    size_t i = cx._c.size() - 1;
    if (cx._c[i] + 1 < cx._ar[i]) { ++cx._c[i]; cx._fresh_from = i + 1; return true; }
    cx._c.pop_back(); cx._ar.pop_back();
  }
  return false;
}

struct Unit { int sc; std::vector<int> prefix; };
struct Violation { int sc; std::vector<int> prefix, choices; std::string key, msg; bool whole_unit = false; };

inline std::string js(const std::string &s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o + "\"";
}
inline std::string vecs(const std::vector<int> &v) { std::string s; for (int i : v) { s += std::to_string(i); s += ' '; } return s; }
inline std::vector<int> svec(const std::string &s) { std::istringstream is(s); std::vector<int> v; int i; while (is >> i) v.push_back(i); return v; }

struct Options {
  std::string id = "C00", tier = "quick", out, known, replay, replay_dir = ".", only, level = "model_checking", tmp;
  int jobs = 8; double deadline = 780, exec_limit = 40; long seed = 1;
};

inline void child_setup(const std::string &errfile) {
  int fd = open("/dev/null", O_WRONLY); dup2(fd, 1);
  int fe = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644); dup2(fe, 2);
  static std::ostringstream sink; // the code under test may be chatty
  std::cout.rdbuf(nullptr); std::cerr.rdbuf(nullptr); std::clog.rdbuf(nullptr);
  mallopt(M_PERTURB, 0xa4); // allocated memory starts as 0x5b...
  struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
  rl.rlim_cur = rl.rlim_max = 256u << 20; setrlimit(RLIMIT_FSIZE, &rl);
#ifndef MC_ASAN
  rl.rlim_cur = rl.rlim_max = 3ull << 29; setrlimit(RLIMIT_AS, &rl);
#endif
}

inline std::string tail_of(const std::string &file) {
  std::ifstream f(file); std::string s((std::istreambuf_iterator<char>(f)), {});
  size_t p = s.find("ERROR: AddressSanitizer");
  if (p != std::string::npos) return s.substr(p, 400);
  if (s.size() > 500) s = s.substr(s.size() - 500);
  while (!s.empty() && s.back() == '\n') s.pop_back();
  return s;
}

class Runner {
public:
  Options opt;
  std::map<std::string, std::string> known_text;
  std::set<std::string> known_keys;      // findings listed for this property
  std::map<std::string, uint64_t> known_hits;
  std::map<std::string, std::string> known_example;

  // run `fn` in a fresh process; returns status; fn must _exit.
  // --- replay of one execution (or of a whole unit up to it) in a fresh process
  bool reproduce(Violation &v, bool whole, double limit, std::string &trace) {
    std::string f = opt.tmp + "/replay.out", e = opt.tmp + "/replay.err";
    unlink(f.c_str());
    static Slot *slot = (Slot *)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    slot->n = 0; slot->execs = 0; slot->t0 = now();
    pid_t p = fork();
    if (!p) {
      child_setup(e);
      Ctx cx; cx.thorough = opt.tier == "thorough";
      const Scenario &s = scenarios()[v.sc];
      RunOut o{OK, {}};
      if (whole) {
        cx._c = v.prefix; cx._fresh_from = v.prefix.size(); cx._slot = slot;
        for (;;) {
          o = run_one(s, cx);
          if (o.r == FAILED && known_keys.count(o.f.key)) o.r = OK;
          if (o.r == FAILED) break;
          if (!advance(cx, v.prefix.size())) break;
        }
      } else {
        cx._c = v.choices; cx.trace = true;
        // keep what is logged so far available even if the code under test crashes
        o = run_one(s, cx);
      }
      std::ofstream os(f);
      os << (o.r == FAILED ? 1 : 0) << "\n" << o.f.key << "\n" << o.f.msg << "\n\x01" << cx.logged();
      os.close();
      _exit(o.r == FAILED ? 3 : 0);
    }
    double t = now(); int st = 0; bool to = false;
    while (waitpid(p, &st, WNOHANG) == 0) {
      if (now() - t > limit || (whole && now() - slot->t0 > 120)) { kill(p, SIGKILL); waitpid(p, &st, 0); to = true; break; }
      usleep(2000);
    }
    if (to && whole && now() - slot->t0 < 110) return false; // a long unit, not an execution that hangs
    if (to) { v.key = "hang"; v.msg = "the execution does not terminate"; return true; }
    if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 3)) {
      v.key = "crash"; v.msg = "the code under test aborted: " + tail_of(e); return true;
    }
    std::ifstream is(f); std::string all((std::istreambuf_iterator<char>(is)), {});
    size_t m = all.find('\x01'); trace = m == std::string::npos ? "" : all.substr(m + 1);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 3)) return false;
    size_t a = all.find('\n'), b = all.find('\n', a + 1);
    v.key = all.substr(a + 1, b - a - 1); v.msg = all.substr(b + 1, m - b - 2);
    return true;
  }

  std::string write_replay(const Violation &v, const std::string &trace) {
    mkdir(opt.replay_dir.c_str(), 0755);
    std::string path = opt.replay_dir + "/" + opt.id + "-" + scenarios()[v.sc].name + ".replay";
    std::ofstream os(path);
    os << "property " << opt.id << "\nscenario " << scenarios()[v.sc].name << "\ntier " << opt.tier
       << "\nmode " << (v.whole_unit ? "unit" : "execution")
       << "\nprefix " << vecs(v.prefix) << "\nchoices " << vecs(v.choices)
       << "\nkey " << v.key << "\nmessage " << v.msg << "\ntrace " << trace << "\n";
    return path;
  }

  int run() {
    std::string tmpl = scratch("mc"); if (!mkdtemp(&tmpl[0])) abort(); opt.tmp = tmpl;
    int rc = opt.replay.empty() ? explore_all() : replay_file();
    std::string cmd = "rm -rf '" + opt.tmp + "'"; if (system(cmd.c_str())) {}
    return rc;
  }

  int replay_file() {
    std::ifstream is(opt.replay); std::string line; Violation v; v.sc = -1;
    while (std::getline(is, line)) {
      size_t p = line.find(' '); std::string k = line.substr(0, p), a = p == std::string::npos ? "" : line.substr(p + 1);
      if (k == "scenario") for (size_t i = 0; i < scenarios().size(); ++i) if (scenarios()[i].name == a) v.sc = i;
      if (k == "prefix") v.prefix = svec(a);
      if (k == "choices") v.choices = svec(a);
      if (k == "mode") v.whole_unit = a == "unit";
      if (k == "tier") opt.tier = a;
    }
    if (v.sc < 0) { fprintf(stderr, "no such scenario\n"); return 2; }
    std::string tr;
    bool r = reproduce(v, v.whole_unit, 300, tr);
    printf("%s\n", tr.c_str());
    if (r) { printf("reproduced: [%s] %s\n", v.key.c_str(), v.msg.c_str()); return 1; }
    printf("not reproduced: the property holds on this execution\n");
    return 0;
  }

  // split a scenario into decision prefixes, in a forked process (the code under test runs there)
  std::vector<Unit> split(int sc) {
    std::string f = opt.tmp + "/split." + std::to_string(sc);
    pid_t p = fork();
    if (!p) {
      child_setup(f + ".err");
      std::ofstream os(f);
      std::vector<std::vector<int>> level{{}};
      for (int d = 0; d < scenarios()[sc].split && level.size() < 400; ++d) {
        std::vector<std::vector<int>> next;
        for (auto &pre : level) {
          Ctx cx; cx.thorough = opt.tier == "thorough"; cx._c = pre;
          run_one(scenarios()[sc], cx);
          if (cx._ar.size() <= pre.size()) { next.push_back(pre); continue; }
          for (int i = 0; i < cx._ar[pre.size()]; ++i) { auto q = pre; q.push_back(i); next.push_back(q); }
        }
        level = next;
      }
      for (auto &v : level) os << vecs(v) << "\n";
      os.close(); _exit(0);
    }
    double t = now(); int st = 0; bool ok = true;
    while (waitpid(p, &st, WNOHANG) == 0) {
      if (now() - t > 60) { kill(p, SIGKILL); waitpid(p, &st, 0); ok = false; break; }
      usleep(1000);
    }
    std::vector<Unit> u;
    if (ok && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
      std::ifstream is(f); std::string l;
      while (std::getline(is, l)) u.push_back({sc, svec(l)});
    }
    if (u.empty()) u.push_back({sc, {}}); // the split itself crashed: the unit run will show where
    return u;
  }

  static void put(std::ostream &os, const std::unordered_set<uint64_t> &s) {
    uint64_t n = s.size(); os.write((char *)&n, 8); for (uint64_t h : s) os.write((char *)&h, 8);
  }

  void unit_main(const Unit &u, const std::string &base, Slot *slot, double t_end) {
    child_setup(base + ".err");
    std::unique_ptr<Ctx> cp(new Ctx); Ctx &cx = *cp;
    cx.thorough = opt.tier == "thorough"; cx._slot = slot; cx._c = u.prefix; cx._fresh_from = u.prefix.size();
    std::ofstream txt(base + ".txt");
    bool capped = false; std::vector<int> last; bool failed = false;
    uint64_t next_sample = 1;
    std::vector<std::vector<int>> samples;
    for (;;) {
      RunOut o = run_one(scenarios()[u.sc], cx);
      if (o.r == FAILED) {
        if (known_keys.count(o.f.key)) txt << "K\t" << o.f.key << "\t" << vecs(cx._c) << "\n";
        else {
          std::vector<int> c(cx._c.begin(), cx._c.begin() + std::min(cx._pos, cx._c.size()));
          std::string m = o.f.msg; for (char &ch : m) if (ch == '\n' || ch == '\t') ch = ' ';
          txt << "F\t" << o.f.key << "\t" << vecs(c) << "\t" << m << "\n"; failed = true; break;
        }
      } else if (cx._nontriv && cx.execs >= next_sample) { samples.push_back(cx._c); next_sample = next_sample * 50 + 3; }
      if (cx.states.size() > 12000000) capped = true;
      if ((cx.execs & 63) == 0 && now() > t_end) capped = true;
      if (!advance(cx, u.prefix.size())) break;
      if (capped) break;
    }
    for (auto &s : samples) txt << "S\t" << vecs(s) << "\n";
    for (auto &k : cx.counters) txt << "C\t" << k.first << "\t" << k.second << "\n";
    txt << "T\t" << cx.execs << "\t" << cx.transitions << "\t" << cx.pruned << "\t" << cx.nontriv << "\t" << capped << "\t" << failed << "\n";
    txt.close();
    std::ofstream bin(base + ".bin", std::ios::binary); put(bin, cx.states); put(bin, cx.outcomes); bin.close();
    _exit(0);
  }

  int explore_all() {
    double t0 = now();
    std::vector<Unit> units;
    std::vector<int> scs;
    for (size_t i = 0; i < scenarios().size(); ++i) {
      if (scenarios()[i].thorough_only && opt.tier != "thorough") continue;
      if (!opt.only.empty() && scenarios()[i].name != opt.only) continue;
      scs.push_back(i);
      auto u = split(i); units.insert(units.end(), u.begin(), u.end());
    }
    Slot *slots = (Slot *)mmap(nullptr, sizeof(Slot) * opt.jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    struct W { pid_t pid = 0; size_t unit = 0; };
    std::vector<W> w(opt.jobs);
    size_t next = 0; int running = 0;
    std::vector<Violation> viol;
    uint64_t execs = 0, trans = 0, pruned = 0, nontriv = 0; bool capped = false;
    std::unordered_set<uint64_t> states, outcomes;
    std::map<std::string, uint64_t> counters;
    std::map<int, uint64_t> per_sc;
    std::map<int, std::vector<std::vector<int>>> samples;
    bool stop = false; int rounds = 0;
    int rc = 0; int nviol = 0;
    auto base_of = [&](size_t u) { return opt.tmp + "/u" + std::to_string(u); };
    for (;;) {
    while (running || (next < units.size() && !stop)) {
      for (int k = 0; k < opt.jobs && next < units.size() && !stop; ++k) if (!w[k].pid) {
        w[k].unit = next; slots[k].n = 0; slots[k].t0 = now(); slots[k].execs = 0;
        fflush(nullptr);
        pid_t p = fork();
        if (!p) unit_main(units[next], base_of(next), &slots[k], t0 + opt.deadline);
        w[k].pid = p; ++next; ++running;
      }
      bool any = false;
      for (int k = 0; k < opt.jobs; ++k) if (w[k].pid) {
        int st; pid_t r = waitpid(w[k].pid, &st, WNOHANG);
        std::string base = base_of(w[k].unit); const Unit &u = units[w[k].unit];
        if (r == 0) {
          if (stop) { // run again if what stopped the exploration turns out not to be reproducible
            kill(w[k].pid, SIGKILL); waitpid(w[k].pid, &st, 0); w[k].pid = 0; --running; any = true;
            Unit again = u; units.push_back(again); continue;
          }
          if (now() - slots[k].t0 > opt.exec_limit && slots[k].t0 > 0) {
            kill(w[k].pid, SIGKILL); waitpid(w[k].pid, &st, 0);
            Violation v; v.sc = u.sc; v.prefix = u.prefix; v.key = "hang?"; v.msg = "time limit";
            for (int i = 0; i < slots[k].n; ++i) v.choices.push_back(slots[k].c[i]);
            viol.push_back(v); stop = true; w[k].pid = 0; --running; any = true;
          }
          continue;
        }
        any = true; w[k].pid = 0; --running;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
          Violation v; v.sc = u.sc; v.prefix = u.prefix; v.key = "crash";
          v.msg = "the code under test aborted: " + tail_of(base + ".err");
          for (int i = 0; i < slots[k].n; ++i) v.choices.push_back(slots[k].c[i]);
          viol.push_back(v); stop = true; continue;
        }
        std::ifstream is(base + ".txt"); std::string l;
        while (std::getline(is, l)) {
          std::vector<std::string> p; std::istringstream ls(l); std::string x; while (std::getline(ls, x, '\t')) p.push_back(x);
          if (p[0] == "K") { if (!known_hits[p[1]]++) known_example[p[1]] = p[2]; }
          else if (p[0] == "F") {
            Violation v; v.sc = u.sc; v.prefix = u.prefix; v.key = p[1]; v.choices = svec(p[2]); v.msg = p.size() > 3 ? p[3] : "";
            viol.push_back(v); stop = true;
          } else if (p[0] == "S") { if (samples[u.sc].size() < 40) samples[u.sc].push_back(svec(p[1])); }
          else if (p[0] == "C") counters[p[1]] += std::stoull(p[2]);
          else if (p[0] == "T") {
            execs += std::stoull(p[1]); per_sc[u.sc] += std::stoull(p[1]); trans += std::stoull(p[2]); pruned += std::stoull(p[3]); nontriv += std::stoull(p[4]);
            if (p[5] == "1") capped = true;
          }
        }
        std::ifstream bin(base + ".bin", std::ios::binary);
        for (auto *set : {&states, &outcomes}) {
          uint64_t n = 0; bin.read((char *)&n, 8);
          for (uint64_t i = 0; i < n && bin; ++i) { uint64_t h; bin.read((char *)&h, 8); set->insert(h); }
        }
        unlink((base + ".txt").c_str()); unlink((base + ".bin").c_str()); unlink((base + ".err").c_str());
      }
      if (!any) usleep(1000);
    }
    // replay before report: alone, then the unit it belongs to from its start
    std::sort(viol.begin(), viol.end(), [](const Violation &a, const Violation &b) { return a.choices.size() < b.choices.size(); });
    for (auto &v : viol) {
      Violation o = v; std::string tr;
      bool rep = reproduce(v, false, 120, tr);
      for (int i = 0; !rep && i < (rounds < 2 ? 3 : 1); ++i) { std::string t2; v = o; v.whole_unit = true; rep = reproduce(v, true, i ? 60 : 400, t2); }
      if (!rep) {
        printf("NOT-REPRODUCED scenario=%s [%s] %s choices=%s\n", scenarios()[o.sc].name.c_str(), o.key.c_str(), o.msg.c_str(), vecs(o.choices).c_str());
        continue;
      }
      ++nviol; rc = 1;
      std::string path = write_replay(v, tr);
      printf("counterexample in scenario %s: [%s] %s\n  trace:%s\n", scenarios()[v.sc].name.c_str(), v.key.c_str(), v.msg.c_str(), tr.c_str());
      printf("VIOLATION property=%s replay=%s\n", opt.id.c_str(), path.c_str());
      break;
    }
    // what cannot be reproduced is no verdict: go on with the units that were not explored
    if (!stop || nviol || ++rounds > 8) break;
    viol.clear(); stop = false;
    }
    for (auto &k : known_hits) printf("KNOWN-FINDING: property=%s [%s] %s (%llu executions)\n", opt.id.c_str(), k.first.c_str(), known_text[k.first].c_str(), (unsigned long long)k.second);
    // evidence
    std::vector<std::string> smp;
    for (auto &kv : samples) {
      auto &v = kv.second; if (v.empty()) continue;
      for (size_t i : std::set<size_t>{v.size() / 2, v.size() - 1}) {
        Violation vv; vv.sc = kv.first; vv.choices = v[i]; std::string tr;
        reproduce(vv, false, 60, tr);
        if (tr.size() > 900) tr = tr.substr(0, 900) + "...";
        smp.push_back(scenarios()[kv.first].name + ":" + tr);
      }
    }
    if (smp.empty()) smp.push_back("none");
    double wall = now() - t0;
    if (!opt.out.empty()) {
      std::ofstream os(opt.out);
      os << "{\n \"property\": " << js(opt.id) << ",\n \"tier\": " << js(opt.tier) << ",\n \"seed\": " << opt.seed << ",\n \"level\": " << js(opt.level)
         << ",\n \"coverage\": {\n  \"states\": " << states.size() << ",\n  \"transitions\": " << trans
         << ",\n  \"traces_validated_against_impl\": " << execs << ",\n  \"pruned_at_known_state\": " << pruned
         << ",\n  \"nontrivial_executions\": " << nontriv << ",\n  \"distinct_outcomes\": " << outcomes.size()
         << ",\n  \"exhaustive\": " << (capped || stop ? "false" : "true")
         << ",\n  \"executions_per_scenario\": {";
      bool first = true;
      for (auto &k : per_sc) { os << (first ? "" : ", ") << js(scenarios()[k.first].name) << ": " << k.second; first = false; }
      os << "},\n  \"counters\": {"; first = true;
      for (auto &k : counters) { os << (first ? "" : ", ") << js(k.first) << ": " << k.second; first = false; }
      os << "},\n  \"known_findings_hit\": {"; first = true;
      for (auto &k : known_hits) { os << (first ? "" : ", ") << js(k.first) << ": " << k.second; first = false; }
      os << "},\n  \"samples\": [";
      for (size_t i = 0; i < smp.size(); ++i) os << (i ? ", " : "") << "\n   " << js(smp[i]);
      os << "]\n },\n \"assumptions\": [";
      os << js("the alphabet and bounds of the scenarios (DESIGN.md); the reference model in the harness; compiler and floating point of this sandbox");
      os << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << nviol << "\n}\n";
    }
    printf("%s %s: %zu scenarios, %zu units, %llu executions, %llu transitions, %zu states, %llu pruned, %llu nontrivial, %zu outcomes%s, %.1f s\n",
           opt.id.c_str(), opt.tier.c_str(), scs.size(), units.size(), (unsigned long long)execs, (unsigned long long)trans, states.size(),
           (unsigned long long)pruned, (unsigned long long)nontriv, outcomes.size(), capped ? " CAPPED" : "", wall);
    for (auto &k : per_sc) printf("   %-40s %llu\n", scenarios()[k.first].name.c_str(), (unsigned long long)k.second);
    for (auto &k : counters) printf("   counter %-32s %llu\n", k.first.c_str(), (unsigned long long)k.second);
    return rc;
  }
};

inline int main_(int argc, char **argv) {
  Runner r; Options &o = r.opt;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--id") o.id = v; else if (a == "--tier") o.tier = v; else if (a == "--out") o.out = v;
    else if (a == "--known") o.known = v; else if (a == "--replay") o.replay = v; else if (a == "--replay-dir") o.replay_dir = v;
    else if (a == "--jobs") o.jobs = atoi(v.c_str()); else if (a == "--only") o.only = v; else if (a == "--level") o.level = v;
    else if (a == "--deadline") o.deadline = atof(v.c_str()); else if (a == "--seed") o.seed = atol(v.c_str());
  }
  if (!o.known.empty()) {
    // lines: "<property> <key> ..."; lines starting with '#' or "fixed:" suppress nothing
    std::ifstream is(o.known); std::string l;
    while (std::getline(is, l)) {
      if (l.empty() || l[0] == '#' || l.compare(0, 6, "fixed:") == 0) continue;
      std::istringstream ls(l); std::string t, p, k; ls >> t >> p >> k;
      if (t == "known:" && p == "property=" + o.id && k.compare(0, 4, "key=") == 0) {
        r.known_keys.insert(k.substr(4)); std::string rest; std::getline(ls, rest); size_t b = rest.find_first_not_of(' ');
        r.known_text[k.substr(4)] = b == std::string::npos ? "" : rest.substr(b);
      }
    }
  }
  return r.run();
}
} // namespace mc

int main(int argc, char **argv) { return mc::main_(argc, argv); }
#endif
