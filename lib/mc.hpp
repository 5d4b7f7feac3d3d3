// Bounded exhaustive (stateless) model checker for sequential C++ code.
//
// A *family* is a driver body that asks the explorer for every decision it
// takes (which configuration, which operation, which argument, which answer of
// the environment).  The explorer runs the body once for every sequence of
// answers: depth-first, replaying the prefix and advancing the last decision,
// until the tree is exhausted.  Nothing is sampled.  The body drives the real
// code and compares it, step by step, with a reference model.
//
// The tree is split over forked workers by the first `split` decisions.  Every
// decision is written to shared memory before it is used, so that a crash, a
// sanitizer abort or a hang is attributed to the exact decision sequence.  A
// failure is replayed alone before it is reported.
#pragma once

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <limits>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <type_traits>
#include <unistd.h>
#include <vector>

namespace mc {

// ---------------------------------------------------------------- settings
inline bool thorough = false;           // VERIF_TIER=thorough
#if defined(__SANITIZE_ADDRESS__)
inline constexpr bool san = true;       // sanitized variant: smaller bounds
#else
inline constexpr bool san = false;
#endif
inline std::string scratch;             // private scratch directory of this process

/// Bound for quick-opt, quick-san, thorough-opt, thorough-san
template<class T>
inline T
bound(T quick, T quick_san, T thor, T thor_san)
{
  return thorough ? (san ? thor_san : thor) : (san ? quick_san : quick);
}

// ------------------------------------------------------------ shared memory
constexpr int kMaxWorkers = 64;
constexpr int kMaxChoices = 512;
enum Status : int { Running = 0, Done = 1, Failed = 2 };

struct Worker
{
  std::atomic<uint64_t> execs{ 0 };
  std::atomic<uint64_t> ops{ 0 };
  std::atomic<uint64_t> checks{ 0 };
  std::atomic<int> family{ -1 };
  std::atomic<int> n{ 0 };
  int ch[kMaxChoices]{};
  std::atomic<int> status{ Running };
  char msg[8192]{};
};

struct Shared
{
  Worker w[kMaxWorkers];
  std::atomic<uint64_t> fam_execs[256];
  std::atomic<uint64_t> fam_ops[256];
  std::atomic<uint64_t> nstates;
  std::atomic<uint64_t> noutcomes;
  std::atomic<uint64_t> dropped; // states not recorded because the table is full
};

inline Shared* shared = nullptr;
inline std::atomic<uint64_t>* table = nullptr;
inline uint64_t table_size = 1ULL << 23;

inline uint64_t
mix(uint64_t x)
{
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}

/// true if the hash was not there yet
inline bool
table_insert(uint64_t h)
{
  if (h == 0) {
    h = 1;
  }
  auto i = mix(h) & (table_size - 1);
  for (int probe = 0; probe < 64; ++probe) {
    auto cur = table[i].load(std::memory_order_relaxed);
    if (cur == h) {
      return false;
    }
    if (cur == 0) {
      if (table[i].compare_exchange_strong(cur, h)) {
        return true;
      }
      if (cur == h) {
        return false;
      }
    }
    i = (i + 1) & (table_size - 1);
  }
  shared->dropped.fetch_add(1);
  return false;
}

// ------------------------------------------------------------------- hashing
struct H
{
  uint64_t h = 0x1234567;
  template<class I, std::enable_if_t<std::is_integral_v<I>, int> = 0>
  H& add(I x)
  {
    h = mix(h ^ static_cast<uint64_t>(x));
    return *this;
  }
  H& add(double x)
  {
    uint64_t b;
    std::memcpy(&b, &x, 8);
    return add(b);
  }
  H& add(std::string const& s)
  {
    for (unsigned char c : s) {
      h = (h ^ c) * 1099511628211ULL;
    }
    return add(static_cast<uint64_t>(s.size()));
  }
  template<class T>
  H& addv(std::vector<T> const& v)
  {
    for (auto const& x : v) {
      if constexpr (std::is_floating_point_v<T>) {
        add(static_cast<double>(x));
      } else {
        add(static_cast<uint64_t>(x));
      }
    }
    return add(static_cast<uint64_t>(v.size()));
  }
};

// ------------------------------------------------------------------- context
struct Fail
{
  std::string msg;
};
struct Prune
{};

class Ctx
{
public:
  /// A decision with n answers
  int choose(int n)
  {
    if (n <= 0) {
      throw std::logic_error("mc: choice without alternatives");
    }
    int v = 0;
    if (pos < static_cast<int>(ch.size())) {
      if (ar[pos] < 0) {
        ar[pos] = n; // replaying a recorded sequence
      }
      if (ar[pos] != n || ch[pos] >= n) {
        throw std::logic_error("mc: replay diverged");
      }
      v = ch[pos];
    } else {
      if (pos >= kMaxChoices) {
        throw std::logic_error("mc: too many choices");
      }
      ch.push_back(0);
      ar.push_back(n);
    }
    if (me != nullptr) {
      me->ch[pos] = v;
      me->n.store(pos + 1, std::memory_order_relaxed);
    }
    ++pos;
    if (pos == split && !owned) {
      throw Prune{};
    }
    return v;
  }
  bool flip() { return choose(2) == 1; }
  /// lo..hi inclusive
  long range(long lo, long hi) { return lo + choose(static_cast<int>(hi - lo + 1)); }
  template<class T>
  T const& pick(std::vector<T> const& v)
  {
    return v[choose(static_cast<int>(v.size()))];
  }
  template<class T>
  T pick(std::initializer_list<T> v)
  {
    return *(v.begin() + choose(static_cast<int>(v.size())));
  }
  /// This branch is not part of the space
  void assume(bool b)
  {
    if (!b) {
      throw Prune{};
    }
  }
  /// One transition of the code under test
  template<class... A>
  void op(A const&... a)
  {
    ++ops;
    if (tracing) {
      std::ostringstream os;
      os.precision(17);
      (os << ... << a);
      trace.push_back(os.str());
    }
  }
  template<class... A>
  void note(A const&... a)
  {
    if (tracing) {
      std::ostringstream os;
      os.precision(17);
      (os << ... << a);
      trace.push_back(os.str());
    }
  }
  void state(H const& h) { state(h.h); }
  void state(uint64_t h)
  {
    if (count_states && table_insert(mix(h ^ fam_salt))) {
      shared->nstates.fetch_add(1, std::memory_order_relaxed);
    }
  }

  std::vector<int> ch, ar;
  int pos = 0;
  int split = 0;
  bool owned = true;
  bool tracing = false;
  bool count_states = true;
  uint64_t fam_salt = 0;
  uint64_t ops = 0;
  uint64_t checks = 0;
  std::vector<std::string> trace;
  Worker* me = nullptr;
};

template<class... A>
[[noreturn]] inline void
fail(A const&... a)
{
  std::ostringstream os;
  os.precision(17);
  (os << ... << a);
  throw Fail{ os.str() };
}

#define MC_CHECK(c, cond, ...)                                                 \
  do {                                                                         \
    ++(c).checks;                                                              \
    if (!(cond)) {                                                             \
      ::mc::fail(#cond, " is false: ", __VA_ARGS__);                           \
    }                                                                          \
  } while (0)

// ------------------------------------------------------------------ families
struct Family
{
  std::string name;
  std::string what;
  int split;
  std::function<void(Ctx&)> body;
};

inline std::vector<Family>&
families()
{
  static std::vector<Family> f;
  return f;
}

struct Reg
{
  Reg(std::string name, std::string what, int split, std::function<void(Ctx&)> b)
  {
    families().push_back({ std::move(name), std::move(what), split, std::move(b) });
  }
};
#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
/// MC_FAMILY(name, description, split depth) { body using Ctx& c }
#define MC_FAMILY(name, what, split)                                           \
  static void MC_CAT(mc_body_, name)(::mc::Ctx & c);                           \
  static ::mc::Reg MC_CAT(mc_reg_, name)(#name, what, split, MC_CAT(mc_body_, name)); \
  static void MC_CAT(mc_body_, name)(::mc::Ctx & c)

// ------------------------------------------------------------------- running
inline std::string
esc(std::string const& s)
{
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += static_cast<char>(ch);
    } else if (ch == '\n') {
      o += "\\n";
    } else if (ch < 32 || ch > 126) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else {
      o += static_cast<char>(ch);
    }
  }
  return o;
}

/// One execution. Returns an empty string or the failure.
enum class Run { Ok, Pruned, Failed };
inline Run
run_once(Family const& f, Ctx& c, std::string& msg)
{
  c.pos = 0;
  try {
    f.body(c);
    return Run::Ok;
  } catch (Prune&) {
    return Run::Pruned;
  } catch (Fail& e) {
    msg = e.msg;
  } catch (std::logic_error& e) {
    if (std::strncmp(e.what(), "mc: ", 4) == 0) {
      std::fprintf(stderr, "explorer error: %s\n", e.what());
      std::_Exit(3);
    }
    msg = std::string("unexpected exception: ") + e.what();
  } catch (std::exception& e) {
    msg = std::string("unexpected exception: ") + e.what();
  } catch (...) {
    msg = "unexpected exception of unknown type";
  }
  return Run::Failed;
}

struct Opt
{
  int jobs = 8;
  std::string out;
  std::string only; // one family
  std::string replay_family;
  std::vector<int> replay_choices;
  bool replay = false;
  int shard = -1; // replay of a whole shard
  int hang_s = 40;
};

inline void
explore(int fi, Family const& f, int worker, int nworkers, Worker* me)
{
  Ctx c;
  c.me = me;
  c.split = f.split;
  c.fam_salt = mix(fi + 1000);
  me->family.store(fi);
  uint64_t prefix = 0;
  uint64_t execs = 0;
  for (;;) {
    me->n.store(0);
    c.owned = nworkers <= 0 || (prefix % nworkers) == static_cast<uint64_t>(worker);
    c.ops = 0;
    c.checks = 0;
    // bodies shorter than the split depth: everyone runs them, the owner counts
    c.count_states = c.owned;
    std::string msg;
    auto r = run_once(f, c, msg);
    auto used = c.pos;
    if (r == Run::Failed && (c.owned || used < f.split)) {
      std::strncpy(me->msg, msg.c_str(), sizeof(me->msg) - 1);
      me->n.store(used);
      me->status.store(Failed);
      std::_Exit(10);
    }
    if (c.owned && r == Run::Ok) {
      ++execs;
      me->execs.fetch_add(1, std::memory_order_relaxed);
      me->ops.fetch_add(c.ops, std::memory_order_relaxed);
      me->checks.fetch_add(c.checks, std::memory_order_relaxed);
      shared->fam_execs[fi].fetch_add(1, std::memory_order_relaxed);
      shared->fam_ops[fi].fetch_add(c.ops, std::memory_order_relaxed);
    } else {
      me->execs.fetch_add(0);
    }
    // next decision sequence
    c.ch.resize(used);
    c.ar.resize(used);
    while (!c.ch.empty() && c.ch.back() + 1 == c.ar.back()) {
      c.ch.pop_back();
      c.ar.pop_back();
    }
    if (c.ch.empty()) {
      break;
    }
    c.ch.back() += 1;
    if (static_cast<int>(c.ch.size()) <= f.split) {
      ++prefix;
    }
  }
  (void)execs;
}

inline void
limits()
{
  rlimit r{};
  r.rlim_cur = r.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &r);
  if (!san) {
    r.rlim_cur = r.rlim_max = 3ULL << 30;
    setrlimit(RLIMIT_AS, &r);
  }
}

inline pid_t
spawn(std::function<void()> fn, std::string const& errfile)
{
  std::cout.flush();
  std::fflush(nullptr);
  auto pid = fork();
  if (pid == 0) {
    int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) {
      dup2(fd, 2);
      close(fd);
    }
    limits();
    fn();
    std::fflush(nullptr);
    std::_Exit(0);
  }
  return pid;
}

inline std::string
slurp(std::string const& fn, size_t maxn = 3000)
{
  std::ifstream in(fn);
  std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
  if (s.size() > maxn) {
    s.resize(maxn);
  }
  return s;
}

struct Outcome
{
  bool failed = false;
  bool crashed = false;
  bool hung = false;
  std::string msg;
  int family = -1;
  std::vector<int> ch;
};

/// Wait for one child, with a limit in seconds
inline int
wait_limit(pid_t pid, int secs, bool& hung)
{
  hung = false;
  int st = 0;
  for (int i = 0; i < secs * 100; ++i) {
    auto r = waitpid(pid, &st, WNOHANG);
    if (r == pid) {
      return st;
    }
    usleep(10000);
  }
  hung = true;
  kill(pid, SIGKILL);
  waitpid(pid, &st, 0);
  return st;
}

inline Outcome
describe(int st, bool hung, Worker& w, std::string const& err)
{
  Outcome o;
  o.family = w.family.load();
  for (int i = 0; i < w.n.load(); ++i) {
    o.ch.push_back(w.ch[i]);
  }
  if (hung) {
    o.failed = o.hung = true;
    o.msg = "the execution does not terminate";
  } else if (w.status.load() == Failed) {
    o.failed = true;
    o.msg = w.msg;
  } else if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
    o.failed = o.crashed = true;
    std::ostringstream os;
    if (WIFSIGNALED(st)) {
      os << "the program was killed by signal " << WTERMSIG(st) << " ("
         << strsignal(WTERMSIG(st)) << ")";
    } else {
      os << "the program ended with status " << WEXITSTATUS(st);
    }
    auto e = slurp(err);
    if (!e.empty()) {
      os << ": " << e;
    }
    o.msg = os.str();
  }
  return o;
}

inline bool
explorer_error(int st)
{
  return WIFEXITED(st) && WEXITSTATUS(st) == 3;
}

/// Replay one decision sequence alone, in a fresh process.
inline Outcome
replay_one(int fi, std::vector<int> const& ch, int limit, std::string const& tracefile)
{
  auto& w = shared->w[kMaxWorkers - 1];
  w.status.store(Running);
  w.n.store(0);
  w.msg[0] = 0;
  auto err = scratch + "/replay.err";
  auto pid = spawn(
    [&] {
      auto const& f = families()[fi];
      Ctx c;
      c.me = &w;
      c.ch = ch;
      c.ar.assign(ch.size(), -1);
      c.tracing = true;
      c.count_states = false;
      w.family.store(fi);
      std::string msg;
      auto dump = [&] {
        if (!tracefile.empty()) {
          std::ofstream o(tracefile);
          for (auto const& s : c.trace) {
            o << s << "\n";
          }
        }
      };
      auto r = run_once(f, c, msg);
      dump();
      if (r == Run::Failed) {
        std::strncpy(w.msg, msg.c_str(), sizeof(w.msg) - 1);
        w.status.store(Failed);
        std::_Exit(10);
      }
    },
    err);
  bool hung = false;
  auto st = wait_limit(pid, limit, hung);
  return describe(st, hung, w, err);
}

inline std::string
choices_str(std::vector<int> const& v)
{
  std::ostringstream os;
  for (size_t i = 0; i < v.size(); ++i) {
    os << (i ? "," : "") << v[i];
  }
  return os.str();
}

inline int
main(int argc, char** argv)
{
  Opt o;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--out") {
      o.out = next();
    } else if (a == "--tier") {
      thorough = next() == "thorough";
    } else if (a == "--jobs") {
      o.jobs = std::stoi(next());
    } else if (a == "--only") {
      o.only = next();
    } else if (a == "--scratch") {
      scratch = next();
    } else if (a == "--replay") {
      o.replay = true;
      o.replay_family = next();
      std::stringstream ss(next());
      std::string t;
      while (std::getline(ss, t, ',')) {
        if (!t.empty()) {
          o.replay_choices.push_back(std::stoi(t));
        }
      }
    } else if (a == "--shard") {
      o.shard = std::stoi(next());
    } else if (a == "--hang") {
      o.hang_s = std::stoi(next());
    } else if (a == "--list") {
      for (auto const& f : families()) {
        std::cout << f.name << ": " << f.what << "\n";
      }
      return 0;
    }
  }
  if (scratch.empty()) {
    char t[] = "/tmp/mcXXXXXX";
    scratch = mkdtemp(t);
  }
  auto map = [](size_t n) {
    return mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  };
  shared = static_cast<Shared*>(map(sizeof(Shared)));
  if (thorough) {
    table_size = 1ULL << 25;
  }
  table = static_cast<std::atomic<uint64_t>*>(map(table_size * 8));
  o.jobs = std::max(1, std::min(o.jobs, kMaxWorkers - 2));
  auto& fam = families();

  if (o.replay) {
    for (size_t i = 0; i < fam.size(); ++i) {
      if (fam[i].name == o.replay_family) {
        auto tf = scratch + "/trace.txt";
        auto r = replay_one(static_cast<int>(i), o.replay_choices, 120, tf);
        std::cout << "family " << fam[i].name << ", decisions "
                  << choices_str(o.replay_choices) << "\n"
                  << slurp(tf, 20000);
        if (r.failed) {
          std::cout << "REPRODUCED: " << r.msg << "\n";
          return 1;
        }
        std::cout << "not reproduced\n";
        return 0;
      }
    }
    std::cerr << "no such family\n";
    return 3;
  }

  auto body = [&](int worker) {
    auto& w = shared->w[worker];
    for (size_t i = 0; i < fam.size(); ++i) {
      if (!o.only.empty() && fam[i].name != o.only) {
        continue;
      }
      explore(static_cast<int>(i), fam[i], worker, o.jobs, &w);
    }
    w.status.store(Done);
  };

  auto t0 = std::chrono::steady_clock::now();
  if (o.shard >= 0) {
    // replay of one whole shard (failures that depend on earlier executions)
    auto& w = shared->w[o.shard];
    auto err = scratch + "/shard.err";
    auto pid = spawn([&] { body(o.shard); }, err);
    bool hung = false;
    auto st = wait_limit(pid, 800, hung);
    auto r = describe(st, hung, w, err);
    if (r.failed) {
      std::cout << "REPRODUCED: family " << fam[r.family].name << ", decisions "
                << choices_str(r.ch) << ": " << r.msg << "\n";
      return 1;
    }
    std::cout << "not reproduced\n";
    return 0;
  }

  std::vector<pid_t> pids(o.jobs, -1);
  std::vector<int> done(o.jobs, 0);
  std::vector<std::pair<uint64_t, std::chrono::steady_clock::time_point>> beat(o.jobs);
  for (int k = 0; k < o.jobs; ++k) {
    pids[k] = spawn([&, k] { body(k); }, scratch + "/w" + std::to_string(k) + ".err");
    beat[k] = { 0, t0 };
  }
  int left = o.jobs;
  int bad = -1;
  Outcome first;
  bool internal = false;
  while (left > 0 && bad < 0 && !internal) {
    usleep(5000);
    for (int k = 0; k < o.jobs && bad < 0; ++k) {
      if (done[k]) {
        continue;
      }
      int st = 0;
      auto r = waitpid(pids[k], &st, WNOHANG);
      auto& w = shared->w[k];
      if (r == pids[k]) {
        done[k] = 1;
        --left;
        if (explorer_error(st)) {
          internal = true;
          std::cerr << slurp(scratch + "/w" + std::to_string(k) + ".err");
        } else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
          bad = k;
          first = describe(st, false, w, scratch + "/w" + std::to_string(k) + ".err");
        }
        continue;
      }
      // progress = executions, decisions and checks
      auto now = std::chrono::steady_clock::now();
      uint64_t cur = w.execs.load() * 1000003 + w.n.load() * 7919 + w.family.load() + w.checks.load() * 104729;
      for (int i = 0; i < w.n.load(); ++i) {
        cur = cur * 31 + w.ch[i];
      }
      if (cur != beat[k].first) {
        beat[k] = { cur, now };
      } else if (now - beat[k].second > std::chrono::seconds(o.hang_s)) {
        // perhaps only starved: ask it alone, with a longer limit
        kill(pids[k], SIGKILL);
        waitpid(pids[k], &st, 0);
        bad = k;
        first = describe(0, true, w, "");
        done[k] = 1;
      }
    }
  }
  for (int k = 0; k < o.jobs; ++k) {
    if (!done[k]) {
      kill(pids[k], SIGKILL);
      int st;
      waitpid(pids[k], &st, 0);
    }
  }
  if (internal) {
    return 3;
  }

  std::string replay_json;
  bool violated = false;
  bool unconfirmed = false;
  if (bad >= 0) {
    auto tf = scratch + "/trace.txt";
    auto r = replay_one(first.family, first.ch, 150, tf);
    std::string mode = "trace";
    if (!r.failed) {
      // depends on earlier executions in the same process: repeat the shard
      auto& w = shared->w[bad];
      w.status.store(Running);
      w.n.store(0);
      auto err = scratch + "/shard.err";
      auto pid = spawn([&] { body(bad); }, err);
      bool hung = false;
      auto st = wait_limit(pid, 300, hung);
      r = describe(st, hung, w, err);
      mode = "shard";
    }
    violated = r.failed;
    unconfirmed = !r.failed;
    if (violated) {
      std::ostringstream os;
      os << "{\"mode\": \"" << mode << "\", \"family\": \"" << fam[r.family].name
         << "\", \"choices\": \"" << choices_str(r.ch) << "\", \"shard\": " << bad
         << ", \"jobs\": " << o.jobs << ", \"message\": \"" << esc(r.msg)
         << "\", \"trace\": [";
      std::ifstream in(tf);
      std::string line;
      bool firstl = true;
      while (std::getline(in, line)) {
        os << (firstl ? "" : ", ") << "\"" << esc(line) << "\"";
        firstl = false;
      }
      os << "]}";
      replay_json = os.str();
    }
  }

  // a few actual traces, written out
  std::vector<std::pair<std::string, std::string>> samples;
  if (!violated && !unconfirmed) {
    for (size_t i = 0; i < fam.size(); ++i) {
      if (!o.only.empty() && fam[i].name != o.only) {
        continue;
      }
      // the last execution of the family is reached by always taking the last
      // alternative: run it with tracing
      auto tf = scratch + "/sample.txt";
      std::remove(tf.c_str());
      auto pid = spawn(
        [&] {
          Ctx c;
          c.tracing = true;
          c.count_states = false;
          std::string msg;
          // find a non-pruned execution close to the end of the tree
          struct Last : Ctx
          {};
          auto const& f = fam[i];
          for (int tries = 0; tries < 2000; ++tries) {
            c.trace.clear();
            auto r = run_once(f, c, msg);
            if (r == Run::Ok && tries >= 3) {
              break;
            }
            c.ch.resize(c.pos);
            c.ar.resize(c.pos);
            while (!c.ch.empty() && c.ch.back() + 1 == c.ar.back()) {
              c.ch.pop_back();
              c.ar.pop_back();
            }
            if (c.ch.empty()) {
              break;
            }
            c.ch.back() += 1;
          }
          std::ofstream out(tf);
          out << choices_str(c.ch) << " |";
          size_t n = 0;
          for (auto const& s : c.trace) {
            if (n++ < 30) {
              out << " " << s << ";";
            }
          }
        },
        scratch + "/sample.err");
      bool hung = false;
      wait_limit(pid, 60, hung);
      auto s = slurp(tf, 900);
      samples.push_back({ fam[i].name, s });
    }
  }

  uint64_t execs = 0;
  uint64_t ops = 0;
  uint64_t checks = 0;
  for (int k = 0; k < o.jobs; ++k) {
    execs += shared->w[k].execs.load();
    ops += shared->w[k].ops.load();
    checks += shared->w[k].checks.load();
  }
  auto wall =
    std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  std::ostringstream js;
  js << "{\"variant\": \"" << (san ? "san" : "opt") << "\", \"executions\": " << execs
     << ", \"transitions\": " << ops << ", \"checks\": " << checks
     << ", \"states\": " << shared->nstates.load()
     << ", \"states_not_recorded\": " << shared->dropped.load()
     << ", \"wall_s\": " << wall
     << ", \"exhaustive\": " << (violated || unconfirmed ? "false" : "true")
     << ", \"violated\": " << (violated ? "true" : "false")
     << ", \"unconfirmed\": " << (unconfirmed ? "true" : "false")
     << ", \"unconfirmed_msg\": \"" << (unconfirmed ? esc(first.msg) : "")
     << "\", \"families\": [";
  bool f1 = true;
  for (size_t i = 0; i < fam.size(); ++i) {
    if (!o.only.empty() && fam[i].name != o.only) {
      continue;
    }
    js << (f1 ? "" : ", ") << "{\"name\": \"" << fam[i].name << "\", \"what\": \""
       << esc(fam[i].what) << "\", \"executions\": " << shared->fam_execs[i].load()
       << ", \"transitions\": " << shared->fam_ops[i].load() << "}";
    f1 = false;
  }
  js << "], \"samples\": [";
  for (size_t i = 0; i < samples.size(); ++i) {
    js << (i ? ", " : "") << "\"" << esc(samples[i].first + ": " + samples[i].second)
       << "\"";
  }
  js << "], \"replay\": " << (replay_json.empty() ? "null" : replay_json) << "}\n";
  if (!o.out.empty()) {
    std::ofstream(o.out) << js.str();
  } else {
    std::cout << js.str();
  }
  return violated ? 1 : (unconfirmed ? 2 : 0);
}

} // namespace mc

#ifndef MC_NO_MAIN
int
main(int argc, char** argv)
{
  return mc::main(argc, argv);
}
#endif
