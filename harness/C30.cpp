#include "mc.hpp"
#include <bwsl/FileUtils.hpp>
#include <dirent.h>
#include <ios>
#include <map>
#include <sys/stat.h>
#include <sys/syscall.h>

// --------------------------------------------------- the operating system's part
// The standard library reads files with read and lseek: these definitions take
// the place of the ones of the C library and misbehave as planned.
namespace env {
enum Kind
{
  None,
  One,       // one byte only
  Half,      // half of what is asked for
  Interrupt, // EINTR
  Thrice,    // EINTR three times
  Error,     // EIO
  Broken     // EIO from then on
};
struct Fault
{
  int call = -1;
  int kind = None;
};
static bool armed = false;
static Fault faults[2];
static long drip = 0;    // at most so many bytes at once
static int seek_at = -1; // this seek fails ...
static bool seek_on = false; // ... and all after it
static int calls = 0;
static int seeks = 0;
static int again = 0;
static bool broken = false;
static int errors = 0;
static int seek_errors = 0;
static std::map<int, long>* got = nullptr;
static long budget = 0;

static void
reset()
{
  faults[0] = faults[1] = Fault{};
  drip = 0;
  seek_at = -1;
  seek_on = false;
  calls = seeks = again = errors = seek_errors = 0;
  broken = false;
  budget = 4000000;
  if (got == nullptr) {
    got = new std::map<int, long>;
  }
  got->clear();
}
static long
do_read(int fd, void* buf, size_t n)
{
  if (!armed) {
    return syscall(SYS_read, fd, buf, n);
  }
  if (--budget < 0) {
    _exit(66); // the comparison does not end
  }
  auto k = calls++;
  int kind = None;
  for (auto const& f : faults) {
    if (f.call == k) {
      kind = f.kind;
    }
  }
  if (again > 0) {
    --again;
    kind = Interrupt;
  }
  if (broken) {
    kind = Error;
  }
  switch (kind) {
    case Thrice: again = 2; errno = EINTR; return -1;
    case Interrupt: errno = EINTR; return -1;
    case Broken: broken = true; ++errors; errno = EIO; return -1;
    case Error: ++errors; errno = EIO; return -1;
    case One: n = std::min<size_t>(n, 1); break;
    case Half: n = std::max<size_t>(n / 2, std::min<size_t>(n, 1)); break;
    default: break;
  }
  if (drip > 0) {
    n = std::min<size_t>(n, static_cast<size_t>(drip));
  }
  auto r = syscall(SYS_read, fd, buf, n);
  if (r > 0) {
    (*got)[fd] += r;
  }
  return r;
}
static off_t
do_seek(int fd, off_t o, int whence)
{
  if (armed) {
    auto k = seeks++;
    if (k == seek_at || (seek_on && seek_at >= 0 && k > seek_at)) {
      ++seek_errors;
      errno = EIO;
      return -1;
    }
  }
  return syscall(SYS_lseek, fd, o, whence);
}
} // namespace env

extern "C" {
__attribute__((visibility("default"))) ssize_t read(int fd, void* buf, size_t n) { return env::do_read(fd, buf, n); }
__attribute__((visibility("default"))) off_t lseek(int fd, off_t o, int whence) noexcept { return env::do_seek(fd, o, whence); }
__attribute__((visibility("default"))) off64_t lseek64(int fd, off64_t o, int whence) noexcept { return env::do_seek(fd, o, whence); }
}

// ------------------------------------------------------------------------ files
struct File
{
  std::string path;
  explicit File(int i, std::string const& content)
    : path(mc::scratch + "/f" + std::to_string(getpid()) + "." + std::to_string(i))
  {
    set(content);
  }
  void set(std::string const& content) const
  {
    auto fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0) {
      throw std::logic_error("mc: cannot write " + path);
    }
    size_t at = 0;
    while (at < content.size()) {
      auto w = write(fd, content.data() + at, content.size() - at);
      if (w <= 0) {
        throw std::logic_error("mc: cannot write " + path);
      }
      at += static_cast<size_t>(w);
    }
    close(fd);
  }
  bool holds(std::string const& content) const
  {
    std::string s(content.size() + 1, '\0');
    auto fd = open(path.c_str(), O_RDONLY);
    size_t at = 0;
    for (;;) {
      auto r = syscall(SYS_read, fd, s.data() + at, s.size() - at);
      if (r <= 0) {
        break;
      }
      at += static_cast<size_t>(r);
    }
    close(fd);
    return at == content.size() && s.compare(0, at, content) == 0;
  }
  ~File() { unlink(path.c_str()); }
};

enum Answer
{
  Differ,
  Equal,
  Threw
};
static char const* const names[] = { "different", "equal", "an exception" };

static Answer
compare(std::string const& p, std::string const& q)
{
  env::armed = true;
  Answer r = Threw;
  try {
    r = bwsl::compare_files(p, q) ? Equal : Differ;
  } catch (std::ios_base::failure const&) {
  } catch (...) {
    env::armed = false;
    throw;
  }
  env::armed = false;
  return r;
}

static int
descriptors()
{
  int n = 0;
  auto* d = opendir("/proc/self/fd");
  while (readdir(d) != nullptr) {
    ++n;
  }
  closedir(d);
  return n;
}

static std::string
show(std::string const& s)
{
  std::ostringstream os;
  os << s.size() << " bytes";
  if (s.size() < 12) {
    for (unsigned char ch : s) {
      os << " " << static_cast<int>(ch);
    }
  }
  return os.str();
}

// ------------------------------------------------------------- small, no faults
static std::string const letters("a\n\0\r\x1a\xff", 6);
MC_FAMILY(small_files, "all pairs of files of up to three bytes over an alphabet with line ends, end-of-file marks and zeros", 3)
{
  auto maxlen = mc::bound(3, 2, 4, 3);
  std::string p;
  auto n = c.choose(maxlen + 1);
  for (int i = 0; i < n; ++i) {
    p += letters[static_cast<size_t>(c.choose(static_cast<int>(letters.size())))];
  }
  auto m = c.choose(maxlen + 1);
  env::reset();
  File const f(0, p);
  File const g(1, "");
  std::string q(static_cast<size_t>(m), letters[0]);
  std::vector<size_t> idx(static_cast<size_t>(m), 0);
  for (;;) {
    g.set(q);
    env::budget = 1000000;
    auto r = compare(f.path, g.path);
    auto s = compare(g.path, f.path);
    auto want = p == q ? Equal : Differ;
    MC_CHECK(c, r == want, "comparing ", show(p), " with ", show(q), ": ", names[r]);
    MC_CHECK(c, s == want, "comparing ", show(q), " with ", show(p), ": ", names[s]);
    MC_CHECK(c, f.holds(p) && g.holds(q), "a file has been modified");
    c.ops += 2;
    c.state(mc::H().add(p).add(q));
    size_t i = 0;
    while (i < idx.size() && ++idx[i] == letters.size()) {
      idx[i] = 0;
      q[i] = letters[0];
      ++i;
    }
    if (i == idx.size()) {
      break;
    }
    q[i] = letters[idx[i]];
  }
  MC_CHECK(c, compare(f.path, f.path) == Equal, "comparing a file with itself");
}

// --------------------------------------------------------------------- large ones
static std::string
pattern(size_t n)
{
  std::string s(n, '\0');
  for (size_t i = 0; i < n; ++i) {
    s[i] = static_cast<char>((i * 131 + (i >> 8) * 7 + (i >> 13)) & 0xff);
  }
  return s;
}
static std::vector<size_t> const&
sizes()
{
  static std::vector<size_t> const quick{ 1, 2, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 8189, 8190, 8191, 8192, 8193, 16381, 16382, 16383, 16384, 16385, 24575, 32768, 65535, 65536, 65537, 131073 };
  return quick;
}
MC_FAMILY(large_files, "sizes around the buffer sizes, one difference at and around every boundary or no difference, equal sums and lengths differing by one", 3)
{
  auto n = c.pick(sizes());
  auto const p = pattern(n);
  env::reset();
  File const f(0, p);
  File const g(1, p);
  auto judge = [&](std::string const& q, char const* what, size_t at) {
    g.set(q);
    env::budget = 4000000;
    auto r = compare(f.path, g.path);
    auto s = compare(g.path, f.path);
    auto want = p == q ? Equal : Differ;
    MC_CHECK(c, r == want && s == want, "two files of ", n, " bytes, ", what, " at ", at, ": ", names[r], " and the other way ", names[s]);
    c.ops += 2;
    c.state(mc::H().add(n).add(std::string(what)).add(at));
  };
  switch (c.choose(4)) {
    case 0:
      judge(p, "equal", 0);
      MC_CHECK(c, f.holds(p) && g.holds(p), "a file has been modified");
      for (size_t k = 1; k <= 3; ++k) {
        judge(p + std::string(k, '\0'), "longer by", k);
        judge(p + pattern(k), "continued by", k);
        if (k <= n) {
          judge(p.substr(0, n - k), "shorter by", k);
          judge(p.substr(k), "missing the first", k);
        }
      }
      judge(p + p, "twice", 0);
      break;
    case 1: { // one byte
      std::vector<size_t> at{ 0, 1, 2, n / 2, n - 1, n > 1 ? n - 2 : 0 };
      for (size_t b : { 128, 256, 512, 1024, 2048, 4096, 8190, 8191, 8192, 16382, 16384, 32768, 65536 }) {
        for (size_t d : { 0, 1, 2 }) {
          at.push_back(b + d - 1);
        }
      }
      auto x = static_cast<char>(c.pick({ 1, 0x80, 0xff }));
      for (auto i : at) {
        if (i < n) {
          auto q = p;
          q[i] = static_cast<char>(q[i] ^ x);
          judge(q, "one byte changed", i);
        }
      }
      break;
    }
    case 2: // two bytes exchanged
      for (size_t i = 0; i + 1 < n; i += std::max<size_t>(1, n / 16)) {
        auto q = p;
        std::swap(q[i], q[i + 1]);
        judge(q, "neighbours exchanged", i);
        q = p;
        std::swap(q[i], q[n - 1]);
        judge(q, "exchanged with the last", i);
      }
      break;
    default: // a whole part
      for (size_t i = 0; i < n; i += std::max<size_t>(1, n / 8)) {
        auto q = p;
        for (auto k = i; k < n; ++k) {
          q[k] = '\0';
        }
        judge(q, "zeros from", i);
      }
      break;
  }
}

MC_FAMILY(huge_files, "sparse files whose lengths agree in their lower bits only", 1)
{
  auto bits = c.pick({ 8, 16, 31, 32, 33 });
  auto low = c.pick({ 0, 1, 5 });
  env::reset();
  std::string const q(static_cast<size_t>(low), '\0');
  File const f(0, q);
  File const g(1, q);
  if (truncate(g.path.c_str(), (1L << bits) + low) != 0) {
    throw std::logic_error("mc: cannot make a sparse file");
  }
  auto r = compare(f.path, g.path);
  auto s = compare(g.path, f.path);
  MC_CHECK(c, r == Differ && s == Differ, "files of ", low, " and 2^", bits, " + ", low, " bytes compare as ", names[r], " and ", names[s]);
  c.op("2^", bits, " + ", low);
  c.state(mc::H().add(bits).add(low));
}

// -------------------------------------------------------------------- with faults
struct Case
{
  std::string p, q;
};
static std::vector<Case> const&
cases()
{
  static std::vector<Case> const v = [] {
    std::vector<Case> v{ { "", "" }, { "a", "a" }, { "a", "b" }, { "", "a" }, { "abcdef", "abcdef" }, { "abcdef", "abcdeg" }, { "abcdef", "bbcdef" }, { "abc", "abcd" } };
    for (size_t n : { 8191, 8192, 20000 }) {
      auto p = pattern(n);
      v.push_back({ p, p });
      for (size_t i : { size_t{ 0 }, n / 2, size_t{ 8190 }, n - 1 }) {
        auto q = p;
        q[i] = static_cast<char>(q[i] ^ 0x40);
        v.push_back({ p, q });
      }
    }
    return v;
  }();
  return v;
}
static void
judge_faults(mc::Ctx& c, Case const& k, File const& f, File const& g)
{
  auto fds = descriptors();
  auto r = compare(f.path, g.path);
  ++c.ops;
  auto same = k.p == k.q;
  std::string at = same ? "equal" : k.p.size() != k.q.size() ? "of different lengths" : "different";
  if (env::errors == 0 && env::seek_errors == 0) {
    MC_CHECK(c, r == (same ? Equal : Differ), "two ", at, " files of ", k.p.size(), " and ", k.q.size(), " bytes compare as ", names[r], " with ", env::calls, " reads");
  } else {
    MC_CHECK(c, same || r != Equal, "two ", at, " files of ", k.p.size(), " and ", k.q.size(), " bytes compare as equal after an input error");
    if (env::broken) {
      // nothing could be read any more: not equal unless all has been read before
      long sum = 0;
      for (auto const& x : *env::got) {
        sum += x.second;
      }
      MC_CHECK(c, r != Equal || sum == static_cast<long>(k.p.size() + k.q.size()), "files compare as equal but only ", sum, " bytes could be read");
    }
  }
  MC_CHECK(c, f.holds(k.p) && g.holds(k.q), "a file has been modified");
  MC_CHECK(c, descriptors() == fds, "file descriptors are left open");
}
MC_FAMILY(faults, "pairs of files x all pairs of a short read, interruption or error at any of the first reads", 3)
{
  auto const& k = cases()[static_cast<size_t>(c.choose(static_cast<int>(cases().size())))];
  auto const ncalls = mc::bound(8, 5, 14, 8);
  env::reset();
  File const f(0, k.p);
  File const g(1, k.q);
  auto first = c.choose(ncalls + 1) - 1;
  if (first >= 0) {
    env::faults[0] = { first, c.range(env::One, env::Broken) };
    auto second = c.range(first, ncalls - 1);
    if (second > first) {
      env::faults[1] = { second, c.range(env::One, env::Broken) };
    }
  }
  c.note("files of ", k.p.size(), " and ", k.q.size(), " bytes; read ", env::faults[0].call, " has fault ", env::faults[0].kind, ", read ", env::faults[1].call, " has fault ", env::faults[1].kind);
  judge_faults(c, k, f, g);
  c.state(mc::H().add(k.p.size()).add(k.q).add(env::faults[0].call).add(env::faults[0].kind).add(env::faults[1].call).add(env::faults[1].kind));
}
MC_FAMILY(dripping, "every read returns few bytes, with one fault", 3)
{
  auto const& k = cases()[static_cast<size_t>(c.choose(static_cast<int>(cases().size())))];
  env::reset();
  File const f(0, k.p);
  File const g(1, k.q);
  env::drip = c.pick({ 1L, 2L, 3L, 7L, 100L, 511L, 4095L, 8190L });
  env::faults[0] = { c.pick({ 0, 1, 2, 3, 5, 9, 17 }), c.range(env::One, env::Broken) };
  c.note("files of ", k.p.size(), " and ", k.q.size(), " bytes, ", env::drip, " at once; read ", env::faults[0].call, " has fault ", env::faults[0].kind);
  auto drip = env::drip;
  auto fault = env::faults[0];
  judge_faults(c, k, f, g);
  c.state(mc::H().add(k.p.size()).add(k.q).add(drip).add(fault.call).add(fault.kind));
}
MC_FAMILY(seeking, "one seek fails, or all from one on", 3)
{
  auto const& k = cases()[static_cast<size_t>(c.choose(static_cast<int>(cases().size())))];
  env::reset();
  File const f(0, k.p);
  File const g(1, k.q);
  env::seek_at = c.choose(12);
  env::seek_on = c.flip();
  c.note("files of ", k.p.size(), " and ", k.q.size(), " bytes; seek ", env::seek_at, env::seek_on ? " and all after it fail" : " fails");
  judge_faults(c, k, f, g);
  c.state(mc::H().add(k.p.size()).add(k.q).add(env::seek_at).add(env::seek_on));
}

MC_FAMILY(missing, "files that do not exist or cannot be opened, on either side or both", 2)
{
  env::reset();
  File const f(0, c.flip() ? "" : "abc");
  auto const none = mc::scratch + "/none" + std::to_string(getpid());
  auto const under = f.path + "/x";
  auto const far = mc::scratch + "/no/such/directory/" + std::to_string(getpid());
  auto const name = std::string(5000, 'x');
  std::vector<std::string> const bad{ none, under, far, name, "" };
  auto const& b = bad[static_cast<size_t>(c.choose(static_cast<int>(bad.size())))];
  auto fds = descriptors();
  MC_CHECK(c, compare(f.path, b) == Differ, "a file compared with one that does not exist");
  MC_CHECK(c, compare(b, f.path) == Differ, "a file that does not exist compared with another");
  for (auto const& o : bad) {
    MC_CHECK(c, compare(b, o) == Differ, "two files that do not exist");
    ++c.ops;
  }
  MC_CHECK(c, access(none.c_str(), F_OK) != 0, "the missing file has been created");
  MC_CHECK(c, descriptors() == fds, "file descriptors are left open");
  // no more descriptors
  File const g(1, "abc");
  for (int free = 0; free < 3; ++free) {
    rlimit old{};
    getrlimit(RLIMIT_NOFILE, &old);
    int next = dup(0);
    close(next);
    rlimit lim = old;
    lim.rlim_cur = static_cast<rlim_t>(next + free);
    setrlimit(RLIMIT_NOFILE, &lim);
    auto r = compare(f.path, g.path);
    setrlimit(RLIMIT_NOFILE, &old);
    auto same = f.holds("abc");
    if (free < 2) {
      MC_CHECK(c, same ? r != Threw : r != Equal, "with ", free, " descriptors: ", names[r]);
      MC_CHECK(c, r != Equal || same, "with ", free, " descriptors: ", names[r]);
    } else {
      MC_CHECK(c, r == (same ? Equal : Differ), "with two descriptors: ", names[r]);
    }
    ++c.ops;
  }
  c.op("compared with ", b.substr(0, 60));
  c.state(mc::H().add(b));
}

MC_FAMILY(links, "one file by two names: itself, a hard link, a symbolic link, another way", 2)
{
  env::reset();
  auto const content = c.pick(std::vector<std::string>{ "", "abc", pattern(9000) });
  File const f(0, content);
  auto const hard = f.path + ".hard";
  auto const soft = f.path + ".soft";
  unlink(hard.c_str());
  unlink(soft.c_str());
  if (link(f.path.c_str(), hard.c_str()) != 0 || symlink(f.path.c_str(), soft.c_str()) != 0) {
    throw std::logic_error("mc: cannot link");
  }
  auto slash = f.path.rfind('/');
  auto const around = f.path.substr(0, slash) + "/." + f.path.substr(slash);
  for (auto const& x : { f.path, hard, soft, around }) {
    for (auto const& y : { f.path, hard, soft, around }) {
      MC_CHECK(c, compare(x, y) == Equal, "one file by two names, ", content.size(), " bytes");
      ++c.ops;
    }
  }
  File const g(1, content + "x");
  MC_CHECK(c, compare(soft, g.path) == Differ && compare(g.path, hard) == Differ, "a link and another file");
  unlink(hard.c_str());
  unlink(soft.c_str());
  c.state(mc::H().add(content));
}
