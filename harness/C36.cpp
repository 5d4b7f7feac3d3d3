// mc-program: dumpmt applications/dumpmt.cpp
#include "mc.hpp"
#include <random>
#include <spawn.h>

extern char** environ;

/// One run of the tool
struct Outcome
{
  int status = 0;
  std::string out;
};
static Outcome
run(std::vector<std::string> args)
{
  auto const file = mc::scratch + "/dump" + std::to_string(getpid());
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_addopen(&fa, 1, file.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
  std::vector<char*> av{ const_cast<char*>("dumpmt") };
  for (auto& a : args) {
    av.push_back(a.data());
  }
  av.push_back(nullptr);
  pid_t pid = 0;
  if (posix_spawn(&pid, MC_PROGRAM_DUMPMT, &fa, nullptr, av.data(), environ) != 0) {
    throw std::logic_error("mc: cannot start the tool");
  }
  posix_spawn_file_actions_destroy(&fa);
  Outcome o;
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  o.status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
  std::ifstream is(file, std::ios::binary);
  std::ostringstream os;
  os << is.rdbuf();
  o.out = os.str();
  unlink(file.c_str());
  return o;
}

/// The generator by its definition (Matsumoto and Nishimura), not the library's
static std::vector<uint64_t>
reference_state(uint64_t seed)
{
  std::vector<uint64_t> s(312);
  s[0] = seed;
  for (uint64_t i = 1; i < 312; ++i) {
    s[i] = 6364136223846793005ULL * (s[i - 1] ^ (s[i - 1] >> 62)) + i;
  }
  return s;
}

static void
judge(mc::Ctx& c, uint64_t seed, std::string const& text)
{
  auto o = run({ text });
  c.op("dumpmt ", text);
  MC_CHECK(c, o.status == 0, "dumpmt ", text, " ends with status ", o.status);
  std::istringstream is(o.out);
  std::mt19937_64 r(12345);
  r.discard(7);
  is >> r;
  MC_CHECK(c, !is.fail(), "dumpmt ", text, " does not print an engine: ", o.out.substr(0, 200));
  std::string rest;
  is >> rest;
  MC_CHECK(c, rest.empty(), "dumpmt ", text, " prints more than an engine: ", rest);
  std::mt19937_64 const e(seed);
  MC_CHECK(c, r == e, "dumpmt ", text, " prints another engine: ", o.out.substr(0, 60), " ...");
  auto s = reference_state(seed);
  std::istringstream tokens(o.out);
  uint64_t x = 0;
  for (size_t i = 0; i < s.size(); ++i) {
    tokens >> x;
    MC_CHECK(c, !tokens.fail() && x == s[i], "dumpmt ", text, ": word ", i, " of the state is ", x, " expected ", s[i]);
  }
  std::mt19937_64 q(e);
  for (int i = 0; i < 700; ++i) {
    MC_CHECK(c, r() == q(), "dumpmt ", text, ": number ", i, " of the stream");
  }
  c.state(mc::H().add(seed));
}

MC_FAMILY(small, "all small seeds", 2)
{
  auto block = static_cast<uint64_t>(c.choose(64));
  auto n = static_cast<uint64_t>(mc::bound(16, 4, 256, 32));
  auto seed = block * n + static_cast<uint64_t>(c.choose(static_cast<int>(n)));
  judge(c, seed, std::to_string(seed));
}
MC_FAMILY(powers, "seeds at and around every power of two", 2)
{
  auto k = c.choose(65);
  auto d = c.range(-3, 3);
  auto seed = (k == 64 ? 0 : 1ULL << k) + static_cast<uint64_t>(static_cast<int64_t>(d));
  c.assume(k == 64 ? d < 0 : d >= 0 || (1ULL << k) >= static_cast<uint64_t>(-d));
  judge(c, seed, std::to_string(seed));
}
MC_FAMILY(decimals, "seeds at and around every power of ten, repeated digits, leading zeros", 2)
{
  auto k = c.choose(20);
  uint64_t p = 1;
  for (int i = 0; i < k; ++i) {
    p *= 10;
  }
  auto kind = c.choose(6);
  switch (kind) {
    case 0: judge(c, p, std::to_string(p)); break;
    case 1: judge(c, p - 1, std::to_string(p - 1)); break;
    case 2: judge(c, p / 9, std::to_string(p / 9)); break;
    case 3: judge(c, p + 8, "0" + std::to_string(p + 8)); break;
    case 4: judge(c, p / 9 * 7, "000" + std::to_string(p / 9 * 7)); break;
    default: judge(c, ~p, std::to_string(~p)); break;
  }
}
MC_FAMILY(no_seed, "without a seed", 1)
{
  c.choose(2);
  auto o = run({});
  c.op("dumpmt");
  MC_CHECK(c, o.status != 0, "dumpmt without a seed succeeds");
  MC_CHECK(c, o.status < 1000, "dumpmt without a seed is killed by signal ", o.status - 1000);
  MC_CHECK(c, o.out.empty(), "dumpmt without a seed prints ", o.out.substr(0, 100));
  c.state(mc::H().add(1));
}
