#include "mc.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <bwsl/RNGUtils.hpp>

// A small engine of the same family: all its positions can be explored.
using Tiny = std::mersenne_twister_engine<std::uint_fast32_t, 32, 5, 3, 31, 0x9908b0dfUL, 11, 0xffffffffUL, 7, 0x9d2c5680UL, 15, 0xefc60000UL, 18, 1812433253UL>;
using Tiny64 = std::mersenne_twister_engine<std::uint_fast64_t, 64, 4, 2, 31, 0xb5026f5aa96619e9ULL, 29, 0x5555555555555555ULL, 17, 0x71d67fffeda60000ULL, 37, 0xfff7eee000000000ULL, 43, 6364136223846793005ULL>;
using Narrow = std::mersenne_twister_engine<std::uint_fast32_t, 16, 6, 3, 7, 0x9908UL, 5, 0xffffUL, 3, 0x2c56UL, 7, 0xefc6UL, 9, 12533UL>;

template<class OA, class E>
static std::string
write(E const& e, bool embedded)
{
  std::ostringstream os(std::ios::binary);
  {
    OA oa(os);
    std::string const text("12 34");
    if (embedded) {
      E const other(77);
      oa << text << other << e << text;
    } else {
      oa << e;
    }
  }
  return os.str();
}
template<class IA, class E>
static void
read(std::string const& s, E& e, bool embedded)
{
  std::istringstream is(s, std::ios::binary);
  IA ia(is);
  std::string text;
  if (embedded) {
    E other;
    ia >> text >> other >> e >> text;
    if (text != "12 34" || other != E(77)) {
      mc::fail("what is saved around the engine is read wrongly");
    }
  } else {
    ia >> e;
  }
}
template<class E>
static std::string
write(int f, E const& e, bool embedded)
{
  return f == 0 ? write<boost::archive::text_oarchive>(e, embedded) : write<boost::archive::binary_oarchive>(e, embedded);
}
template<class E>
static void
read(int f, std::string const& s, E& e, bool embedded)
{
  f == 0 ? read<boost::archive::text_iarchive>(s, e, embedded) : read<boost::archive::binary_iarchive>(s, e, embedded);
}

template<class E>
static E
seeded(int k)
{
  switch (k) {
    case 0: return E();
    case 1: return E(1);
    case 2: return E(static_cast<typename E::result_type>(-1));
    case 3: {
      std::seed_seq s{ 1, 2, 3 };
      return E(s);
    }
    default: return E(0);
  }
}

/// an engine in some other state
template<class E>
static E
target(int k, E const& saved)
{
  E e(12345);
  switch (k) {
    case 0: return E();
    case 1: e.discard(3); return e;
    case 2: e.discard(E::state_size); return e;
    case 3: e = saved; e.discard(1); return e; // the same stream, further on
    default: e = saved; e.discard(2 * E::state_size + 1); return e;
  }
}

template<class E>
static void
stream(mc::Ctx& c, char const* name, unsigned long position, int how, int seed, int format, bool embedded, size_t draws)
{
  auto e = seeded<E>(seed);
  e.discard(position);
  auto twin = e;
  auto s = write(format, e, embedded);
  MC_CHECK(c, e == twin, name, ": saving disturbs the stream");
  auto r = target(how, e);
  try {
    read(format, s, r, embedded);
  } catch (std::exception const& ex) {
    mc::fail(name, " seed ", seed, " position ", position, ": restoring fails: ", ex.what());
  }
  c.op(name, " seed ", seed, " position ", position, " target ", how, " format ", format);
  mc::H h;
  for (size_t i = 0; i < draws; ++i) {
    auto want = twin();
    auto a = r();
    auto b = e();
    MC_CHECK(c, a == want, name, " seed ", seed, " position ", position, ": number ", i, " after restoring is ", a, " expected ", want);
    MC_CHECK(c, b == want, name, " seed ", seed, " position ", position, ": number ", i, " after saving is ", b, " expected ", want);
    if (i < 4) {
      h.add(want);
    }
  }
  c.state(h.add(std::string(name)).add(position));
}

MC_FAMILY(small_engines, "small engines of three word sizes: all positions over several refills, seeds, targets and formats", 3)
{
  auto which = c.choose(3);
  auto position = static_cast<unsigned long>(c.choose(mc::bound(40, 24, 120, 40)));
  auto seed = c.choose(5);
  auto how = c.choose(5);
  auto format = c.choose(2);
  auto embedded = c.flip();
  if (which == 0) {
    stream<Tiny>(c, "tiny", position, how, seed, format, embedded, 40);
  } else if (which == 1) {
    stream<Tiny64>(c, "tiny64", position, how, seed, format, embedded, 40);
  } else {
    stream<Narrow>(c, "narrow", position, how, seed, format, embedded, 40);
  }
}

MC_FAMILY(mt19937, "every position of the 32 bit engine over two refills", 2)
{
  auto n = std::mt19937::state_size;
  auto position = static_cast<unsigned long>(c.choose(static_cast<int>(mc::bound(2 * n + 3, n + 2, 4 * n, 2 * n))));
  int how = c.choose(mc::bound(3, 1, 5, 2));
  stream<std::mt19937>(c, "mt19937", position, (how + 3) % 5, mc::thorough ? c.choose(3) : static_cast<int>(position % 4), static_cast<int>(position + how) % 2, position % 5 == 0, 2 * n + 10);
}

MC_FAMILY(mt19937_64, "every position of the 64 bit engine over two refills", 2)
{
  auto n = std::mt19937_64::state_size;
  auto position = static_cast<unsigned long>(c.choose(static_cast<int>(mc::bound(3 * n + 3, n + 2, 6 * n, 3 * n))));
  int how = c.choose(mc::bound(3, 1, 5, 2));
  stream<std::mt19937_64>(c, "mt19937_64", position, (how + 3) % 5, mc::thorough ? c.choose(3) : static_cast<int>(position % 4), static_cast<int>(position + how) % 2, position % 5 == 0, 2 * n + 10);
}

// Engines with states that are much longer than the usual ones
using Long32 = std::mersenne_twister_engine<std::uint_fast32_t, 32, 1391, 481, 23, 0x9908b0dfUL, 11, 0xffffffffUL, 7, 0x9d2c5680UL, 15, 0xefc60000UL, 18, 1812433253UL>;
using Long64 = std::mersenne_twister_engine<std::uint_fast64_t, 64, 3500, 1000, 31, 0xb5026f5aa96619e9ULL, 29, 0x5555555555555555ULL, 17, 0x71d67fffeda60000ULL, 37, 0xfff7eee000000000ULL, 43, 6364136223846793005ULL>;
using Longer = std::mersenne_twister_engine<std::uint_fast32_t, 32, 20000, 3001, 19, 0x9908b0dfUL, 11, 0xffffffffUL, 7, 0x9d2c5680UL, 15, 0xefc60000UL, 18, 1812433253UL>;
MC_FAMILY(long_engines, "engines of 1391 to 20000 words of state, at positions around their refills", 3)
{
  auto which = c.choose(3);
  auto at = c.choose(mc::bound(9, 5, 9, 9));
  auto seed = c.choose(mc::bound(3, 2, 5, 3));
  auto format = c.choose(2);
  auto how = c.choose(mc::bound(2, 1, 5, 2)) + (mc::thorough ? 0 : 2);
  auto run = [&](auto e, char const* name) {
    using E = decltype(e);
    auto n = E::state_size;
    unsigned long const p[] = { 0, n, n - 1, n + 1, n / 2, 1, 7, 1000, 2 * n + 3 };
    stream<E>(c, name, p[at], how, seed, format, at % 2 == 0, n + 10);
  };
  if (which == 0) {
    run(Long32(), "1391 words");
  } else if (which == 1) {
    run(Long64(), "3500 long words");
  } else {
    run(Longer(), "20000 words");
  }
}

MC_FAMILY(histories, "all histories of draws, discards, saves and restores over three engines", 3)
{
  Tiny e[3] = { Tiny(1), Tiny(2), Tiny(1) };
  Tiny m[3] = { e[0], e[1], e[2] };
  std::string slot;
  Tiny mslot;
  bool full = false;
  mc::H h;
  for (int i = 0; i < mc::bound(5, 4, 6, 5); ++i) {
    auto k = c.choose(3);
    switch (c.choose(5)) {
      case 0:
        c.op("draw ", k);
        MC_CHECK(c, e[k]() == m[k](), "engine ", k, " draws another number");
        break;
      case 1:
        c.op("discard ", k);
        e[k].discard(4);
        m[k].discard(4);
        break;
      case 2:
      case 3:
        c.op("save ", k);
        slot = write(i % 2, e[k], false) + static_cast<char>('0' + i % 2);
        mslot = m[k];
        full = true;
        break;
      default:
        if (full) {
          c.op("restore ", k);
          read(slot.back() - '0', slot.substr(0, slot.size() - 1), e[k], false);
          m[k] = mslot;
        }
        break;
    }
    for (int j = 0; j < 3; ++j) {
      MC_CHECK(c, e[j] == m[j], "engine ", j, " is in another state");
      h.add(static_cast<uint64_t>(Tiny(m[j])()));
    }
    c.state(h);
  }
}

/// Reading s either fails with an exception or gives the saved stream
template<class E>
static void
damaged(mc::Ctx& c, int format, std::string const& s, E const& saved, bool must_fail, std::string const& what)
{
  auto r = target(1, saved);
  bool thrown = false;
  try {
    read(format, s, r, false);
  } catch (std::exception const& ex) {
    thrown = true;
  }
  c.op(what, thrown ? " refused" : " read");
  MC_CHECK(c, thrown || (!must_fail && r == saved), what, must_fail && r == saved ? ": accepted" : ": silently continues another stream");
}

template<class E>
static void
truncated(mc::Ctx& c, char const* name, unsigned long position)
{
  E e(5);
  e.discard(position);
  auto format = c.choose(2);
  auto s = write(format, e, false);
  auto chunks = 16; // (more than that would not fit a choice at once)
  auto per = (s.size() + chunks - 1) / chunks;
  auto from = static_cast<size_t>(c.choose(chunks)) * per;
  for (size_t cut = from; cut < std::min(s.size(), from + per); ++cut) {
    damaged(c, format, s.substr(0, cut), e, false, std::string(name) + " cut to " + std::to_string(cut) + " of " + std::to_string(s.size()) + " bytes");
    c.state(mc::H().add(format).add(cut).add(position).add(std::string(name)));
  }
}
MC_FAMILY(truncated, "saved engines cut at every byte, at positions with one to three digits", 3)
{
  auto p = c.choose(4);
  static unsigned long const big[] = { 0, 7, 45, 617 };
  static unsigned long const small[] = { 0, 1, 3, 4 };
  switch (c.choose(4)) {
    case 0: truncated<Tiny>(c, "tiny", small[p]); break;
    case 1: truncated<Tiny64>(c, "tiny64", small[p]); break;
    case 2: truncated<std::mt19937>(c, "mt19937", big[p]); break;
    default: truncated<std::mt19937_64>(c, "mt19937_64", p == 3 ? 310 : big[p]); break;
  }
}

template<class E>
static void
corrupted(mc::Ctx& c, char const* name, unsigned long position)
{
  E e(5);
  e.discard(position);
  auto format = c.choose(2);
  auto s = write(format, e, false);
  std::ostringstream os;
  os << e;
  auto text = os.str();
  auto at = s.find(text);
  if (at == std::string::npos) {
    c.op("the state is not saved in its standard text form");
    c.state(1);
    return;
  }
  char bad = c.pick({ 'x', '\0', '#', ',' });
  auto chunks = 16;
  auto per = (text.size() + chunks - 1) / chunks;
  auto from = static_cast<size_t>(c.choose(chunks)) * per;
  for (size_t i = from; i < std::min(text.size(), from + per); ++i) {
    auto t = s;
    t[at + i] = bad;
    // a character that is neither digit nor blank: never the state of an engine
    damaged(c, format, t, e, true, std::string(name) + " with byte " + std::to_string(i) + " of the state replaced");
    c.state(mc::H().add(format).add(i).add(position).add(std::string(name)).add(static_cast<int>(bad)));
  }
  // whole states that are not one
  if (from == 0) {
    for (std::string const& w : { std::string(), std::string("x"), std::string("1 2 3"), text.substr(0, text.rfind(' ')), std::string(text.size(), ' ') }) {
      auto t = s;
      if (w.size() == text.size()) {
        t.replace(at, text.size(), w);
        damaged(c, format, t, e, true, "blank state");
      } else if (format == 0) {
        // the length is written in front of the string
        auto len = std::to_string(text.size());
        auto l = s.rfind(len + " ", at);
        if (l != std::string::npos && l + len.size() + 1 == at) {
          t.replace(l, len.size() + 1 + text.size(), std::to_string(w.size()) + " " + w);
          damaged(c, format, t, e, true, "state '" + w.substr(0, 20) + "'");
        }
      }
    }
  }
}
MC_FAMILY(corrupted, "saved engines with every single byte of the state replaced by something that is no number, empty, short and blank states", 3)
{
  auto p = c.choose(2);
  switch (c.choose(4)) {
    case 0: corrupted<Tiny>(c, "tiny", p == 0 ? 0 : 3); break;
    case 1: corrupted<Tiny64>(c, "tiny64", p == 0 ? 0 : 3); break;
    case 2: corrupted<std::mt19937>(c, "mt19937", p == 0 ? 0 : 45); break;
    default: corrupted<std::mt19937_64>(c, "mt19937_64", p == 0 ? 0 : 123); break;
  }
}
