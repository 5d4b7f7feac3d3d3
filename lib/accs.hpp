// Histories of the accumulators.
#pragma once
#include "exact.hpp"
#include "mc.hpp"
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <sstream>

namespace accs {

constexpr double u = 1.1102230246251565e-16; // 2^-53

/// Text of the saved object
template<class T>
inline std::string
save(T const& x)
{
  std::ostringstream os;
  {
    boost::archive::text_oarchive oa(os);
    oa << x;
  }
  return os.str();
}

template<class T>
inline void
load(std::string const& s, T& x)
{
  std::istringstream is(s);
  boost::archive::text_iarchive ia(is);
  ia >> x;
}

/// Replace a number in the saved text of an object and load it back.  Only
/// possible if the number appears there exactly once.
template<class T>
inline bool
set_token(T& x, std::string const& word, std::string const& to, std::string const& what)
{
  auto s = save(x);
  std::vector<size_t> at;
  size_t p = 0;
  while (p < s.size()) {
    auto e = s.find_first_of(" \n", p);
    if (e == std::string::npos) {
      e = s.size();
    }
    if (s.substr(p, e - p) == word) {
      at.push_back(p);
    }
    p = e + 1;
  }
  if (at.size() != 1) {
    return false;
  }
  s.replace(at[0], word.size(), to);
  try {
    load(s, x);
  } catch (std::exception const& e) {
    mc::fail("the state with ", what, " ", to, " can not be restored: ", e.what());
  }
  return true;
}

/// Put an accumulator that counts `from` measurements into the state where it
/// has counted `to` of them.
template<class T>
inline bool
set_count(T& x, unsigned long from, unsigned long to)
{
  return set_token(x, std::to_string(from), std::to_string(to), "count");
}

inline bool
same(double a, double b)
{
  return (a == b) || (std::isnan(a) && std::isnan(b));
}
} // namespace accs
