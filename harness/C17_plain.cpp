// The accumulators without the checks, in a namespace of their own
// (compiled with -Dbwsl=bwsl_plain).
#include <bwsl/Accumulators.hpp>
#include <bwsl/accumulators/NaiveIntegerAccumulator.hpp>
#include "C17_plain.hpp"

Plain::Plain()
  : k(new bwsl::accumulators::KahanAccumulator)
  , n(new bwsl::accumulators::NeumaierAccumulator)
  , w(new bwsl::accumulators::KnuthWelfordAccumulator)
  , t(new bwsl::accumulators::WestAccumulator)
  , z(new bwsl::NaiveInteger)
{
}
#define K (*static_cast<bwsl::accumulators::KahanAccumulator*>(k))
#define N (*static_cast<bwsl::accumulators::NeumaierAccumulator*>(n))
#define W (*static_cast<bwsl::accumulators::KnuthWelfordAccumulator*>(w))
#define T (*static_cast<bwsl::accumulators::WestAccumulator*>(t))
#define Z (*static_cast<bwsl::NaiveInteger*>(z))
Plain::~Plain()
{
  delete &K;
  delete &N;
  delete &W;
  delete &T;
  delete &Z;
}
void
Plain::add(double x, double weight, long i)
{
  K.Add(x);
  N.Add(x);
  W.Add(x);
  T.Add(x, weight);
  Z.Add(i);
}
void
Plain::reset()
{
  K.Reset();
  N.Reset();
  W.Reset();
  T.Reset();
  Z.Reset();
}
std::vector<double>
Plain::answers() const
{
  return QUERIES(K, N, W, T, Z);
}
