#pragma once
#include <vector>
struct Plain
{
  Plain();
  Plain(Plain const&) = delete;
  ~Plain();
  void add(double x, double weight, long i);
  void reset();
  std::vector<double> answers() const;
  void *k, *n, *w, *t, *z;
};
#define QUERIES(K, N, W, T, Z)                                                          \
  {                                                                                     \
    double(K.Count()), K.Sum(), K.Mean(), double(N.Count()), N.Sum(), N.Mean(),         \
      double(W.Count()), W.Sum(), W.Mean(), W.Variance(true), W.Variance(false),        \
      W.ScaledVariance(), W.StandardDeviation(true), W.Error(false),                    \
      double(T.Count()), T.Sum(), T.Mean(), T.PopulationVariance(),                     \
      T.SampleFrequencyVariance(), T.SampleReliabilityVariance(), double(Z.Count()),    \
      double(Z.Sum()), Z.Mean(), Z.Variance(true), Z.Variance(false),                   \
      Z.ScaledVariance(), Z.StandardDeviation(true)                                     \
  }
