From 4ab7fec9f1b6489e117f9702f62b61cae2be5ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:12 +0000
Subject: [PATCH 01/33] fix: RationalNum keeps its denominator positive

The sign of get_gcd follows its arguments, so that RationalLong(-1, 2) was
stored as 1//-2 and compared greater than RationalLong(1, 2).
---
 include/bwsl/RationalNum.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bwsl/RationalNum.hpp b/include/bwsl/RationalNum.hpp
index 439d3e7..e10fee3 100644
--- a/include/bwsl/RationalNum.hpp
+++ b/include/bwsl/RationalNum.hpp
@@ -197,6 +197,10 @@ inline void
 RationalNum<T>::Simplify()
 {
   auto g = get_gcd(num_, den_);
+  // keep the denominator positive, the relational operators rely on it
+  if ((g < 0) != (den_ < 0)) {
+    g = -g;
+  }
   num_ = num_ / g;
   den_ = den_ / g;
 }
-- 
2.43.0


From f986db40406db13a583677bd65092579cc3ccfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:12 +0000
Subject: [PATCH 02/33] fix: compare RationalNum with integers without
 truncating it

The rational was truncated to an integer first: RationalLong(5, 2) == 2L.
---
 include/bwsl/RationalNum.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/RationalNum.hpp b/include/bwsl/RationalNum.hpp
index e10fee3..23ad336 100644
--- a/include/bwsl/RationalNum.hpp
+++ b/include/bwsl/RationalNum.hpp
@@ -216,14 +216,14 @@ template<class G>
 inline auto
 operator<(const RationalNum<G>& lhs, const G& rhs) -> bool
 {
-  return lhs.num_ / lhs.den_ < rhs;
+  return lhs.num_ < rhs * lhs.den_;
 }
 
 template<class G>
 inline auto
 operator<(const G& lhs, const RationalNum<G>& rhs) -> bool
 {
-  return lhs < rhs.num_ / rhs.den_;
+  return lhs * rhs.den_ < rhs.num_;
 }
 
 TEMPLATEOVERLOADRELATIONAL(RationalNum<G>, RationalNum<G>, G)
-- 
2.43.0


From d569cf475151f8afc23c74232dba1494f982f4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:12 +0000
Subject: [PATCH 03/33] fix: RationalNum extraction yields a simplified number
 or nothing

The parsed numerator and denominator were stored as they came: 3//-6 compared
wrongly, a zero denominator was accepted, and malformed text left a half
written number behind.
---
 include/bwsl/RationalNum.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/RationalNum.hpp b/include/bwsl/RationalNum.hpp
index 23ad336..428441f 100644
--- a/include/bwsl/RationalNum.hpp
+++ b/include/bwsl/RationalNum.hpp
@@ -171,7 +171,9 @@ inline auto
 operator>>(std::istream& in, RationalNum<T>& rhs) -> std::istream&
 {
   auto sep = char{};
-  in >> rhs.num_;
+  auto num = T{ 0 };
+  auto den = T{ 1 };
+  in >> num;
   for (auto i = 0UL; i < 2UL; i++) {
     in >> sep;
     if (sep != '/') {
@@ -179,7 +181,14 @@ operator>>(std::istream& in, RationalNum<T>& rhs) -> std::istream&
       return in;
     }
   }
-  in >> rhs.den_;
+  in >> den;
+
+  if (!in.fail() && den == 0) {
+    in.setstate(std::ios_base::failbit);
+  }
+  if (!in.fail()) {
+    rhs = RationalNum<T>(num, den);
+  }
 
   return in;
 }
-- 
2.43.0


From e121f0efae3341e5cf27df7b10b3350c93c63f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:12 +0000
Subject: [PATCH 04/33] fix: ToString of a RationalNum compiles

fmt has no formatter for RationalNum, any use of ToString was rejected.
---
 include/bwsl/RationalNum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bwsl/RationalNum.hpp b/include/bwsl/RationalNum.hpp
index 428441f..113fb44 100644
--- a/include/bwsl/RationalNum.hpp
+++ b/include/bwsl/RationalNum.hpp
@@ -345,7 +345,7 @@ template<class T>
 inline auto
 ToString(RationalNum<T> const& rhs) -> std::string
 {
-  return fmt::format("{}", rhs);
+  return fmt::format("{}//{}", rhs.GetNum(), rhs.GetDen());
 }
 
 } // namespace bwsl
-- 
2.43.0


From cdb93a38f28cadc007ff9c7677c5588c2b4983b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:31 +0000
Subject: [PATCH 05/33] fix: the message of a failed enum conversion outlives
 what()

what() returned a pointer into a string local to it.
---
 include/bwsl/EnumString.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/bwsl/EnumString.hpp b/include/bwsl/EnumString.hpp
index cdd1f0d..495f022 100644
--- a/include/bwsl/EnumString.hpp
+++ b/include/bwsl/EnumString.hpp
@@ -66,20 +66,18 @@
   {                                                                            \
   public:                                                                      \
     EnumStringConversionFailed_##name(std::string const& value)                \
-      : value_(value)                                                          \
+      : message_("Unknown correspondance of " + value + " for enum " +         \
+                 BOOST_PP_STRINGIZE(name))                                     \
     {                                                                          \
     }                                                                          \
                                                                                \
     const char* what() const throw()                                           \
     {                                                                          \
-      auto s = std::string("Unknown correspondance of ") + value_ +            \
-               std::string(" for enum ") + name_;                              \
-      return s.c_str();                                                        \
+      return message_.c_str();                                                 \
     }                                                                          \
                                                                                \
   private:                                                                     \
-    const std::string name_{ BOOST_PP_STRINGIZE(name) };                       \
-    std::string value_{ "" };                                                  \
+    std::string message_{};                                                    \
   };                                                                           \
                                                                                \
   inline std::string ToString(name v)                                          \
-- 
2.43.0


From 7118b84d21cc0094ee230df0795589c6fddef280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:31 +0000
Subject: [PATCH 06/33] fix: compare_files can be included by several
 translation units

It was neither inline nor a template, so that two translation units including
the header did not link together.
---
 include/bwsl/FileUtils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bwsl/FileUtils.hpp b/include/bwsl/FileUtils.hpp
index 9964112..3e2fe01 100644
--- a/include/bwsl/FileUtils.hpp
+++ b/include/bwsl/FileUtils.hpp
@@ -25,7 +25,7 @@ namespace bwsl {
 /// This code is based on this answer
 /// http://stackoverflow.com/a/37575457/4477378
 ///
-auto
+inline auto
 compare_files(const std::string& p1, const std::string& p2) -> bool
 {
   std::ifstream f1(p1, std::ifstream::binary | std::ifstream::ate);
-- 
2.43.0


From 62cba73a56413c01938ba4622ec404abd55b991d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:31 +0000
Subject: [PATCH 07/33] fix: HistAccumulator divides all the results by the
 given one

The divisor was a reference to an element of the vector being divided: it
became 1 when its turn came, and the bins after it were not normalized.
---
 include/bwsl/HistAccumulator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bwsl/HistAccumulator.hpp b/include/bwsl/HistAccumulator.hpp
index 7b12736..8a17d06 100644
--- a/include/bwsl/HistAccumulator.hpp
+++ b/include/bwsl/HistAccumulator.hpp
@@ -187,8 +187,9 @@ inline auto
 HistAccumulator::GetResults(size_t idx) const -> std::vector<double>
 {
   auto r = GetResults();
+  auto const norm = r[idx];
   for (auto& v : r) {
-    v /= r[idx];
+    v /= norm;
   }
   return r;
 }
-- 
2.43.0


From ca7b324d2199531d85e42ef99580eef362f197e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:31 +0000
Subject: [PATCH 08/33] fix: a failed HistAccumulator::Resize leaves the
 histogram as it was

The number of bins was updated before the allocation that can fail, and the
results of bins that do not exist were read afterwards.
---
 include/bwsl/HistAccumulator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bwsl/HistAccumulator.hpp b/include/bwsl/HistAccumulator.hpp
index 8a17d06..eed96ee 100644
--- a/include/bwsl/HistAccumulator.hpp
+++ b/include/bwsl/HistAccumulator.hpp
@@ -155,8 +155,8 @@ HistAccumulator::ForceAdd(size_t idx, T val) -> void
 inline void
 HistAccumulator::Resize(size_t nbins)
 {
-  nbins_ = nbins;
   acc_.resize(nbins);
+  nbins_ = nbins;
 }
 
 inline auto
-- 
2.43.0


From cdb4c805658fe8d3a1ead347178fd5b2db72c062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:31 +0000
Subject: [PATCH 09/33] fix: Bravais::GetInverseVector inverts GetRealSpace

It multiplied the component i with the whole row i of the inverse matrix,
which is right only for diagonal matrices (not for the triangular lattice).
---
 include/bwsl/Bravais.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bwsl/Bravais.hpp b/include/bwsl/Bravais.hpp
index 8379699..7a0350e 100644
--- a/include/bwsl/Bravais.hpp
+++ b/include/bwsl/Bravais.hpp
@@ -151,7 +151,7 @@ Bravais::GetInverseVector(realvec_t const& realspace) const
   auto p = Bravais::realvec_t(dim_, 0.0);
   for (auto i = 0UL; i < dim_; i++) {
     for (auto j = 0UL; j < dim_; j++) {
-      p[i] += realspace[i] * pivectors_[i * dim_ + j];
+      p[i] += realspace[j] * pivectors_[i * dim_ + j];
     }
   }
   return p;
-- 
2.43.0


From 0497e8e1f80402eaa6958d56bf6fdcacfceb0751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:35 +0000
Subject: [PATCH 10/33] fix: distances and vectors of lattices with open
 boundaries

Displacements with a negative component were mapped to an unrelated site, or
to none: GetDistance(4, 3) of an open 3x3 lattice read out of bounds.
---
 include/bwsl/Lattice.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/bwsl/Lattice.hpp b/include/bwsl/Lattice.hpp
index 38b81f3..84dc80e 100644
--- a/include/bwsl/Lattice.hpp
+++ b/include/bwsl/Lattice.hpp
@@ -214,6 +214,9 @@ inline auto
 Lattice::GetDistance(size_t a, size_t b) const -> double
 {
   assert(IndexIsValid(a) && IndexIsValid(b));
+  if (HasOpenBoundaries()) {
+    return std::sqrt(sum_squared<realvec_t, double>(GetVector(a, b)));
+  }
   auto s = GetMappedSite(a, b);
   return distance_[s];
 }
@@ -222,6 +225,11 @@ inline auto
 Lattice::GetVector(size_t a, size_t b) const -> realvec_t
 {
   assert(IndexIsValid(a) && IndexIsValid(b));
+  // without translation invariance the displacement may have no mapped site
+  if (HasOpenBoundaries()) {
+    auto v = position_[b];
+    return subtract_into(v, position_[a]);
+  }
   auto s = GetMappedSite(a, b);
   return vectors_[s];
 }
-- 
2.43.0


From e7560b386502f9513ad253432b51b60636830068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:35 +0000
Subject: [PATCH 11/33] fix: momenta of lattices with different sizes and
 oblique vectors

The Cartesian components were divided by the sizes, instead of the ones along
the reciprocal lattice vectors: the momenta of a 3x4 triangular lattice did
not have the periodicity of the lattice.
---
 include/bwsl/Lattice.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/bwsl/Lattice.hpp b/include/bwsl/Lattice.hpp
index 84dc80e..e07c087 100644
--- a/include/bwsl/Lattice.hpp
+++ b/include/bwsl/Lattice.hpp
@@ -378,12 +378,15 @@ Lattice::ComputeMomenta(Bravais const& bravais) const
   // sites of the direct lattice
   for (auto i = 0UL; i < GetNumSites(); i++) {
     auto ci = GetCoordinates(i);
+    auto kappa = realvec_t(GetDim(), 0.0);
     for (auto k = 0UL; k < ci.size(); k++) {
-      ci[k] -= GetSize()[k] / 2UL;
-    }
-    auto kappa = bravais.GetReciprocalSpace(ci);
-    for (auto k = 0UL; k < kappa.size(); k++) {
-      kappa[k] /= GetSize()[k];
+      // component along the k-th reciprocal lattice vector
+      auto ck = coords_t(GetDim(), 0);
+      ck[k] = ci[k] - static_cast<long>(GetSize()[k] / 2UL);
+      auto const gk = bravais.GetReciprocalSpace(ck);
+      for (auto q = 0UL; q < kappa.size(); q++) {
+        kappa[q] += gk[q] / static_cast<double>(GetSize()[k]);
+      }
     }
     p.push_back(kappa);
   }
-- 
2.43.0


From 584d2a7c3c5fcbf0b190b63731f7ac7a6d8d4e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:35 +0000
Subject: [PATCH 12/33] fix: SaveMomenta of a lattice with open boundaries

It read the momenta, which are not defined in this case, out of bounds.
---
 include/bwsl/Lattice.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bwsl/Lattice.hpp b/include/bwsl/Lattice.hpp
index e07c087..5a9d94e 100644
--- a/include/bwsl/Lattice.hpp
+++ b/include/bwsl/Lattice.hpp
@@ -492,7 +492,8 @@ Lattice::SaveMomenta(std::string const& fname) const
   }
   fmt::print(out, "\n");
 
-  for (auto i = 0UL; i < GetNumSites(); i++) {
+  // with open boundary conditions there are no momenta
+  for (auto i = 0UL; i < momenta_.size(); i++) {
     fmt::print(out, "{}", i);
     for (auto const& k : momenta_[i]) {
       fmt::print(out, ",{}", k);
-- 
2.43.0


From a092248696edf194e5b6938c8ac805a9f3c2bcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:35 +0000
Subject: [PATCH 13/33] fix: the minimum distance on skewed and elongated
 closed lattices

Only the first shell of periodic images was visited, which does not contain
the closest one e.g. on a 1x9 triangular lattice.
---
 include/bwsl/Lattice.hpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/include/bwsl/Lattice.hpp b/include/bwsl/Lattice.hpp
index 5a9d94e..e21973e 100644
--- a/include/bwsl/Lattice.hpp
+++ b/include/bwsl/Lattice.hpp
@@ -331,6 +331,32 @@ Lattice::ComputeVectors(Bravais const& bravais) const
           minvec = vec;
         }
       }
+
+      // If the cell is skewed or elongated the closest image can be farther
+      // than the first shell: visit all the images that may be closer.
+      auto low = coords_t(GetDim());
+      auto nlow = gridsize_t(GetDim());
+      for (auto m = 0UL; m < GetDim(); m++) {
+        auto em = coords_t(GetDim(), 0);
+        em[m] = 1;
+        auto const l = static_cast<double>(GetSize()[m]);
+        auto const cmax =
+          mindist * l2norm(bravais.GetReciprocalSpace(em)) / (2 * M_PI);
+        low[m] = std::lround(std::ceil((-cmax - cs[m]) / l));
+        nlow[m] = std::lround(std::floor((cmax - cs[m]) / l)) - low[m] + 1;
+      }
+      for (auto k = 0UL; k < accumulate_product(nlow); k++) {
+        auto csm = index_to_array<coords_t, gridsize_t>(k, nlow);
+        for (auto m = 0UL; m < GetDim(); m++) {
+          csm[m] = cs[m] + (csm[m] + low[m]) * static_cast<long>(GetSize()[m]);
+        }
+        auto [dist, vec] = bravais.GetDistanceVector(c0, csm);
+
+        if (dist < mindist) {
+          mindist = dist;
+          minvec = vec;
+        }
+      }
     }
     p[site] = minvec;
   }
-- 
2.43.0


From d0e8ea741e3532ef94b451fef688f0d694255e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:35 +0000
Subject: [PATCH 14/33] fix: Lattice::EnforceBoundaries follows the boundary
 conditions

It wrapped the coordinates also with open boundaries, unlike the same function
of the grid.
---
 include/bwsl/Lattice.hpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/include/bwsl/Lattice.hpp b/include/bwsl/Lattice.hpp
index e21973e..96bdd4a 100644
--- a/include/bwsl/Lattice.hpp
+++ b/include/bwsl/Lattice.hpp
@@ -199,15 +199,7 @@ inline Lattice::Lattice(Bravais const& bravais,
 inline void
 Lattice::EnforceBoundaries(coords_t& coords) const
 {
-  for (auto i = 0UL; i < GetDim(); i++) {
-    auto s = GetSize()[i];
-    while (coords[i] < 0) {
-      coords[i] += s;
-    }
-    while (coords[i] >= static_cast<long>(s)) {
-      coords[i] -= s;
-    }
-  }
+  HyperCubicGrid::EnforceBoundaries(coords);
 }
 
 inline auto
-- 
2.43.0


From 3e365eb18c0bb90ef26d641482eff898fcf283a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:35 +0000
Subject: [PATCH 15/33] fix: GetJump on grids with more than 2^32 sites per
 side

Half of the size was truncated to an int.
---
 include/bwsl/HyperCubicGrid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bwsl/HyperCubicGrid.hpp b/include/bwsl/HyperCubicGrid.hpp
index 14735c8..cd9d779 100644
--- a/include/bwsl/HyperCubicGrid.hpp
+++ b/include/bwsl/HyperCubicGrid.hpp
@@ -253,7 +253,7 @@ HyperCubicGrid::GetJump(size_t a, size_t b) const -> coords_t
       auto& cbi = cb[i];
       auto si = GetSize()[i];
       // half distance (integer division)
-      auto si_half = static_cast<int>(si / 2);
+      auto si_half = static_cast<long>(si / 2);
       if (cbi > si_half) {
         cbi -= si;
       }
-- 
2.43.0


From 5a51e33b93759edf35b144f11163d9678943e529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:35 +0000
Subject: [PATCH 16/33] fix: LinSpace can be compared and used in a range based
 for

The friends declared in the class are not the templates defined after it, and
any comparison failed to link.
---
 include/bwsl/LinSpace.hpp | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/include/bwsl/LinSpace.hpp b/include/bwsl/LinSpace.hpp
index 59b9d73..0a53bb0 100644
--- a/include/bwsl/LinSpace.hpp
+++ b/include/bwsl/LinSpace.hpp
@@ -74,10 +74,16 @@ private:
   unsigned long step_{ 0 };
 
   /// Compare two LinSpaces and check for equality
-  friend auto operator==(const LinSpace<T>& a, const LinSpace<T>& b) -> bool;
+  friend auto operator==(const LinSpace<T>& a, const LinSpace<T>& b) -> bool
+  {
+    return a.step_ == b.step_;
+  };
 
   /// Compare two LinSpaces and check for inequality
-  friend auto operator!=(const LinSpace<T>& a, const LinSpace<T>& b) -> bool;
+  friend auto operator!=(const LinSpace<T>& a, const LinSpace<T>& b) -> bool
+  {
+    return !(a == b);
+  };
 }; // class LinSpace
 
 template<typename T>
@@ -149,20 +155,6 @@ LinSpace<T>::Collect(unsigned long n) -> std::vector<T>
   return retval;
 }
 
-template<typename T>
-auto
-operator==(const LinSpace<T>& a, const LinSpace<T>& b) -> bool
-{
-  return a.step_ == b.step_;
-};
-
-template<typename T>
-auto
-operator!=(const LinSpace<T>& a, const LinSpace<T>& b) -> bool
-{
-  return !(a == b);
-}
-
 } // namespace bwsl
 
 // vim: set ts=2 sts=2 et sw=2 tw=80: //
-- 
2.43.0


From f5e356a62ad7d14906ec4b3b1b79b8e48590c020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:35 +0000
Subject: [PATCH 17/33] fix: define the strict comparisons of Approx

They were declared only: using them failed to link.
---
 include/bwsl/Approx.hpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/Approx.hpp b/include/bwsl/Approx.hpp
index b9e9dbb..3b1c717 100644
--- a/include/bwsl/Approx.hpp
+++ b/include/bwsl/Approx.hpp
@@ -76,9 +76,9 @@ private:
   friend auto operator<=(Approx const& lhs, double rhs) -> bool;
   friend auto operator>=(double lhs, Approx const& rhs) -> bool;
   friend auto operator>=(Approx const& lhs, double rhs) -> bool;
-  friend auto operator<(Approx lhs, double const& rhs) -> bool;
+  friend auto operator<(Approx const& lhs, double rhs) -> bool;
   friend auto operator<(double lhs, Approx const& rhs) -> bool;
-  friend auto operator>(Approx lhs, double const& rhs) -> bool;
+  friend auto operator>(Approx const& lhs, double rhs) -> bool;
   friend auto operator>(double lhs, Approx const& rhs) -> bool;
 }; // class Approx
 
@@ -131,6 +131,30 @@ operator>=(Approx const& lhs, double rhs) -> bool
   return lhs.value_ > rhs || lhs == rhs;
 }
 
+inline auto
+operator<(double lhs, Approx const& rhs) -> bool
+{
+  return lhs < rhs.value_ && lhs != rhs;
+}
+
+inline auto
+operator<(Approx const& lhs, double rhs) -> bool
+{
+  return lhs.value_ < rhs && lhs != rhs;
+}
+
+inline auto
+operator>(double lhs, Approx const& rhs) -> bool
+{
+  return lhs > rhs.value_ && lhs != rhs;
+}
+
+inline auto
+operator>(Approx const& lhs, double rhs) -> bool
+{
+  return lhs.value_ > rhs && lhs != rhs;
+}
+
 inline Approx::Approx(double val)
   : value_(static_cast<double>(val))
 {
-- 
2.43.0


From 81f088f6917bcd7f336a0c2ff434306e49c9e488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:35 +0000
Subject: [PATCH 18/33] fix: MoveStats ratios are zero when nothing has been
 proposed

Only the acceptance ratio was, the other ones were not a number.
---
 include/bwsl/mcutils/MoveStats.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/mcutils/MoveStats.hpp b/include/bwsl/mcutils/MoveStats.hpp
index 03eb46c..9b6874b 100644
--- a/include/bwsl/mcutils/MoveStats.hpp
+++ b/include/bwsl/mcutils/MoveStats.hpp
@@ -138,13 +138,14 @@ public:
   /// Compute the rejection ratio from the collected statistics
   [[nodiscard]] auto GetRejectedRatio() const -> double
   {
-    return static_cast<double>(rejected_) / proposed_;
+    return proposed_ == 0UL ? 0.0 : static_cast<double>(rejected_) / proposed_;
   };
 
   /// Compute the ratio of cancellations from the collected statistics
   [[nodiscard]] auto GetImpossibleRatio() const -> double
   {
-    return static_cast<double>(impossible_) / proposed_;
+    return proposed_ == 0UL ? 0.0
+                            : static_cast<double>(impossible_) / proposed_;
   };
 
   /// Compute the average acceptance
-- 
2.43.0


From ca9de27886b09c22d8035ead138ddae4ac5c0bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:35 +0000
Subject: [PATCH 19/33] fix: variance of the NaiveInteger accumulator

The sum of the squares was not multiplied by the count: the variance of
{1, 2, 3} came out negative.
---
 .../bwsl/accumulators/NaiveIntegerAccumulator.hpp    | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp b/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
index c3b9632..015d30a 100644
--- a/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
+++ b/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
@@ -129,7 +129,7 @@ NaiveInteger::Variance(bool corrected) const -> double
 
   auto ccount = corrected ? count_ - 1UL : count_;
 
-  return static_cast<double>(sum2_ - sum_ * sum_) / (count_ * ccount);
+  return ScaledVariance() / ccount;
 }
 
 inline auto
@@ -139,7 +139,15 @@ NaiveInteger::ScaledVariance() const -> double
     return std::nan("");
   }
 
-  return static_cast<double>(sum2_ - sum_ * sum_) / count_;
+  // With the integer q next to the mean (sum = q * n + r) the squared
+  // deviations from q add up to an integer, which is exact modulo 2^64.
+  auto const n = static_cast<long>(count_);
+  auto const q = static_cast<unsigned long>(sum_ / n);
+  auto const r = static_cast<unsigned long>(std::abs(sum_ % n));
+  auto const s = static_cast<unsigned long>(sum_);
+  auto const d = static_cast<unsigned long>(sum2_) - q * (2 * s - q * count_);
+  return static_cast<double>(d - r) +
+         static_cast<double>(r) * static_cast<double>(count_ - r) / count_;
 }
 
 inline auto
-- 
2.43.0


From 224e40de51a5f99c2f0a5c199868412256ce42ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:35 +0000
Subject: [PATCH 20/33] fix: overflow checks of the NaiveInteger accumulator

With BWSL_ACCUMULATORS_CHECKS every measurement was reported as an overflow.
---
 include/bwsl/accumulators/NaiveIntegerAccumulator.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp b/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
index 015d30a..984c550 100644
--- a/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
+++ b/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
@@ -106,10 +106,12 @@ NaiveInteger::Add(long x) -> void
   if (count_ == std::numeric_limits<unsigned long>::max()) {
     throw exception::AccumulatorOverflow();
   }
-  if (std::numeric_limits<unsigned long>::max() - sum_ <= x) {
+  constexpr auto max = std::numeric_limits<long>::max();
+  constexpr auto min = std::numeric_limits<long>::min();
+  if (x > 0 ? sum_ > max - x : sum_ < min - x) {
     throw exception::AccumulatorOverflow();
   }
-  if (std::numeric_limits<unsigned long>::max() < sum2_ <= x * x) {
+  if (x != 0 && (x == min || std::abs(x) > (max - sum2_) / std::abs(x))) {
     throw exception::AccumulatorOverflow();
   }
 #endif // BWSL_ACCUMULATORS_CHECKS
-- 
2.43.0


From bde8512922be37bccbcf3499a3d59ae7443eab8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:17 +0000
Subject: [PATCH 21/33] fix: upper_bound compiles, terminates and skips equal
 elements

The unqualified call was ambiguous, or recursed forever for pointers. The
first of several elements equal to the value was skipped, not all of them, and
the first interpolated position could be past the end.
---
 include/bwsl/MathUtils.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/bwsl/MathUtils.hpp b/include/bwsl/MathUtils.hpp
index dcb4dcb..ae52d27 100644
--- a/include/bwsl/MathUtils.hpp
+++ b/include/bwsl/MathUtils.hpp
@@ -18,6 +18,7 @@
 #include <algorithm>
 #include <array>
 #include <cassert>
+#include <cmath>
 #include <functional>
 #include <numeric>
 #include <random>
@@ -354,6 +355,10 @@ inline auto
 upper_bound(ForwardIt first, ForwardIt last, const T& value) -> ForwardIt
 {
   auto count = std::distance(first, last);
+  if (count == 0) {
+    return last;
+  }
+
   auto it = first;
   auto to = it;
   std::advance(to, count - 1);
@@ -365,7 +370,7 @@ upper_bound(ForwardIt first, ForwardIt last, const T& value) -> ForwardIt
       return it;
     }
     if (!(itval < value)) { // value <= it (so only if they are equal)
-      return ++it;
+      break;                // other equal elements may follow
     }
 
     // check if the value is outside the upper bound of the search interval
@@ -374,7 +379,8 @@ upper_bound(ForwardIt first, ForwardIt last, const T& value) -> ForwardIt
     }
 
     // compute the new position interpolating the position of the point
-    const auto np = std::round((value - itval) / (*to - itval) * count);
+    const auto np =
+      std::round((value - itval) / (*to - itval) * std::distance(it, to));
     auto nt = it;
     std::advance(nt, np);
 
@@ -385,7 +391,7 @@ upper_bound(ForwardIt first, ForwardIt last, const T& value) -> ForwardIt
     }
     count = std::distance(it, to);
   }
-  return upper_bound(it, ++to, value);
+  return std::upper_bound(it, ++to, value);
 }
 
 /// Greater common denominator
-- 
2.43.0


From 87777943b58579e4397e8cde21f151b6bf7af00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:17 +0000
Subject: [PATCH 22/33] fix: printing an ObservableGroup without observables

The end of the empty map was dereferenced.
---
 include/bwsl/ObservableGroup.hpp | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/include/bwsl/ObservableGroup.hpp b/include/bwsl/ObservableGroup.hpp
index 5bee924..50f3a3a 100644
--- a/include/bwsl/ObservableGroup.hpp
+++ b/include/bwsl/ObservableGroup.hpp
@@ -119,13 +119,10 @@ ObservableGroup<Index_t>::PrintHeaders() const
 {
   auto out = std::ofstream(output_file_.c_str(), std::ios::trunc);
 
-  auto it = accumulator_.begin();
-  fmt::print(out, "{}", it->first);
-  while (++it != accumulator_.end()) {
-    fmt::print(out, ",{}", it->first);
+  for (auto const& observable : accumulator_) {
+    fmt::print(out, "{},", observable.first);
   }
-  fmt::print(out, ",Count");
-  fmt::print(out, "\n");
+  fmt::print(out, "Count\n");
 }
 
 template<typename Index_t>
@@ -133,16 +130,12 @@ inline void
 ObservableGroup<Index_t>::PrintAndReset(size_t precision)
 {
   auto out = std::ofstream(output_file_.c_str(), std::ios::app);
-  auto it = accumulator_.begin();
-  auto count = it->second.Count();
-  fmt::print(out, "{:.{}e}", it->second.Mean(), precision);
-  it->second.Reset();
-  while (++it != accumulator_.end()) {
-    fmt::print(out, ",{:.{}e}", it->second.Mean(), precision);
-    it->second.Reset();
+  auto count = accumulator_.empty() ? 0UL : accumulator_.begin()->second.Count();
+  for (auto& observable : accumulator_) {
+    fmt::print(out, "{:.{}e},", observable.second.Mean(), precision);
+    observable.second.Reset();
   }
-  fmt::print(out, ",{}", count);
-  fmt::print(out, "\n");
+  fmt::print(out, "{}\n", count);
 }
 
 template<typename Index_t>
-- 
2.43.0


From 43ee13fa8743670a57f46efb1166040756010113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:17 +0000
Subject: [PATCH 23/33] fix: dumpmt accepts seeds larger than an int

The seed was parsed as an int: dumpmt 5000000000 dumped another seed.
---
 applications/dumpmt.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/applications/dumpmt.cpp b/applications/dumpmt.cpp
index 3a38199..4f59985 100644
--- a/applications/dumpmt.cpp
+++ b/applications/dumpmt.cpp
@@ -14,6 +14,7 @@
 //===---------------------------------------------------------------------===//
 
 // std
+#include <cstdlib>
 #include <fstream>
 #include <iostream>
 #include <random>
@@ -25,7 +26,7 @@ main (int ac, char **av)
     return EXIT_FAILURE;
   }
 
-  auto seed = static_cast<unsigned long>(atoi(av[1]));
+  auto seed = std::strtoul(av[1], nullptr, 10);
 
   auto rng = std::mt19937_64{seed};
 
-- 
2.43.0


From 79ec4ae55e2afbb95a2869c79f2ce5e55427bcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:44 +0000
Subject: [PATCH 24/33] fix: restoring a truncated random engine fails

---
 include/bwsl/RNGUtils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bwsl/RNGUtils.hpp b/include/bwsl/RNGUtils.hpp
index 473038d..4eb3b19 100644
--- a/include/bwsl/RNGUtils.hpp
+++ b/include/bwsl/RNGUtils.hpp
@@ -48,7 +48,8 @@ load(Ar& ar, std::mersenne_twister_engine<MT_TARGLIST>& mt, unsigned /*unused*/)
   ar& text;
   std::istringstream iss(text);
 
-  if (!(iss >> mt)) {
+  // a truncated state may end with a shorter, but readable, number
+  if (!(iss >> mt) || !(iss >> std::ws).eof()) {
     throw std::invalid_argument("mersenne_twister_engine state");
   }
 }
-- 
2.43.0


From c2c0c7ed8ccf046d8962d828cad93ff83812a93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:01 +0000
Subject: [PATCH 25/33] fix: signeddiff of the most negative representable
 difference

---
 include/bwsl/MathUtils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bwsl/MathUtils.hpp b/include/bwsl/MathUtils.hpp
index ae52d27..7b2cc02 100644
--- a/include/bwsl/MathUtils.hpp
+++ b/include/bwsl/MathUtils.hpp
@@ -161,7 +161,8 @@ signeddiff(T a, T b) -> R
                 "Non valid unsigned type for signeddifference");
   static_assert(std::is_signed<R>::value,
                 "Non valid unsigned type for signeddifference");
-  return (a > b) ? (R)(a - b) : -(R)(b - a);
+  // (the most negative difference has no positive counterpart)
+  return (a >= b) ? (R)(a - b) : -1 - (R)(b - a - 1);
 }
 
 ///
-- 
2.43.0


From cefa71e19e1dfc62d50321a3f06be72bc1877ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:01 +0000
Subject: [PATCH 26/33] fix: binomial coefficients of small integer types

---
 include/bwsl/MathUtils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bwsl/MathUtils.hpp b/include/bwsl/MathUtils.hpp
index 7b2cc02..fa228a2 100644
--- a/include/bwsl/MathUtils.hpp
+++ b/include/bwsl/MathUtils.hpp
@@ -173,7 +173,8 @@ template<typename T = long>
 inline auto
 cbinomial(T n, T k) -> double
 {
-  T res = 1;
+  // the products do not fit small types even if the arguments do
+  std::common_type_t<T, long> res = 1;
 
   if (k > n) {
     return 0;
-- 
2.43.0


From 030a78b75f3cba347a918043f462bdac558a9123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:58 +0000
Subject: [PATCH 27/33] fix: common divisor of integer types smaller than int

---
 include/bwsl/MathUtils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bwsl/MathUtils.hpp b/include/bwsl/MathUtils.hpp
index fa228a2..8227c94 100644
--- a/include/bwsl/MathUtils.hpp
+++ b/include/bwsl/MathUtils.hpp
@@ -404,7 +404,7 @@ get_gcd(T a, T b) -> T
   if (b == 0) {
     return a;
   }
-  return get_gcd(b, a % b);
+  return get_gcd<T>(b, static_cast<T>(a % b));
 }
 
 /// Heaviside theta function
-- 
2.43.0


From e2e4f4bde323647f757e3b84ed4d99635429bedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:44 +0000
Subject: [PATCH 28/33] fix: choices between denormal weights stay in range

---
 include/bwsl/MathUtils.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/MathUtils.hpp b/include/bwsl/MathUtils.hpp
index 8227c94..193907e 100644
--- a/include/bwsl/MathUtils.hpp
+++ b/include/bwsl/MathUtils.hpp
@@ -208,8 +208,11 @@ choose_between(const T& probs, G& rng) -> SizeType
                                                                comul.back());
   auto rnd = udist(rng);
 
+  // (denormal numbers may be rounded up to the total)
   typename T::iterator choice =
-    std::upper_bound(comul.begin(), comul.end(), rnd);
+    rnd < comul.back()
+      ? std::upper_bound(comul.begin(), comul.end(), rnd)
+      : std::lower_bound(comul.begin(), comul.end(), comul.back());
 
   return static_cast<SizeType>(std::distance(comul.begin(), choice));
 }
@@ -225,8 +228,11 @@ choose_between_psums(const T& comul, G& rng) -> SizeType
                                                                comul.back());
   auto rnd = udist(rng);
 
+  // (denormal numbers may be rounded up to the total)
   typename T::const_iterator choice =
-    std::upper_bound(comul.cbegin(), comul.cend(), rnd);
+    rnd < comul.back()
+      ? std::upper_bound(comul.cbegin(), comul.cend(), rnd)
+      : std::lower_bound(comul.cbegin(), comul.cend(), comul.back());
 
   return static_cast<SizeType>(std::distance(comul.cbegin(), choice));
 }
-- 
2.43.0


From 271643e1cb981c5163790219b5c0ddfd33fbf577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:55 +0000
Subject: [PATCH 29/33] fix: upper_bound of integers and of ranges wider than
 the largest number

---
 include/bwsl/MathUtils.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/MathUtils.hpp b/include/bwsl/MathUtils.hpp
index 193907e..26da4ef 100644
--- a/include/bwsl/MathUtils.hpp
+++ b/include/bwsl/MathUtils.hpp
@@ -387,8 +387,13 @@ upper_bound(ForwardIt first, ForwardIt last, const T& value) -> ForwardIt
     }
 
     // compute the new position interpolating the position of the point
-    const auto np =
-      std::round((value - itval) / (*to - itval) * std::distance(it, to));
+    // (halved floating point numbers, because differences of large numbers are
+    // not representable, and bisecting if that cannot tell the elements apart)
+    const auto low = static_cast<double>(itval) / 2;
+    const auto fraction = (static_cast<double>(value) / 2 - low) /
+                          (static_cast<double>(*to) / 2 - low);
+    const auto np = std::round((std::isfinite(fraction) ? fraction : 0.5) *
+                               std::distance(it, to));
     auto nt = it;
     std::advance(nt, np);
 
-- 
2.43.0


From 541b1a65168d0ed751cb116a91ed2cb6b888a430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:44 +0000
Subject: [PATCH 30/33] fix: files that cannot be rewound do not compare equal

---
 include/bwsl/FileUtils.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/bwsl/FileUtils.hpp b/include/bwsl/FileUtils.hpp
index 3e2fe01..8a02dad 100644
--- a/include/bwsl/FileUtils.hpp
+++ b/include/bwsl/FileUtils.hpp
@@ -42,6 +42,9 @@ compare_files(const std::string& p1, const std::string& p2) -> bool
   // seek back to beginning and use equal to compare contents
   f1.seekg(0, std::ifstream::beg);
   f2.seekg(0, std::ifstream::beg);
+  if (f1.fail() || f2.fail()) {
+    return false; // file problem
+  }
   return equal(std::istreambuf_iterator<char>(f1.rdbuf()),
                std::istreambuf_iterator<char>(),
                std::istreambuf_iterator<char>(f2.rdbuf()));
-- 
2.43.0


From 4c3dcb543f65ddf500461da5a0f16b1cc8d6f678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:29 +0000
Subject: [PATCH 31/33] fix: binomial coefficients of negative numbers of
 elements are zero

---
 include/bwsl/MathUtils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bwsl/MathUtils.hpp b/include/bwsl/MathUtils.hpp
index 26da4ef..c369712 100644
--- a/include/bwsl/MathUtils.hpp
+++ b/include/bwsl/MathUtils.hpp
@@ -176,7 +176,7 @@ cbinomial(T n, T k) -> double
   // the products do not fit small types even if the arguments do
   std::common_type_t<T, long> res = 1;
 
-  if (k > n) {
+  if (k > n || k < T{ 0 }) {
     return 0;
   }
 
-- 
2.43.0


From 676e2b1ba4beef0772284f16b578656ead372892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:01 +0000
Subject: [PATCH 32/33] fix: common divisor of the most negative number and -1

---
 include/bwsl/MathUtils.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bwsl/MathUtils.hpp b/include/bwsl/MathUtils.hpp
index c369712..7b40ec3 100644
--- a/include/bwsl/MathUtils.hpp
+++ b/include/bwsl/MathUtils.hpp
@@ -415,6 +415,10 @@ get_gcd(T a, T b) -> T
   if (b == 0) {
     return a;
   }
+  // (the remainder of the most negative number by -1 is not computable)
+  if (std::is_signed<T>::value && b == static_cast<T>(-1)) {
+    return b;
+  }
   return get_gcd<T>(b, static_cast<T>(a % b));
 }
 
-- 
2.43.0


From f293cfd346d86b7e149a04e4443529bc091732a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:57 +0000
Subject: [PATCH 33/33] fix: text of quotients without representation is
 refused

---
 include/bwsl/RationalNum.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/bwsl/RationalNum.hpp b/include/bwsl/RationalNum.hpp
index 113fb44..92584a1 100644
--- a/include/bwsl/RationalNum.hpp
+++ b/include/bwsl/RationalNum.hpp
@@ -24,6 +24,7 @@
 
 // std
 #include <iostream>
+#include <limits>
 #include <sstream>
 
 namespace bwsl {
@@ -186,6 +187,15 @@ operator>>(std::istream& in, RationalNum<T>& rhs) -> std::istream&
   if (!in.fail() && den == 0) {
     in.setstate(std::ios_base::failbit);
   }
+  // the sign of the denominator cannot be moved to the numerator if one of them
+  // is the most negative number and nothing cancels
+  auto const low = std::numeric_limits<T>::min();
+  if (!in.fail() && den < 0 && (num == low || den == low)) {
+    auto const g = get_gcd(num, den);
+    if (g == static_cast<T>(1) || g == static_cast<T>(-1)) {
+      in.setstate(std::ios_base::failbit);
+    }
+  }
   if (!in.fail()) {
     rhs = RationalNum<T>(num, den);
   }
-- 
2.43.0

