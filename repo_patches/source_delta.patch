From 8e3232f58714fb4c585ffe8e74a1b1a34a170195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:51 +0000
Subject: [PATCH 01/55] fix: binomial_law overflows for n >= 13 (int) / n >= 21
 (size_t)

The factorial closed form overflowed its integer type, giving wrong
coefficients in degree elevation (int, p+t >= 13) and in rational
derivatives (size_t, order >= 21).
---
 gbs/math.ixx | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/gbs/math.ixx b/gbs/math.ixx
index 4bd6a00..aa14ba1 100644
--- a/gbs/math.ixx
+++ b/gbs/math.ixx
@@ -60,14 +60,16 @@
     template <typename T,typename L>
     auto binomial_law(L n, L k) -> T
     {
-        if (k == n)
+        // Multiplicative formula: every partial product is itself a binomial
+        // coefficient, so nothing overflows before the result does. The
+        // factorials of the closed form overflow int from n = 13 and size_t
+        // from n = 21.
+        T result(1);
+        for (L i = 1; i <= k; ++i)
         {
-            return T(1);
-        }
-        else
-        {
-            return T(factorial(n)) / T(factorial(k) * factorial(n - k));
+            result = result * T(n - k + i) / T(i);
         }
+        return result;
     }
 
     template <typename T>
-- 
2.43.0


From 125e1900cebcd0383293093bbe079400568c4f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:56 +0000
Subject: [PATCH 02/55] fix: knot insertion outside the bounds or with zero
 count corrupts the curve

Inserting a knot below/above the knot range, or zero times, read and
wrote out of bounds (or overwrote poles) instead of leaving the curve
in its previous state.
---
 gbs/knotsfunctions.ixx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gbs/knotsfunctions.ixx b/gbs/knotsfunctions.ixx
index a25b01c..3a5eae6 100644
--- a/gbs/knotsfunctions.ixx
+++ b/gbs/knotsfunctions.ixx
@@ -381,6 +381,10 @@
             auto at_end = k_it == UP.end() ? 1 : 0;
             return k-p-at_end;
         }
+        // No span holds u, or nothing to insert: knots and poles stay as they are
+        if(u < UP.front()) return size_t{0};
+        if(u > UP.back()) return size_t{np};
+        if(r == 0) return k-p;
         r = std::min(r, p-s);
 
         // Allocate the new knots and vector vectors
-- 
2.43.0


From 52d56bf90c2c125392ecb04641a53190fe8d86f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:56 +0000
Subject: [PATCH 03/55] fix: removing an end knot, an out of range knot or more
 than its multiplicity

removeKnot read and wrote out of bounds for end knots and values outside
the knot range, and went past the knot when asked for more removals than
its multiplicity.
---
 gbs/knotsfunctions.ixx | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/gbs/knotsfunctions.ixx b/gbs/knotsfunctions.ixx
index 3a5eae6..690c216 100644
--- a/gbs/knotsfunctions.ixx
+++ b/gbs/knotsfunctions.ixx
@@ -566,21 +566,27 @@
         // Pw on every pass (so pass t>0 read stale poles and under-removed) and
         // advanced first/last even on a failing pass (desyncing the rebuild).
 
+        // End knots and values outside the knot range are not internal knots
+        if (!(u > U.front() && u < U.back()))
+        {
+            return size_t{0};
+        }
         // Determine the knot interval that contains u
         auto r = std::distance(U.begin(), std::ranges::upper_bound(U, u)) - 1;
         // if u is not an internal knot, there is nothing to remove
-        if (std::abs(U[r] - u) > knot_eps<T> || r == 0 || r == static_cast<decltype(r)>(U.size()))
+        if (std::abs(U[r] - u) > knot_eps<T>)
         {
             return size_t{0};
         }
+
+        // Find the multiplicity of the knot u, it cannot be removed more often
+        auto s = multiplicity(u, U);
+        num = std::min<size_t>(num, s);
         if (num < 1)
         {
             return size_t{0};
         }
 
-        // Find the multiplicity of the knot u
-        auto s = multiplicity(u, U);
-
         int m = static_cast<int>(U.size());
         int ord = static_cast<int>(p) + 1;
         int fout = (2 * r - s - static_cast<int>(p)) / 2; // first control point out
-- 
2.43.0


From d42e379f711226fd1ee8021edfa6f3e92214f21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:18 +0000
Subject: [PATCH 04/55] fix: curve trim with swapped, out of range or equal
 limits

trim(u1,u2) stored the limits as given: swapped limits left the curve
with reversed bounds (every later evaluation throws), limits outside the
range let it be evaluated off its knots, and equal limits removed all the
poles.
---
 gbs/bscurve.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gbs/bscurve.h b/gbs/bscurve.h
index 465bdce..a2c4d26 100644
--- a/gbs/bscurve.h
+++ b/gbs/bscurve.h
@@ -539,10 +539,17 @@ namespace gbs
          */
         auto trim(T u1, T u2, bool permanently=true) -> void
         {
-            m_bounds = {u1,u2};
+            // Order the limits and keep them inside the curve's range
+            const auto a = std::max(std::min(u1, u2), m_knotsFlats.front());
+            const auto b = std::min(std::max(u1, u2), m_knotsFlats.back());
+            if (!(b - a > knot_eps<T>))
+            {
+                throw std::invalid_argument("BSCurveGeneral::trim: empty range.");
+            }
+            m_bounds = {a,b};
             if (permanently)
             {
-                gbs::trim(m_deg, m_knotsFlats, m_poles, u1, u2);
+                gbs::trim(m_deg, m_knotsFlats, m_poles, a, b);
             }
         }
         /**
-- 
2.43.0


From 3a409d653a20942df20f07cc47f2bacd23984048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:14 +0000
Subject: [PATCH 05/55] fix: reverse, reversed and changeBounds after a non
 permanent trim

The narrowed bounds of a non permanently trimmed curve were kept as is by
reverse (designating another part of the curve), dropped by reversed and
copies through the base class, and overridden by changeBounds (undoing
the trim).
---
 gbs/bscurve.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/gbs/bscurve.h b/gbs/bscurve.h
index a2c4d26..acb6d09 100644
--- a/gbs/bscurve.h
+++ b/gbs/bscurve.h
@@ -517,6 +517,7 @@ namespace gbs
                            [&](const auto k_) {
                                return k1 + k2 - k_;
                            });
+            m_bounds = {k1 + k2 - m_bounds[1], k1 + k2 - m_bounds[0]};
         }
 
         /**
@@ -560,7 +561,12 @@ namespace gbs
          */
         auto changeBounds(T k1, T k2) -> void
         {
-            change_bounds(k1,k2,m_knotsFlats);
+            // The bounds may be narrower than the knots (non permanent trim):
+            // they are what has to fit between k1 and k2
+            const auto s = (k2 - k1) / (m_bounds[1] - m_bounds[0]);
+            const auto k1_ = k1 + s * (m_knotsFlats.front() - m_bounds[0]);
+            const auto k2_ = k2 + s * (m_knotsFlats.back() - m_bounds[1]);
+            change_bounds(k1_,k2_,m_knotsFlats);
             m_bounds = {k1,k2};
         }
         /**
@@ -570,8 +576,7 @@ namespace gbs
          */
         auto changeBounds(const std::array<T,2> &b) -> void
         {
-            m_bounds = b;
-            change_bounds(b[0],b[1],m_knotsFlats);
+            changeBounds(b[0], b[1]);
         }
 
         virtual auto bounds() const -> std::array<T,2> override
@@ -593,7 +598,7 @@ namespace gbs
     {
         using BSCurveGeneral<T, dim, false>::BSCurveGeneral;
     public:
-        BSCurve(const BSCurveGeneral<T, dim, false> &bsc) : BSCurveGeneral<T, dim, false>(bsc.poles(), bsc.knotsFlats(), bsc.degree()) {}
+        BSCurve(const BSCurveGeneral<T, dim, false> &bsc) : BSCurveGeneral<T, dim, false>(bsc) {}
         virtual auto value(T u, size_t d = 0) const -> std::array<T, dim> override
         {
             if (u < this->bounds()[0] - knot_eps<T>|| u > this->bounds()[1] + knot_eps<T>)
@@ -628,7 +633,7 @@ namespace gbs
     {
         using  BSCurveGeneral<T, dim, true>::BSCurveGeneral;
     public:
-        BSCurveRational(const BSCurveGeneral<T, dim, true> &bsc) : BSCurveGeneral<T, dim, true>(bsc.poles(), bsc.knotsFlats(), bsc.degree()) {}
+        BSCurveRational(const BSCurveGeneral<T, dim, true> &bsc) : BSCurveGeneral<T, dim, true>(bsc) {}
         BSCurveRational(const std::vector<std::array<T, dim>> &poles,
                         const std::vector<T> &knots_flats,
                         size_t deg) : BSCurveGeneral<T, dim, true>(add_weights_coord(poles), knots_flats, deg) {}
-- 
2.43.0


From e6535fced54374fc78b7905551bcfbf3a53c95b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:31 +0000
Subject: [PATCH 06/55] fix: inserting, removing or trimming one rounding error
 away from a knot

Multiplicities are counted with a tolerance but insertion, removal and
trimming compared exactly: a parameter differing from a knot by rounding
produced knots of effective multiplicity above degree + 1, on which
degree elevation runs past the poles.
---
 gbs/bscurve.h          |  1 +
 gbs/knotsfunctions.ixx | 22 ++++++++++++++++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/gbs/bscurve.h b/gbs/bscurve.h
index acb6d09..71f0861 100644
--- a/gbs/bscurve.h
+++ b/gbs/bscurve.h
@@ -551,6 +551,7 @@ namespace gbs
             if (permanently)
             {
                 gbs::trim(m_deg, m_knotsFlats, m_poles, a, b);
+                m_bounds = {m_knotsFlats.front(), m_knotsFlats.back()};
             }
         }
         /**
diff --git a/gbs/knotsfunctions.ixx b/gbs/knotsfunctions.ixx
index 690c216..2df0481 100644
--- a/gbs/knotsfunctions.ixx
+++ b/gbs/knotsfunctions.ixx
@@ -339,6 +339,22 @@
 
         return k;
     }
+    /**
+     * @brief Knot equal to u within knot_eps, u itself if there is none. Keeps the exact
+     * comparisons of knot insertion/removal consistent with the tolerance used to count
+     * multiplicities.
+     *
+     * @tparam T
+     * @param u
+     * @param k_flat : ordered flat knots
+     * @return T
+     */
+    template <typename T>
+    auto snap_to_knot(T u, const std::vector<T> &k_flat) -> T
+    {
+        auto it = std::lower_bound(k_flat.begin(), k_flat.end(), u - knot_eps<T>);
+        return it != k_flat.end() && *it <= u + knot_eps<T> ? *it : u;
+    }
     /**
      * Inserts new knots, if possible, into a B-spline or NURBS knot vector and updates the control points.
      *
@@ -367,6 +383,7 @@
     auto insert_knots(T u, size_t p, size_t r, std::vector<T> &UP, std::vector<std::array<T, dim>> &P)
     {
 
+        u = snap_to_knot(u, UP);
         auto np   = P.size()-1;
         auto mp   = np + p + 1;
         auto nq   = np + r;
@@ -566,6 +583,7 @@
         // Pw on every pass (so pass t>0 read stale poles and under-removed) and
         // advanced first/last even on a failing pass (desyncing the rebuild).
 
+        u = snap_to_knot(u, U);
         // End knots and values outside the knot range are not internal knots
         if (!(u > U.front() && u < U.back()))
         {
@@ -1023,7 +1041,7 @@
     auto trim_begin(size_t p, std::vector<T> &knots_flats, std::vector<std::array<T, dim>> &poles, T u) -> void
     {
         if(u-knots_flats.front()<knot_eps<T>) return;
-        
+        u = snap_to_knot(u, knots_flats);
         insert_knots(u, p, p, knots_flats, poles);
 
         auto it_l = std::lower_bound(knots_flats.begin(), knots_flats.end(), u);
@@ -1047,7 +1065,7 @@
     auto trim_end(size_t p, std::vector<T> &knots_flats, std::vector<std::array<T, dim>> &poles, T u) -> void
     {
         if(knots_flats.back()-u<knot_eps<T>) return;
-        
+        u = snap_to_knot(u, knots_flats);
         insert_knots(u, p, p, knots_flats, poles);
 
         auto it_h = std::lower_bound(knots_flats.begin(), knots_flats.end(), u);
-- 
2.43.0


From 4392694e1966a1885264c7ff78c1c6919695fbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:31 +0000
Subject: [PATCH 07/55] fix: BSSurfaceGeneral::pole(i,j) takes i in U and j in
 V as documented

---
 gbs/bssurf.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/gbs/bssurf.h b/gbs/bssurf.h
index 36ea035..a605957 100644
--- a/gbs/bssurf.h
+++ b/gbs/bssurf.h
@@ -672,12 +672,11 @@ namespace gbs
         auto pole(size_t i, size_t j) -> point<T, dim + rational> &
         {
             auto n = nPolesU();
-            auto id = j + i * n;
-            if(id>=m_poles.size())
+            if(i >= n || j >= nPolesV())
             {
                 throw std::out_of_range("BSSurfaceGeneral::pole(size_t i, size_t j) out of bounds index.");
             }
-            return m_poles[id];
+            return m_poles[i + j * n];
         }
 
         /**
@@ -691,12 +690,11 @@ namespace gbs
         auto pole(size_t i, size_t j) const -> const point<T, dim + rational> &
         {
             auto n = nPolesU();
-            auto id = j + i * n;
-            if(id>=m_poles.size())
+            if(i >= n || j >= nPolesV())
             {
                 throw std::out_of_range("BSSurfaceGeneral::pole(size_t i, size_t j) out of bounds index.");
             }
-            return m_poles[id];
+            return m_poles[i + j * n];
         }
 
         /**
-- 
2.43.0


From b18ded4234445860f445c5ed78cd371b6bbb2f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:10 +0000
Subject: [PATCH 08/55] fix: surface trim with swapped, out of range or equal
 limits

trimU/trimV stored the limits as given, as the curve trim did: swapped
limits left reversed bounds, limits outside the range extended the bounds
past the knots and equal limits removed all the poles.
---
 gbs/bssurf.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/gbs/bssurf.h b/gbs/bssurf.h
index a605957..24ddb7f 100644
--- a/gbs/bssurf.h
+++ b/gbs/bssurf.h
@@ -11,6 +11,7 @@
 #include <array>
 #include <algorithm>
 #include <ranges>
+#include <tuple>
 namespace gbs
 {
     // TODO: move to pole surf utils file, as well as transpose_poles form loftBase.h
@@ -408,6 +409,18 @@ namespace gbs
         std::vector<T> m_knotsFlatsV;
         std::array<T, 4> m_bounds;
 
+        // Order the trim limits and keep them inside the knots' range
+        static auto trim_range(T t1, T t2, const std::vector<T> &knots_flats) -> std::pair<T, T>
+        {
+            const auto a = std::max(std::min(t1, t2), knots_flats.front());
+            const auto b = std::min(std::max(t1, t2), knots_flats.back());
+            if (!(b - a > knot_eps<T>))
+            {
+                throw std::invalid_argument("BSSurfaceGeneral::trim: empty range.");
+            }
+            return {a, b};
+        }
+
     public:
         /**
      * @brief Construct a new BSSurface object, non rational definition
@@ -959,7 +972,7 @@ namespace gbs
          */
         auto trimU(T u1, T u2) -> void
         {
-
+            std::tie(u1, u2) = trim_range(u1, u2, m_knotsFlatsU);
             points_vector<T,dim+rational> new_poles;
             std::vector<T> new_knotsUFlats;
             for(size_t j{}; j < nPolesV(); j++)
@@ -994,6 +1007,7 @@ namespace gbs
          */
         auto trimV(T v1, T v2) -> void
         {
+            std::tie(v1, v2) = trim_range(v1, v2, m_knotsFlatsV);
             invertUV();
             trimU(v1, v2);
             invertUV();
-- 
2.43.0


From bab0d0f9976c7a2a1bd00136d7c15a676f9ceaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:08 +0000
Subject: [PATCH 09/55] fix: reject inconsistent construction data

Empty knots, a weight count other than the pole count, degrees not below
the knot count (wrapped pole counts) reached out of bounds reads or were
accepted; a knot of multiplicity zero at an end extended the bounds past
the knots.
---
 gbs/basisfunctions.ixx |  4 ++++
 gbs/bscurve.h          | 18 +++++++++++++-----
 gbs/bssurf.h           |  5 +++--
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/gbs/basisfunctions.ixx b/gbs/basisfunctions.ixx
index d859dfa..c48123b 100644
--- a/gbs/basisfunctions.ixx
+++ b/gbs/basisfunctions.ixx
@@ -849,6 +849,10 @@
     template <typename T, size_t dim>
     auto merge_weights(const std::vector<std::array<T, dim>> &poles, const std::vector<T> &weights) -> std::vector<std::array<T, dim + 1>>
     {
+        if(weights.size() != poles.size())
+        {
+            throw std::length_error("weights must have same length as poles");
+        }
         std::vector<std::array<T, dim + 1>> p(poles.size());
         std::transform(
             GBS_PAR_EXEC
diff --git a/gbs/bscurve.h b/gbs/bscurve.h
index 71f0861..bbe46f4 100644
--- a/gbs/bscurve.h
+++ b/gbs/bscurve.h
@@ -200,7 +200,12 @@ namespace gbs
     template <typename T>
     auto check_curve(size_t np, const std::vector<T> &knots, size_t p)
     {
-        bool ok = true;
+        bool ok = !knots.empty();
+        if(!ok)
+        {
+            std::cerr << "check_curve: no knots\n";
+            return ok;
+        }
         std::vector<size_t> m;
         std::vector<T> k;
         unflat_knots(knots,m,k);
@@ -213,7 +218,7 @@ namespace gbs
             std::cerr << "check_curve: knots are not ordered\n";
             return ok;
         }
-        ok = ok && ((p + 1 + np) == knots.size());
+        ok = ok && np < knots.size() && p == knots.size() - np - 1;
         if(!ok)
         {
             std::cerr << "check_curve: incorrect poles/knots/degree combination\n";
@@ -273,9 +278,10 @@ namespace gbs
                        size_t p) : m_poles(poles),
                                      m_deg(p),
                                      m_knotsFlats(flat_knots(knots, mult)),
-                                     m_bounds{knots.front(),knots.back()}
+                                     m_bounds{}
         {
             if(!check_curve(poles.size(),m_knotsFlats,p)) throw std::invalid_argument("BSpline Curve constructor error.");
+            m_bounds = {m_knotsFlats.front(), m_knotsFlats.back()};
         }
         /**
          * @brief Construct a new BSCurve object, rational definition
@@ -293,9 +299,10 @@ namespace gbs
                        size_t p) : m_poles(merge_weights(poles, weights)),
                                      m_deg(p),
                                      m_knotsFlats(flat_knots(knots, mult)),
-                                     m_bounds{knots.front(),knots.back()}
+                                     m_bounds{}
         {
             if(!check_curve(poles.size(),m_knotsFlats,p)) throw std::invalid_argument("BSpline Curve constructor error.");
+            m_bounds = {m_knotsFlats.front(), m_knotsFlats.back()};
         }
         /**
          * @brief Construct a new BSCurve object
@@ -309,9 +316,10 @@ namespace gbs
                        size_t p) : m_poles(poles),
                                      m_knotsFlats(knots_flats),
                                      m_deg(p),
-                                     m_bounds{knots_flats.front(),knots_flats.back()}
+                                     m_bounds{}
         {
             if(!check_curve(m_poles.size(),m_knotsFlats,p)) throw std::invalid_argument("BSpline Curve constructor error.");
+            m_bounds = {m_knotsFlats.front(), m_knotsFlats.back()};
         }
         auto isRational() -> bool
         {
diff --git a/gbs/bssurf.h b/gbs/bssurf.h
index 24ddb7f..c50b8c2 100644
--- a/gbs/bssurf.h
+++ b/gbs/bssurf.h
@@ -440,17 +440,18 @@ namespace gbs
                                         m_knotsFlatsV(knots_flatsV),
                                         m_degU(degU),
                                         m_degV(degV),
-                                        m_bounds{knots_flatsU.front(), knots_flatsU.back(), knots_flatsV.front(), knots_flatsV.back()}
+                                        m_bounds{}
         //,
         //   m_rational(false)
 
         {
-            if (nPolesU()*nPolesV()!=m_poles.size())
+            if (degU >= m_knotsFlatsU.size() || degV >= m_knotsFlatsV.size() || nPolesU()*nPolesV()!=m_poles.size())
                 throw std::invalid_argument("BSpline Surface constructor error. Pole size error.");
             if (!check_curve(nPolesU(), m_knotsFlatsU, degU))
                 throw std::invalid_argument("BSpline Surface constructor error. Invalid knotsU/degreeU combination");
             if (!check_curve(nPolesV(), m_knotsFlatsV, degV))
                 throw std::invalid_argument("BSpline Surface constructor error. Invalid knotsV/degreeV combination");
+            m_bounds = {m_knotsFlatsU.front(), m_knotsFlatsU.back(), m_knotsFlatsV.front(), m_knotsFlatsV.back()};
         }
 
         BSSurfaceGeneral(const std::vector<std::array<T, dim + rational>> &poles,
-- 
2.43.0


From 53126713d8f5bd5436f788c541fe8c406c9b65db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:56 +0000
Subject: [PATCH 10/55] fix: refine_approx on few points or negative
 parameters, approx between u1 and u2

---
 gbs/bscapprox.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/gbs/bscapprox.h b/gbs/bscapprox.h
index 5c35a6d..6cda5c6 100644
--- a/gbs/bscapprox.h
+++ b/gbs/bscapprox.h
@@ -206,7 +206,8 @@ namespace gbs
             // C2: d_max_ used to ignore points near a knot, masking unmet tolerance).
             T d_avg_{}, d_max_{};
             // Knot-insertion candidate: the worst point that is well inside a span.
-            T d_insert{}, u_max{-1};
+            T d_insert{}, u_max{};
+            bool has_candidate{false};
             std::vector<T> knots{crv_refined.knotsFlats()};
 
             for(size_t j {} ; j < n_pts ; j++)
@@ -235,6 +236,7 @@ namespace gbs
                     {
                         d_insert = d;
                         u_max = u_;
+                        has_candidate = true;
                     }
                 }
             }
@@ -244,7 +246,8 @@ namespace gbs
             // No span is "open enough" for a new knot: we cannot refine further,
             // regardless of whether the tolerance is met -> do not claim convergence,
             // just stop (the returned curve reflects the best we can place).
-            if (u_max < 0)
+            // Likewise there cannot be more poles than points.
+            if (!has_candidate || n_poles >= n_pts)
                 break;
 
             auto it = std::lower_bound(knots.begin(), knots.end(), u_max);
@@ -260,7 +263,7 @@ namespace gbs
             }
             if (
                 (d_max_ < d_max && d_avg_ < d_avg)
-                || n_poles>= pts.size() - 5 // The idea of approximation id to get less pole tha  interpolation
+                || n_poles + 5 >= n_pts // The idea of approximation id to get less pole tha  interpolation
                 )
                 break;
         }
@@ -465,9 +468,9 @@ namespace gbs
     template <typename T, size_t dim>
     auto approx(const Curve<T,dim> &crv, T u1, T u2, T deviation,T tol, size_t p, size_t np = approx_sample_count) -> BSCurve<T, dim>
     {
-        // NB: u1/u2 are currently not applied (the whole curve is sampled), matching
-        // the pre-existing behaviour; left as-is to keep this a pure refactor.
-        auto [pts, u] = sample_by_deviation(crv, np, deviation);
+        auto u_lst = deviation_based_params<T, dim>(crv, u1, u2, np, deviation);
+        points_vector<T, dim> pts = make_points(crv, u_lst);
+        std::vector<T> u{std::begin(u_lst), std::end(u_lst)};
         return refine_from_points(pts, u, p, default_n_poles(p), tol);
     }
 
-- 
2.43.0


From a68a0f299641e30f7aa7798d06f82ff0f176f9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:56 +0000
Subject: [PATCH 11/55] fix: deviation_based_params ends exactly at the
 requested bound and handles n < 2

---
 gbs/bscanalysis.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gbs/bscanalysis.h b/gbs/bscanalysis.h
index 15c73a6..7ea7b3a 100644
--- a/gbs/bscanalysis.h
+++ b/gbs/bscanalysis.h
@@ -431,10 +431,12 @@ namespace gbs
     auto deviation_based_params(const Curve<T, dim> &crv, T u1, T u2, size_t n, T dev_max, size_t n_max_pts = approx_max_sample_points) -> std::list<T>
     {
 
-        // Create initial list of parameters
+        // Create initial list of parameters, both bounds are always included
+        n = std::max<size_t>(n, 2);
         std::list<T> u_lst;
-        for (size_t i{}; i < n; i++)
+        for (size_t i{}; i + 1 < n; i++)
             u_lst.push_back(u1 + (u2 - u1) * i / (n - 1.0));
+        u_lst.push_back(u2);
 
         // Try to cast to a B-spline curve
         auto *bsc = dynamic_cast<const BSCurve<T, dim>*>(&crv);
-- 
2.43.0


From a71c5e2fd1385057a2e08006bbe265bc3e97d231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:22 +0000
Subject: [PATCH 12/55] fix: c2_connect with reversed sides keeps the second
 derivatives

---
 gbs/bsctools.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gbs/bsctools.h b/gbs/bsctools.h
index 5c14fdd..d5de235 100644
--- a/gbs/bsctools.h
+++ b/gbs/bsctools.h
@@ -611,8 +611,8 @@ namespace gbs
         auto p2 = crv2(u2);
         auto t1 = s1*crv1(u1,1);
         auto t2 = s2*crv2(u2,1);
-        auto c1 = s1*crv1(u1,2);
-        auto c2 = s2*crv2(u2,2);
+        auto c1 = crv1(u1,2); // reversing a curve does not change its second derivative
+        auto c2 = crv2(u2,2);
 
         return c2_connect(p1,p2,t1,t2,c1,c2,e);
     }
-- 
2.43.0


From bd394c0fed30512a113bf72d32c65ed0b55b20e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:09 +0000
Subject: [PATCH 13/55] fix: loft along a spine with a pole common to all
 sections

---
 gbs/bssbuild.h | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/gbs/bssbuild.h b/gbs/bssbuild.h
index 1a57cbe..11ab5bb 100644
--- a/gbs/bssbuild.h
+++ b/gbs/bssbuild.h
@@ -56,19 +56,28 @@ namespace gbs
                     return crv.poles()[i];
                 }
             );
-            poles_v_params[i] = curve_parametrization(poles_v, KnotsCalcMode::CHORD_LENGTH, true);
+            poles_v_params[i] = curve_parametrization(poles_v, KnotsCalcMode::CHORD_LENGTH, false);
             std::swap( poles_v_lst[i] , poles_v );
         }
         // build parametrization
         std::vector<T> v(n_poles_v,0.);
-        for(auto j = 0 ; j < n_poles_v; j++)
+        size_t contributing{};
+        for(auto i = 0 ; i < n_poles_u; i++)
         {
-            for(auto i = 0 ; i < n_poles_u; i++)
+            const T total = poles_v_params[i].back();
+            if(total <= T{0})
+                continue; // coincident-pole row, no parametrization information
+            for(auto j = 0 ; j < n_poles_v; j++)
             {
-                v[j] += poles_v_params[i][j];
+                v[j] += poles_v_params[i][j] / total;
             }
-            v[j] /=  n_poles_u;
+            ++contributing;
         }
+        if(contributing == 0)
+            v = make_range(T{}, T{1}, n_poles_v);
+        else
+            for(auto &v_ : v)
+                v_ /= T(contributing);
         return std::make_tuple(poles_v_lst,v);
     }
 
@@ -485,7 +494,7 @@ namespace gbs
         auto nu = std::distance(first_curve, last_curve);
         std::vector<T> u(nu);
 
-        // Compute intersections
+        // Compute intersections, sequentially: an exception thrown from a parallel algorithm terminates the program
         auto f_intersection = [tol, &crv](const auto &crv_) {
             auto [u_, v_, d] = extrema_curve_curve( crv, conditional_dereference(crv_), tol);
             if (d > tol) {
-- 
2.43.0


From 208b12842faf4a72ac7317d7bce037f13e8ef4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:09 +0000
Subject: [PATCH 14/55] fix: a curve network that does not meet raises an error
 instead of terminating

---
 gbs/bssbuild.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/gbs/bssbuild.h b/gbs/bssbuild.h
index 11ab5bb..4abefca 100644
--- a/gbs/bssbuild.h
+++ b/gbs/bssbuild.h
@@ -504,7 +504,6 @@ namespace gbs
         };
 
         std::transform(
-            GBS_PAR_EXEC
             first_curve, last_curve,
             u.begin(),
             f_intersection
-- 
2.43.0


From 3903781f4efb8ba06048331e6408e1441c3b83a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:09 +0000
Subject: [PATCH 15/55] fix: extension of rational surfaces meets the target
 curve

---
 gbs/bsstools.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gbs/bsstools.h b/gbs/bsstools.h
index b3aaf47..a18d3ee 100644
--- a/gbs/bsstools.h
+++ b/gbs/bsstools.h
@@ -121,7 +121,6 @@ namespace gbs
     {
         points_vector<T,dim+rational> poles_new;
 
-        using bsc_type = typename std::conditional<rational,BSCurveRational<T, dim>,BSCurve<T, dim>>::type;
         using bss_type = typename std::conditional<rational,BSSurfaceRational<T, dim>,BSSurface<T, dim>>::type;
 
         auto nu = srf.nPolesU();
@@ -150,10 +149,11 @@ namespace gbs
         for(size_t i {} ; i < nv ; i++)
         {
             auto poles = points_vector<T,dim+rational>{srf.poles_begin()+i*nu,srf.poles_begin()+i*nu+nu};
-            auto iso  = bsc_type{poles,ku,p};
-            auto crv_ext = bsc_type{extention_to_point<T, dim, rational>(
+            // work on the poles' space, i.e. homogeneous for rational surfaces
+            auto iso  = BSCurve<T, dim + rational>{poles,ku,p};
+            auto crv_ext = BSCurve<T, dim + rational>{extention_to_point<T, dim + rational, false>(
                 iso,
-                weight_projected_pole<T, dim, rational>(crv.poles()[i]),
+                crv.poles()[i],
                 u2,
                 u_new,
                 natural_end,
-- 
2.43.0


From ec47cd31316e24f6e773d504c2d9611ea4ba0998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:32 +0000
Subject: [PATCH 16/55] fix: CurveComposite evaluated just before its start
 reads out of bounds

---
 gbs/curvecomposite.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/curvecomposite.h b/gbs/curvecomposite.h
index fd12436..b604ab3 100644
--- a/gbs/curvecomposite.h
+++ b/gbs/curvecomposite.h
@@ -33,7 +33,7 @@ namespace gbs
             {
                 pos = std::next(pos, -2);
             }
-            else
+            else if (pos != u_.begin()) // before start, let the first curve decide
             {
                 pos = std::next(pos, -1);
             }
-- 
2.43.0


From 91606aabcc14b7044e440df799632d5941ba56d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:32 +0000
Subject: [PATCH 17/55] fix: second derivative of CurveOnSurface

---
 gbs/curveonsurface.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/curveonsurface.h b/gbs/curveonsurface.h
index 503eeae..14ee3ea 100644
--- a/gbs/curveonsurface.h
+++ b/gbs/curveonsurface.h
@@ -53,7 +53,7 @@ namespace gbs
                     auto D2U = p_srf_->value(u_,v_,2,0);
                     auto D2V = p_srf_->value(u_,v_,0,2);
                     auto D2UV = p_srf_->value(u_,v_,1,1);
-                    auto V2 = d2u_ * D1U + d2u_ * D1V + 2 * du_ * dv_ * D2UV;
+                    auto V2 = d2u_ * D1U + d2v_ * D1V + 2 * du_ * dv_ * D2UV;
                     return du_ * du_ * D2U + dv_ * dv_ * D2V + V2;
                 }
                 break;
-- 
2.43.0


From 990c6cb15da4f42ea32d7504222d0ef944790f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:32 +0000
Subject: [PATCH 18/55] fix: lower bound of Line

---
 gbs/curveline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/curveline.h b/gbs/curveline.h
index 905aca5..fb526b7 100644
--- a/gbs/curveline.h
+++ b/gbs/curveline.h
@@ -43,7 +43,7 @@ namespace gbs
         }
         virtual auto bounds() const -> std::array<T, 2> override
         {
-            return {std::numeric_limits<T>::min(),std::numeric_limits<T>::max()};
+            return {std::numeric_limits<T>::lowest(),std::numeric_limits<T>::max()};
         }
 
         auto getAx() const noexcept -> const ax1<T,dim>&
-- 
2.43.0


From 4e5fb601957571e9685469bf49dbada5fc37274d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:32 +0000
Subject: [PATCH 19/55] fix: Circle start direction orthogonal to the axis,
 setR

---
 gbs/curvecircle.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/gbs/curvecircle.h b/gbs/curvecircle.h
index 43c7875..f3dcc4d 100644
--- a/gbs/curvecircle.h
+++ b/gbs/curvecircle.h
@@ -15,11 +15,12 @@ namespace gbs
         Circle(const Circle<T,dim> &c) = default;
         Circle(T r, const ax2<T, dim> &ax) : r{r}, ax_{{ax[0], ax[1], r / norm(ax[2]) * ax[2] }} {} 
         Circle(T r, const ax1<T, dim> &ax) : r{r} {
-            auto z = ax[1];
-            auto i_min_coord_mag = std::distance(z.begin(), std::min_element(z.begin(), z.end()));
+            auto z = ax[1] / norm(ax[1]);
+            auto i_min_coord_mag = std::distance(z.begin(), std::min_element(z.begin(), z.end(), [](T z1, T z2){return std::fabs(z1) < std::fabs(z2);}));
             point<T,dim> x{};
-            x[i_min_coord_mag] = r;
-            ax_ = { ax[0], ax[1], x };
+            x[i_min_coord_mag] = 1;
+            x = x - z[i_min_coord_mag] * z; // start direction has to be orthogonal to the axis
+            ax_ = { ax[0], ax[1], r / norm(x) * x };
         }
 
         virtual auto bounds() const -> std::array<T, 2> override
@@ -33,7 +34,7 @@ namespace gbs
         }
 
         auto getR() const noexcept -> T { return r; }
-        auto setR(T r_){r=r_;}
+        auto setR(T r_){r=r_; ax_[2] = r / norm(ax_[2]) * ax_[2];}
         /**
          * @brief Circle starting direction
          * 
-- 
2.43.0


From 4ea3771ee4cf36bdae9c5bc8c9d96f2534721c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:32 +0000
Subject: [PATCH 20/55] fix: SurfaceOfRevolution about an axis not through the
 origin and its derivatives

---
 gbs/surfaceofrevolution.h | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/gbs/surfaceofrevolution.h b/gbs/surfaceofrevolution.h
index 0d51f90..a47b87c 100644
--- a/gbs/surfaceofrevolution.h
+++ b/gbs/surfaceofrevolution.h
@@ -55,30 +55,18 @@ namespace gbs
          */
         virtual auto value(T u, T v, size_t du = 0, size_t dv = 0) const -> point<T, 3> override
         {
-            point<T,3> pt;
             v = fmod(v,2*std::numbers::pi_v<T>);
-            if(dv==0)
+            auto pt2d = p_crv_->value(u, du);
+            auto pt = add_dimension<T, 2>(pt2d, 0.);
+            transform(pt,M_);
+            pt = pt - ax_[0]; // work relative to the axis location, hence with the linear part only
+            if(dv>0)
             {
-                auto pt2d = p_crv_->value(u,du) ;
-                pt = add_dimension<T,2>(pt2d,0.);
-                transform(pt,M_);
-            }
-            else
-            {
-                auto pt2d = p_crv_->value(u, du);
-                pt = add_dimension<T, 2>(pt2d, 0.);
-                transform(pt,M_);
-                if (du == 0)
-                {
-                    pt = pt - ax_[0];
-                }
-
                 pt = cross( ax_[1], pt);
                 rotate<T>(pt,(dv-1)*std::numbers::pi_v<T>/2.,ax_[1]);
-
             }
-            return rotated<T>( pt , v, ax_[1]);
-            
+            rotate<T>( pt , v, ax_[1]);
+            return du == 0 && dv == 0 ? pt + ax_[0] : pt;
         }
         /**
          * @brief return surface's bounds {U1,U2,V1,V2}
-- 
2.43.0


From 56fbc6435e00d3a9b12e11f78a9cdd044f869469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:32 +0000
Subject: [PATCH 21/55] fix: derivatives of CurveOffset3D

---
 gbs/curveoffset.h | 40 ++++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/gbs/curveoffset.h b/gbs/curveoffset.h
index 9c2dc66..f12c4b4 100644
--- a/gbs/curveoffset.h
+++ b/gbs/curveoffset.h
@@ -195,32 +195,28 @@ namespace gbs
             break;
         case 1:
             {
-                auto crv_d1 = crv.value(u, 1);
-                auto crv_d2 = crv.value(u, 2);
-                auto tangent = normalized(crv_d1);
-                auto normal = normalized(cross(direction_, tangent));
-                auto curvature = cross(crv_d1, crv_d2) / (std::pow(norm(crv_d1), 3));
-                auto normal_derivative = normalized(curvature * off(u, 0));
-                auto off_d1 = off(u, 1);
-                return crv_d1 + normal_derivative * off_d1;
+                // normal: n = w / |w| with w = direction x crv'
+                auto w0 = cross(direction_, crv.value(u, 1));
+                auto w1 = cross(direction_, crv.value(u, 2));
+                auto r = norm(w0);
+                auto r1 = (w0 * w1) / r;
+                auto n0 = w0 / r;
+                auto n1 = (w1 - n0 * r1) / r;
+                return crv.value(u, 1) + n1 * off(u, 0) + n0 * off(u, 1);
             }
             break;
         case 2:
             {
-                auto crv_d1 = crv.value(u, 1);
-                auto crv_d2 = crv.value(u, 2);
-                auto crv_d3 = crv.value(u, 3);
-                auto tangent = normalized(crv_d1);
-                auto normal = normalized(cross(direction_, tangent));
-                auto curvature = cross(crv_d1, crv_d2) / (std::pow(norm(crv_d1), 3));
-                auto normal_derivative = normalized(curvature * off(u, 0));
-
-                auto d2t = (crv_d2 - ( crv_d2 * tangent) * tangent) / norm(crv_d1);
-                auto d2n = cross(d2t, direction_) + cross(tangent, cross(crv_d2, direction_));
-                auto off_d1 = off(u, 1);
-                auto off_d2 = off(u, 2);
-
-                return crv_d2 + d2n * off_d1 + normal_derivative * off_d2;
+                auto w0 = cross(direction_, crv.value(u, 1));
+                auto w1 = cross(direction_, crv.value(u, 2));
+                auto w2 = cross(direction_, crv.value(u, 3));
+                auto r = norm(w0);
+                auto r1 = (w0 * w1) / r;
+                auto r2 = (w1 * w1 + w0 * w2 - r1 * r1) / r;
+                auto n0 = w0 / r;
+                auto n1 = (w1 - n0 * r1) / r;
+                auto n2 = (w2 - n1 * (2 * r1) - n0 * r2) / r;
+                return crv.value(u, 2) + n2 * off(u, 0) + n1 * (2 * off(u, 1)) + n0 * off(u, 2);
             }
             break;
         default:
-- 
2.43.0


From 3c0ba0901e1d4cf88d596eecaecdbd82d8e3a141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:12 +0000
Subject: [PATCH 22/55] fix: uniform_distrib_params refuses less than 2
 parameters

---
 gbs/bscanalysis.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gbs/bscanalysis.h b/gbs/bscanalysis.h
index 7ea7b3a..b25b623 100644
--- a/gbs/bscanalysis.h
+++ b/gbs/bscanalysis.h
@@ -338,6 +338,8 @@ namespace gbs
     template <typename T, size_t dim, size_t N = 10>
     auto uniform_distrib_params(const Curve<T, dim> &crv, T u1, T u2, size_t n, size_t n_law = 30) -> std::list<T>
     {
+        if (n < 2)
+            throw std::invalid_argument("At least 2 parameters are required.");
         // Initialize the list of parameters and set the first and last elements
         std::list<T> u_lst(n);
         u_lst.front() = u1;
-- 
2.43.0


From 3e04762cfaac9ac210fe5a3d85b49dcd52278eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:12 +0000
Subject: [PATCH 23/55] fix: iterators invalidated by insertion in
 abs_curv_adaptive_discretzation

---
 gbs/bscanalysis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/bscanalysis.h b/gbs/bscanalysis.h
index b25b623..c9f6997 100644
--- a/gbs/bscanalysis.h
+++ b/gbs/bscanalysis.h
@@ -200,7 +200,7 @@ namespace gbs
                 if (curv_diff > tolerance)
                 {
                     inserted = true;
-                    u.insert(it_u3, mid_u);
+                    it_u3 = std::next(u.insert(it_u3, mid_u));
                 }
                 it_u1 = it_u3;
                 it_u3 = std::next(it_u1);
-- 
2.43.0


From 0d596d6b7ba135d00e35726458e8ec2b4f80a2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:12 +0000
Subject: [PATCH 24/55] fix: deviation based refinement of closed spans

---
 gbs/bscanalysis.h |  7 +++++--
 gbs/bssanalysis.h | 14 ++++++++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/gbs/bscanalysis.h b/gbs/bscanalysis.h
index c9f6997..75726a8 100644
--- a/gbs/bscanalysis.h
+++ b/gbs/bscanalysis.h
@@ -405,9 +405,12 @@ namespace gbs
             auto um = static_cast<T>(0.5) * (u1 + u2);
             auto v1 = crv(um) - crv(u1);
             auto v2 = crv(u2) - crv(u1);
-            auto dev = norm(cross(v1, v2)) / (norm(v1) * norm(v2));
+            auto n1 = norm(v1);
+            auto n2 = norm(v2);
+            // on a closed span the chord vanishes
+            bool closed = n2 < knot_eps<T> && n1 > knot_eps<T>;
 
-            if (dev > dev_max)
+            if (closed || norm(cross(v1, v2)) / (n1 * n2) > dev_max)
             {
                 auto it_um = u_lst.insert(it_u2, um);
                 refine_params_recursive(crv, dev_max, it_u1, it_um, u_lst);
diff --git a/gbs/bssanalysis.h b/gbs/bssanalysis.h
index f089110..923ac21 100644
--- a/gbs/bssanalysis.h
+++ b/gbs/bssanalysis.h
@@ -47,9 +47,12 @@ namespace gbs
         auto u_ = 0.5 * (*it_u1 + *it_u3);
         auto v1 = srf(u_, v) - srf(*it_u1, v);
         auto v2 = srf(*it_u3, v) - srf(*it_u1, v);
-        auto dev_ = norm(cross(v1, v2)) / (norm(v1) * norm(v2));
+        auto n1 = norm(v1);
+        auto n2 = norm(v2);
+        // on a closed span the chord vanishes
+        bool closed = n2 < knot_eps<T> && n1 > knot_eps<T>;
 
-        if (dev_ > dev_max)
+        if (closed || norm(cross(v1, v2)) / (n1 * n2) > dev_max)
         {
             auto it_u2 = u_lst.insert(it_u3, u_);
             refine_params_u_recursive(srf, v, dev_max, it_u1, it_u2, u_lst);
@@ -113,9 +116,12 @@ namespace gbs
         auto u_ = 0.5 * (*it_v1 + *it_v3);
         auto v1 = srf(u, u_) - srf(u, *it_v1);
         auto v2 = srf(u, *it_v3) - srf(u, *it_v1);
-        auto dev_ = norm(cross(v1, v2)) / (norm(v1) * norm(v2));
+        auto n1 = norm(v1);
+        auto n2 = norm(v2);
+        // on a closed span the chord vanishes
+        bool closed = n2 < knot_eps<T> && n1 > knot_eps<T>;
 
-        if (dev_ > dev_max)
+        if (closed || norm(cross(v1, v2)) / (n1 * n2) > dev_max)
         {
             auto it_u2 = v_lst.insert(it_v3, u_);
             refine_params_v_recursive(srf, u, dev_max, it_v1, it_u2, v_lst);
-- 
2.43.0


From cb1f7fdb255fe53fa6d6795e9cb82cc208d2f940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:12 +0000
Subject: [PATCH 25/55] fix: deviation_based_u_params and
 deviation_based_v_params include both bounds

---
 gbs/bssanalysis.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gbs/bssanalysis.h b/gbs/bssanalysis.h
index 923ac21..061f0a2 100644
--- a/gbs/bssanalysis.h
+++ b/gbs/bssanalysis.h
@@ -77,10 +77,12 @@ namespace gbs
     template <typename T, size_t dim>
     auto deviation_based_u_params(const Surface<T, dim> &srf, T u1, T u2, T v,size_t n, T dev_max, size_t n_max_pts = approx_max_sample_points) -> std::list<T>
     {
-        // Create initial list of parameters
+        // Create initial list of parameters, both bounds are always included
+        n = std::max<size_t>(n, 2);
         std::list<T> u_lst;
-        for (size_t i{}; i < n; i++)
+        for (size_t i{}; i + 1 < n; i++)
             u_lst.push_back(u1 + (u2 - u1) * i / (n - 1.0));
+        u_lst.push_back(u2);
 
         // Refine the list recursively if the maximum number of points is not reached
         if (u_lst.size() < n_max_pts)
@@ -147,10 +149,12 @@ namespace gbs
     template <typename T, size_t dim>
     auto deviation_based_v_params(const Surface<T, dim> &srf, T v1, T v2, T u,size_t n, T dev_max, size_t n_max_pts = approx_max_sample_points) -> std::list<T>
     {
-        // Create initial list of parameters
+        // Create initial list of parameters, both bounds are always included
+        n = std::max<size_t>(n, 2);
         std::list<T> v_lst;
-        for (size_t i{}; i < n; i++)
+        for (size_t i{}; i + 1 < n; i++)
             v_lst.push_back(v1 + (v2 - v1) * i / (n - 1.0));
+        v_lst.push_back(v2);
 
         // Refine the list recursively if the maximum number of points is not reached
         if (v_lst.size() < n_max_pts)
-- 
2.43.0


From 681af59350ca770ff82f9d70c49ca37eec05eaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:06 +0000
Subject: [PATCH 26/55] fix: endless refinement around a kink in
 abs_curv_adaptive_discretzation

---
 gbs/bscanalysis.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gbs/bscanalysis.h b/gbs/bscanalysis.h
index 75726a8..6c9c61c 100644
--- a/gbs/bscanalysis.h
+++ b/gbs/bscanalysis.h
@@ -184,6 +184,7 @@ namespace gbs
         u = make_range(u1, u2, n);
 
         // Adaptive refinement based on local curvature
+        const T du_min = std::cbrt(std::numeric_limits<T>::epsilon()) * (u2 - u1);
         bool inserted = true;
         while (inserted)
         {
@@ -197,7 +198,8 @@ namespace gbs
                 T l23 = length<T, dim, N>(crv, mid_u, (*it_u3));
                 T l13 = length<T, dim, N>(crv, (*it_u1), (*it_u3));
                 T curv_diff = std::abs( l12 + l23 - l13) / l13;
-                if (curv_diff > tolerance)
+                // a kink of the curve keeps its relative deviation whatever the span is
+                if (curv_diff > tolerance && (*it_u3) - (*it_u1) > du_min)
                 {
                     inserted = true;
                     it_u3 = std::next(u.insert(it_u3, mid_u));
-- 
2.43.0


From 0256530003192047eae44f582ec50644e8e0df22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:26 +0000
Subject: [PATCH 27/55] fix: gradients of the curve/curve and surface/curve
 extrema

---
 gbs/extrema.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gbs/extrema.h b/gbs/extrema.h
index 02d30d0..7677dc2 100644
--- a/gbs/extrema.h
+++ b/gbs/extrema.h
@@ -158,7 +158,7 @@ namespace gbs
         {
             auto f_ = crv1(x[0])-crv2(x[1]);
             auto dfdu = 2.*crv1(x[0],1)* f_;
-            auto dfdv = 2.*crv2(x[1],1)* f_;
+            auto dfdv =-2.*crv2(x[1],1)* f_;
             return std::vector<double>{2. * r[0] * dfdu,2. * r[0] * dfdv};
         };
 
@@ -262,8 +262,8 @@ namespace gbs
         {
             auto f_ = crv(x[0])-srf(x[1],x[2]);
             auto dfduc = 2.*crv(x[0],1)  * f_;
-            auto dfdus =-2.*srf(x[1],1,0)* f_;
-            auto dfdvs =-2.*srf(x[2],0,1)* f_;
+            auto dfdus =-2.*srf(x[1],x[2],1,0)* f_;
+            auto dfdvs =-2.*srf(x[1],x[2],0,1)* f_;
             return std::vector<double>{2. * r[0] * dfduc,2. * r[0] * dfdus,2. * r[0] * dfdvs};
         };
 
-- 
2.43.0


From fdc40f3dde04fec72e5b30450ad0fc23261267c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:26 +0000
Subject: [PATCH 28/55] fix: bracketed initial guess order in
 extrema_surf_curve

---
 gbs/extrema.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/extrema.h b/gbs/extrema.h
index 7677dc2..056b804 100644
--- a/gbs/extrema.h
+++ b/gbs/extrema.h
@@ -291,7 +291,7 @@ namespace gbs
             return sq_norm(srf(u1, v1)-crv(w1)) < sq_norm(srf(u2, v2)-crv(w2));
         };
         auto [u0, v0, w0 ] = *std::min_element(GBS_PAR_EXEC uvw.begin(), uvw.end(), comp);
-        return extrema_surf_curve(srf, crv, u0, v0, w0, tol_x, solver);
+        return extrema_surf_curve(srf, crv, w0, u0, v0, tol_x, solver);
     }
 
     template <typename T, size_t dim>
-- 
2.43.0


From 982a47064334b9b40b8b78dc686a950536635243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:26 +0000
Subject: [PATCH 29/55] fix: closest_curve and closest_p_curve did not compile

---
 gbs/bscanalysis.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gbs/bscanalysis.h b/gbs/bscanalysis.h
index 6c9c61c..29c492c 100644
--- a/gbs/bscanalysis.h
+++ b/gbs/bscanalysis.h
@@ -671,7 +671,7 @@ namespace gbs
             curve_begin, curve_end,
             [&pt, tol](const auto &c1, const auto &c2)
             {
-                return extrema_curve_point(c1, pt, c1.midPoint(), tol)[1] < extrema_curve_point(c2, pt, c2.midPoint(), tol)[1];
+                return extrema_curve_point(c1, pt, tol)[1] < extrema_curve_point(c2, pt, tol)[1];
             });
     }
 /**
@@ -693,7 +693,7 @@ namespace gbs
             curve_begin, curve_end,
             [&pt, tol](const auto &c1, const auto &c2)
             {
-                return extrema_curve_point(*c1, pt, c1->midPoint(), tol)[1] < extrema_curve_point(*c2, pt, c2->midPoint(), tol)[1];
+                return extrema_curve_point(*c1, pt, tol)[1] < extrema_curve_point(*c2, pt, tol)[1];
             });
     }
 
-- 
2.43.0


From e8ff1c3d3414723a32ccdcf906b79d5f600654ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:20 +0000
Subject: [PATCH 30/55] fix: return type of translated for rational poles

---
 gbs/transformpoints.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/transformpoints.h b/gbs/transformpoints.h
index a24845f..3c0256d 100644
--- a/gbs/transformpoints.h
+++ b/gbs/transformpoints.h
@@ -48,7 +48,7 @@ namespace gbs
     }
 
     template <typename T, size_t dim>
-    auto translated(const std::array<T, dim + 1> &x, const std::array<T, dim> &v) -> std::array<T, dim>
+    auto translated(const std::array<T, dim + 1> &x, const std::array<T, dim> &v) -> std::array<T, dim + 1>
     {
         std::array<T, dim + 1> res{x};
         translate(res, v);
-- 
2.43.0


From fadb45f9d540e88c6b7e461f11d2dc24acb95582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:20 +0000
Subject: [PATCH 31/55] fix: transform of curves and surfaces by a matrix did
 not compile

---
 gbs/transform.h | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/gbs/transform.h b/gbs/transform.h
index fcb60bd..565e4ae 100644
--- a/gbs/transform.h
+++ b/gbs/transform.h
@@ -70,17 +70,28 @@ namespace gbs
         crv.movePoles(poles_w);
     }
 
-    template <typename T,bool rational>
-    auto transform(BSCurveGeneral<T, 3,rational> &crv, const Matrix4<T> &M) -> void
+    template <typename T>
+    auto transform(BSCurve<T, 3> &crv, const Matrix4<T> &M) -> void
     {
-        auto trf = [&M](const auto &pt){return transform<T>(pt,M);};
-        transform(crv,trf);
+        transform(crv, [&M](const point<T, 3> &pt) { return transformed<T>(pt, M); });
     }
-    template <typename T,bool rational>
-    auto transform(BSSurfaceGeneral<T, 3,rational> &crv, const Matrix4<T> &M) -> void
+
+    template <typename T>
+    auto transform(BSCurveRational<T, 3> &crv, const Matrix4<T> &M) -> void
+    {
+        transform(crv, [&M](const point<T, 3> &pt) { return transformed<T>(pt, M); });
+    }
+
+    template <typename T>
+    auto transform(BSSurface<T, 3> &srf, const Matrix4<T> &M) -> void
+    {
+        transform(srf, [&M](const point<T, 3> &pt) { return transformed<T>(pt, M); });
+    }
+
+    template <typename T>
+    auto transform(BSSurfaceRational<T, 3> &srf, const Matrix4<T> &M) -> void
     {
-        auto trf = [&M](const auto &pt){return transform<T>(pt,M);};
-        transform(crv,trf);
+        transform(srf, [&M](const point<T, 3> &pt) { return transformed<T>(pt, M); });
     }
 
     // template <typename G>
-- 
2.43.0


From 72d72907d6cecd7b07876307ba06b6dc13ee454f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:20 +0000
Subject: [PATCH 32/55] fix: change of reference between two frames

---
 gbs/surfaceofrevolution.h | 4 ++--
 gbs/transformpoints.h     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gbs/surfaceofrevolution.h b/gbs/surfaceofrevolution.h
index a47b87c..d59df0a 100644
--- a/gbs/surfaceofrevolution.h
+++ b/gbs/surfaceofrevolution.h
@@ -31,8 +31,8 @@ namespace gbs
             M_ = build_trf_matrix<T>(
                 {{
                     {o,o,o},
-                    {o,i,o},
-                    {o,o,i}
+                    {i,o,o},
+                    {o,i,o}
                 }}
                     ,
                 ax
diff --git a/gbs/transformpoints.h b/gbs/transformpoints.h
index 3c0256d..dd80538 100644
--- a/gbs/transformpoints.h
+++ b/gbs/transformpoints.h
@@ -197,8 +197,8 @@ namespace gbs
         auto [Loc_from, P_from] = build_trf_loc_and_matrix(R_from);
 
         //Explicit types to force convertion
-        Matrix3<T> P          = P_to*P_from;
-        Vector3<T> Loc        = Loc_to - P_to * Loc_from;
+        Matrix3<T> P          = P_to*P_from.transpose();
+        Vector3<T> Loc        = Loc_to - P * Loc_from;
         return std::make_pair(Loc, P);
     }
 
-- 
2.43.0


From ff576cacfc7e38999b78ed795bc0c9cad36bf574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:20 +0000
Subject: [PATCH 33/55] fix: add_dimension of rational curves and surfaces

---
 gbs/bsctools.h | 8 +++++++-
 gbs/bsstools.h | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/gbs/bsctools.h b/gbs/bsctools.h
index d5de235..54e6fc5 100644
--- a/gbs/bsctools.h
+++ b/gbs/bsctools.h
@@ -753,7 +753,13 @@ namespace gbs
             crv.poles().end(),
             poles.begin(),
             [&val](const auto &p_){
-                return add_dimension(p_,val);
+                auto res = add_dimension(p_,val);
+                if constexpr (rational) // weight stays last
+                {
+                    res[dim] = val * p_.back();
+                    res.back() = p_.back();
+                }
+                return res;
             }
         );
         using bs_type = typename std::conditional<rational,BSCurveRational<T, dim+1>,BSCurve<T, dim+1>>::type;
diff --git a/gbs/bsstools.h b/gbs/bsstools.h
index a18d3ee..888b685 100644
--- a/gbs/bsstools.h
+++ b/gbs/bsstools.h
@@ -101,7 +101,13 @@ namespace gbs
             poles.begin(),
             [&val](const auto &p_)
             {
-                return add_dimension<T,dim+rational>(p_, val);
+                auto res = add_dimension<T,dim+rational>(p_, val);
+                if constexpr (rational) // weight stays last
+                {
+                    res[dim] = val * p_.back();
+                    res.back() = p_.back();
+                }
+                return res;
             });
         using bs_type = typename std::conditional<rational, BSSurfaceRational<T, dim + 1>, BSSurface<T, dim + 1>>::type;
         return bs_type(poles, srf.knotsFlatsU(), srf.knotsFlatsV(), srf.degreeU(), srf.degreeV());
-- 
2.43.0


From e203c2a0d675cd280110b139eade29bc10a805b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:45 +0000
Subject: [PATCH 34/55] fix: exception raised by an item of a parallel
 transform

---
 gbs/bscanalysis.h | 33 +++++++++++++--------------------
 gbs/bscapprox.h   |  8 ++++----
 gbs/bssbuild.h    |  3 +--
 gbs/execution.h   | 43 +++++++++++++++++++++++++++++++++++++++++--
 gbs/extrema.h     |  3 +--
 gbs/transform.h   | 32 ++++++++++++++++----------------
 6 files changed, 76 insertions(+), 46 deletions(-)

diff --git a/gbs/bscanalysis.h b/gbs/bscanalysis.h
index 29c492c..c27110e 100644
--- a/gbs/bscanalysis.h
+++ b/gbs/bscanalysis.h
@@ -144,8 +144,7 @@ namespace gbs
         u = make_range(point<T, 1>{u1}, point<T, 1>{u2}, n);
 
         std::vector<T> dm(u.size() - 1);
-        std::transform(
-            GBS_PAR_EXEC
+        transform_par(
             u.begin(), std::next(u.end(), -1), std::next(u.begin(), 1), dm.begin(),
             [&crv](const auto &u1_,const auto &u2_) {
                 return length<T, dim, N>(crv, u1_[0], u2_[0]);
@@ -210,8 +209,7 @@ namespace gbs
         }
 
         std::vector<T> dm(u.size() - 1);
-        std::transform(
-            GBS_PAR_EXEC
+        transform_par(
             u.begin(), std::next(u.end(), -1), std::next(u.begin(), 1), dm.begin(),
             [&crv](const auto &u1_, const auto &u2_) {
                 return length<T, dim, N>(crv, u1_, u2_);
@@ -515,8 +513,7 @@ namespace gbs
     {
         points_vector<T,dim> points(u_lst.size());
 
-        std::transform(
-            GBS_PAR_EXEC
+        transform_par(
             u_lst.begin(),u_lst.end(),points.begin(),
             [d,&crv](T u_){return crv(u_,d);}
         );
@@ -666,13 +663,11 @@ namespace gbs
     template <typename T, size_t dim>
     auto closest_curve(const point<T, dim> pt, const auto &curve_begin, const auto &curve_end, T tol = extrema_tol<T>)
     {
-        return std::min_element(
-            GBS_PAR_EXEC
-            curve_begin, curve_end,
-            [&pt, tol](const auto &c1, const auto &c2)
-            {
-                return extrema_curve_point(c1, pt, tol)[1] < extrema_curve_point(c2, pt, tol)[1];
-            });
+        std::vector<T> d(std::distance(curve_begin, curve_end));
+        transform_par(
+            curve_begin, curve_end, d.begin(),
+            [&pt, tol](const auto &c) { return extrema_curve_point(c, pt, tol)[1]; });
+        return std::next(curve_begin, std::distance(d.begin(), std::min_element(d.begin(), d.end())));
     }
 /**
  * @brief  find the closest curve's pointer to point
@@ -688,13 +683,11 @@ namespace gbs
     template <typename T, size_t dim>
     auto closest_p_curve(const point<T, dim> pt, const auto &curve_begin, const auto &curve_end, T tol = extrema_tol<T>)
     {
-        return std::min_element(
-            GBS_PAR_EXEC
-            curve_begin, curve_end,
-            [&pt, tol](const auto &c1, const auto &c2)
-            {
-                return extrema_curve_point(*c1, pt, tol)[1] < extrema_curve_point(*c2, pt, tol)[1];
-            });
+        std::vector<T> d(std::distance(curve_begin, curve_end));
+        transform_par(
+            curve_begin, curve_end, d.begin(),
+            [&pt, tol](const auto &c) { return extrema_curve_point(*c, pt, tol)[1]; });
+        return std::next(curve_begin, std::distance(d.begin(), std::min_element(d.begin(), d.end())));
     }
 
     template <typename T, size_t dim>
diff --git a/gbs/bscapprox.h b/gbs/bscapprox.h
index 6cda5c6..2b4ddfe 100644
--- a/gbs/bscapprox.h
+++ b/gbs/bscapprox.h
@@ -485,14 +485,14 @@ namespace gbs
         ) -> BSCurve<T, dim>
     {
         auto [pts, u] = sample_by_deviation(crv, np, deviation);
-        std::transform(
-            GBS_PAR_EXEC
+        points_vector<T, dim> trf_pts(pts.size());
+        transform_par(
             pts.begin(),
             pts.end(),
-            pts.begin(),
+            trf_pts.begin(),
             trf_func
         );
-        return refine_from_points(pts, u, p, default_n_poles(p), tol);
+        return refine_from_points(trf_pts, u, p, default_n_poles(p), tol);
     }
 
     /**
diff --git a/gbs/bssbuild.h b/gbs/bssbuild.h
index 4abefca..bea816b 100644
--- a/gbs/bssbuild.h
+++ b/gbs/bssbuild.h
@@ -155,8 +155,7 @@ namespace gbs
         std::vector< points_vector<T,dim + rational> > tg_v_lst{ poles_v_lst.size() };
         // compute positions on spine
         std::vector<T> v_spine(bs_lst_cpy.size());
-        std::transform(
-                GBS_PAR_EXEC
+        transform_par(
                 bs_lst_cpy.begin(),
                 bs_lst_cpy.end(),
                 v_spine.begin(),
diff --git a/gbs/execution.h b/gbs/execution.h
index 68b5a5a..80ab477 100644
--- a/gbs/execution.h
+++ b/gbs/execution.h
@@ -4,6 +4,7 @@
 // Fall back to sequential algorithms on that platform.
 #include <version>
 #include <numeric>  // std::reduce, std::transform_reduce (previously transitive via <execution>)
+#include <atomic>
 #include <algorithm>  // std::transform, std::for_each
 #include <iterator>   // std::distance, std::begin/end/size/next
 #include <cstddef>    // std::size_t
@@ -64,12 +65,50 @@ namespace gbs
     // GBS_PAR_EXEC is empty, so both branches are serial and the gate is a
     // correctness-preserving no-op.
 
+    // Exceptions: an exception escaping a parallel element-access function calls
+    // std::terminate per the standard. `op` may throw (e.g. evaluation out of
+    // bounds), so it is trapped in the parallel region; when an item failed, the
+    // items are processed again serially, which raises the first failure in input
+    // order. `out` must therefore not overlap the inputs.
+
+    /// Parallel unary std::transform whose `op` may throw.
+    template <class InputIt, class OutputIt, class UnaryOp>
+    OutputIt transform_par(InputIt first, InputIt last, OutputIt out, UnaryOp op)
+    {
+        std::atomic<bool> failed{false};
+        auto end = std::transform(
+            GBS_PAR_EXEC first, last, out,
+            [&](const auto &x) -> typename std::iterator_traits<OutputIt>::value_type
+            {
+                try { return op(x); }
+                catch (...) { failed = true; }
+                return {};
+            });
+        return failed ? std::transform(first, last, out, op) : end;
+    }
+
+    /// Parallel binary std::transform whose `op` may throw.
+    template <class InputIt1, class InputIt2, class OutputIt, class BinaryOp>
+    OutputIt transform_par(InputIt1 first1, InputIt1 last1, InputIt2 first2, OutputIt out, BinaryOp op)
+    {
+        std::atomic<bool> failed{false};
+        auto end = std::transform(
+            GBS_PAR_EXEC first1, last1, first2, out,
+            [&](const auto &x1, const auto &x2) -> typename std::iterator_traits<OutputIt>::value_type
+            {
+                try { return op(x1, x2); }
+                catch (...) { failed = true; }
+                return {};
+            });
+        return failed ? std::transform(first1, last1, first2, out, op) : end;
+    }
+
     /// Size-gated unary std::transform (single input range).
     template <class InputIt, class OutputIt, class UnaryOp>
     OutputIt transform_threshold(InputIt first, InputIt last, OutputIt out, UnaryOp op)
     {
         if (static_cast<std::size_t>(std::distance(first, last)) >= parallel_min_size)
-            return std::transform(GBS_PAR_EXEC first, last, out, op);
+            return transform_par(first, last, out, op);
         return std::transform(first, last, out, op);
     }
 
@@ -78,7 +117,7 @@ namespace gbs
     OutputIt transform_threshold(InputIt1 first1, InputIt1 last1, InputIt2 first2, OutputIt out, BinaryOp op)
     {
         if (static_cast<std::size_t>(std::distance(first1, last1)) >= parallel_min_size)
-            return std::transform(GBS_PAR_EXEC first1, last1, first2, out, op);
+            return transform_par(first1, last1, first2, out, op);
         return std::transform(first1, last1, first2, out, op);
     }
 
diff --git a/gbs/extrema.h b/gbs/extrema.h
index 056b804..b070bae 100644
--- a/gbs/extrema.h
+++ b/gbs/extrema.h
@@ -238,8 +238,7 @@ namespace gbs
     {
         auto n = std::distance(first, last);
         std::vector<std::array<T,3>> intersection_info(n);
-        std::transform(
-            GBS_PAR_EXEC
+        transform_par(
             first, last,
             intersection_info.begin(),
             [&crv,tol_x](const auto &crv_){
diff --git a/gbs/transform.h b/gbs/transform.h
index 565e4ae..ac16703 100644
--- a/gbs/transform.h
+++ b/gbs/transform.h
@@ -12,13 +12,13 @@ namespace gbs
     auto transform(BSCurve<T, dim> &crv, auto trf) -> void
     {
         auto poles = crv.poles();
-        std::transform(
-            GBS_PAR_EXEC
+        auto new_poles = poles;
+        transform_par(
             poles.begin(),
             poles.end(),
-            poles.begin(),
+            new_poles.begin(),
             trf);
-        crv.movePoles(poles);
+        crv.movePoles(new_poles);
     }
 
     template <typename T, size_t dim>
@@ -29,13 +29,13 @@ namespace gbs
         std::vector<T> weights;
         separate_weights(poles_w, poles, weights);
 
-        std::transform(
-            GBS_PAR_EXEC
+        auto new_poles = poles;
+        transform_par(
             poles.begin(),
             poles.end(),
-            poles.begin(),
+            new_poles.begin(),
             trf);
-        poles_w = add_weights_coord(poles, weights);
+        poles_w = add_weights_coord(new_poles, weights);
         crv.movePoles(poles_w);
     }
 
@@ -43,13 +43,13 @@ namespace gbs
     auto transform(BSSurface<T, dim> &crv, auto trf) -> void
     {
         auto poles = crv.poles();
-        std::transform(
-            GBS_PAR_EXEC
+        auto new_poles = poles;
+        transform_par(
             poles.begin(),
             poles.end(),
-            poles.begin(),
+            new_poles.begin(),
             trf);
-        crv.movePoles(poles);
+        crv.movePoles(new_poles);
     }
 
     template <typename T, size_t dim>
@@ -60,13 +60,13 @@ namespace gbs
         std::vector<T> weights;
         separate_weights(poles_w, poles, weights);
 
-        std::transform(
-            GBS_PAR_EXEC
+        auto new_poles = poles;
+        transform_par(
             poles.begin(),
             poles.end(),
-            poles.begin(),
+            new_poles.begin(),
             trf);
-        poles_w = add_weights_coord(poles, weights);
+        poles_w = add_weights_coord(new_poles, weights);
         crv.movePoles(poles_w);
     }
 
-- 
2.43.0


From 26b603a6926d7a9190b342615db54e4e477a8c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:37 +0000
Subject: [PATCH 35/55] fix: exception raised by an evaluation bracketing an
 extremum

---
 gbs/extrema.h | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/gbs/extrema.h b/gbs/extrema.h
index b070bae..de3ac9d 100644
--- a/gbs/extrema.h
+++ b/gbs/extrema.h
@@ -71,10 +71,9 @@ namespace gbs
     auto extrema_curve_point(const Curve<T, dim> &crv, const std::array<T, dim> &pnt,T tol_u,nlopt::algorithm solver=default_nlopt_algo,size_t n_bracket=30) -> std::array<T,2>
     {
         auto u = make_range<T>(crv.bounds(),n_bracket);
-        auto comp = [&](auto u1, auto u2){
-            return sq_norm(pnt-crv(u1)) < sq_norm(pnt-crv(u2));
-        };
-        auto u0 = *std::min_element(GBS_PAR_EXEC u.begin(), u.end(), comp);
+        std::vector<T> d(u.size());
+        transform_par(u.begin(), u.end(), d.begin(), [&](auto u_){ return sq_norm(pnt-crv(u_)); });
+        auto u0 = u[std::distance(d.begin(), std::min_element(d.begin(), d.end()))];
         return extrema_curve_point(crv, pnt, u0,tol_u,solver);
     }
     /** Project point on surface
@@ -137,12 +136,12 @@ namespace gbs
     auto extrema_surf_pnt(const Surface<T, dim> &srf, const std::array<T, dim> &pnt, T tol_x, nlopt::algorithm solver=default_nlopt_algo, size_t n_bracket_u = 30, size_t n_bracket_v = 30)
     {
         auto uv = make_range<T>(srf.bounds(), n_bracket_u , n_bracket_v);
-        auto comp = [&](auto uv1, auto uv2){
-            auto [u1, v1] = uv1;
-            auto [u2, v2] = uv2;
-            return sq_norm(pnt-srf(u1,v1)) < sq_norm(pnt-srf(u2,v2));
-        };
-        auto [u0, v0 ] = *std::min_element(GBS_PAR_EXEC uv.begin(), uv.end(), comp);
+        std::vector<T> d(uv.size());
+        transform_par(uv.begin(), uv.end(), d.begin(), [&](const auto &uv_){
+            auto [u, v] = uv_;
+            return sq_norm(pnt-srf(u, v));
+        });
+        auto [u0, v0 ] = uv[std::distance(d.begin(), std::min_element(d.begin(), d.end()))];
         return extrema_surf_pnt(srf, pnt, u0, v0, tol_x, solver);
     }
 
@@ -284,12 +283,12 @@ namespace gbs
     auto extrema_surf_curve(const Surface<T, dim> &srf, const Curve<T, dim> &crv, T tol_x, nlopt::algorithm solver=default_nlopt_algo, size_t n_bracket_u = 30, size_t n_bracket_v = 30, size_t n_bracket_w = 30) 
     {
         auto uvw = make_range( srf.bounds(), crv.bounds(), n_bracket_u, n_bracket_v, n_bracket_w );
-        auto comp = [&](auto uvw1, auto uvw2){
-            auto [u1, v1, w1] = uvw1;
-            auto [u2, v2, w2] = uvw2;
-            return sq_norm(srf(u1, v1)-crv(w1)) < sq_norm(srf(u2, v2)-crv(w2));
-        };
-        auto [u0, v0, w0 ] = *std::min_element(GBS_PAR_EXEC uvw.begin(), uvw.end(), comp);
+        std::vector<T> d(uvw.size());
+        transform_par(uvw.begin(), uvw.end(), d.begin(), [&](const auto &uvw_){
+            auto [u, v, w] = uvw_;
+            return sq_norm(srf(u, v)-crv(w));
+        });
+        auto [u0, v0, w0 ] = uvw[std::distance(d.begin(), std::min_element(d.begin(), d.end()))];
         return extrema_surf_curve(srf, crv, w0, u0, v0, tol_x, solver);
     }
 
-- 
2.43.0


From 95faf67a73ecfaddc3618737b57e50559f7ca1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:56 +0000
Subject: [PATCH 36/55] fix: in_triangle of a degenerate triangle

---
 inc/topology/baseIntersection.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/inc/topology/baseIntersection.h b/inc/topology/baseIntersection.h
index 7d0217d..05a5dd9 100644
--- a/inc/topology/baseIntersection.h
+++ b/inc/topology/baseIntersection.h
@@ -39,6 +39,20 @@ namespace gbs
         auto has_neg = (d1 < 0) || (d2 < 0) || (d3 < 0);
         auto has_pos = (d1 > 0) || (d2 > 0) || (d3 > 0);
 
+        // Degenerated triangle with D on its supporting line, D is inside only if it lies between the vertices
+        if (!has_neg && !has_pos)
+        {
+            for (size_t i{}; i < 2; i++)
+            {
+                auto [min, max] = std::minmax({a[i], b[i], c[i]});
+                if (d[i] < min || d[i] > max)
+                {
+                    return false;
+                }
+            }
+            return true;
+        }
+
         return !(has_neg && has_pos);
     }
 /**
-- 
2.43.0


From b3451fef6c6f2930719948abdbed008ab60edc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:56 +0000
Subject: [PATCH 37/55] fix: on_segment of a zero length segment

---
 inc/topology/baseIntersection.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/inc/topology/baseIntersection.h b/inc/topology/baseIntersection.h
index 05a5dd9..918dc1f 100644
--- a/inc/topology/baseIntersection.h
+++ b/inc/topology/baseIntersection.h
@@ -235,6 +235,12 @@ namespace gbs
             return false;
         }
 
+        // Zero length segment, it only contains its end
+        if (a == b)
+        {
+            return std::fabs(p[0] - a[0]) <= tol && std::fabs(p[1] - a[1]) <= tol;
+        }
+
         // Compute the parameter t to check if the point is inside the segment
         T t;
         if (std::fabs(b[0] - a[0]) >= std::fabs(b[1] - a[1]))
-- 
2.43.0


From c0089353b8cf407366fcf174705ec85be9607fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:23 +0000
Subject: [PATCH 38/55] fix: getNeighboringVertices returned the vertex itself

---
 inc/topology/halfEdgeMeshGetters.h | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/inc/topology/halfEdgeMeshGetters.h b/inc/topology/halfEdgeMeshGetters.h
index 9b82670..021cfae 100644
--- a/inc/topology/halfEdgeMeshGetters.h
+++ b/inc/topology/halfEdgeMeshGetters.h
@@ -424,27 +424,24 @@ namespace gbs
         bool open = false;
         do
         {
+            neighbors.push_front(current->previous->vertex);
             if(!current->opposite)
             {
                 open = true;
                 break;
             }
             current = current->opposite->previous;
-            neighbors.push_front(current->vertex);
         }while (current!=start);
 
         if(open)
         {
             current = start;
-            do
+            while (current->next->opposite)
             {
-                if(!current->next->opposite)
-                {
-                    break;
-                }
                 current = current->next->opposite;
-                neighbors.push_back(current->vertex);
-            }while (current!=start); 
+                neighbors.push_back(current->previous->vertex);
+            }
+            neighbors.push_back(current->next->vertex);
         }
 
         return neighbors;
-- 
2.43.0


From ac100ce144ba83759ff81ce8806d799377d38cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:23 +0000
Subject: [PATCH 39/55] fix: is_boundary of a vertex was inverted

---
 inc/topology/halfEdgeMeshGeomTests.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/topology/halfEdgeMeshGeomTests.h b/inc/topology/halfEdgeMeshGeomTests.h
index 96aedbb..1c36afa 100644
--- a/inc/topology/halfEdgeMeshGeomTests.h
+++ b/inc/topology/halfEdgeMeshGeomTests.h
@@ -274,11 +274,11 @@ namespace gbs
         {
             if(!current->opposite)
             {
-                return false;
+                return true;
             }
             current = current->opposite->previous;
         }while (current!=start);
 
-        return true;  
+        return false;  
     }
 } // namespace gbs
\ No newline at end of file
-- 
2.43.0


From 5a8426f98e76071676cdd6d545c2ad2177170db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:23 +0000
Subject: [PATCH 40/55] fix: splitHalfEdge left the two halves of the split
 edge unlinked

---
 inc/topology/halfEdgeMeshEditors.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inc/topology/halfEdgeMeshEditors.h b/inc/topology/halfEdgeMeshEditors.h
index b9acf5e..f5bebcc 100644
--- a/inc/topology/halfEdgeMeshEditors.h
+++ b/inc/topology/halfEdgeMeshEditors.h
@@ -592,6 +592,7 @@ namespace gbs
             auto new_he2_opp    = make_shared_h_edge(new_vertex);
             auto new_he3_opp    = make_shared_h_edge(he_prev->vertex);
             link_edges(new_he1_opp, new_he2_opp);
+            link_edges(new_he2, new_he3_opp);
             auto new_hf1_opp_ed_lst = {new_he2_opp,new_he3_opp, he_opp_next};
             auto new_hf1_opp = make_shared_h_face<T,dim>(new_hf1_opp_ed_lst);
 
-- 
2.43.0


From 05f4bee86e3287bc14c179d6995ab6165de5ba1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:14 +0000
Subject: [PATCH 41/55] fix: splitHalfEdge referred the new vertex to an edge
 that does not end there

---
 inc/topology/halfEdgeMeshEditors.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/inc/topology/halfEdgeMeshEditors.h b/inc/topology/halfEdgeMeshEditors.h
index f5bebcc..425c2d1 100644
--- a/inc/topology/halfEdgeMeshEditors.h
+++ b/inc/topology/halfEdgeMeshEditors.h
@@ -561,7 +561,6 @@ namespace gbs
         //     new_pt = ( a +b + c + d) / static_cast<T>(4);
         // }
         auto new_vertex = make_shared_h_vertex( new_pt );
-        new_vertex->edge = he;
         auto new_he1    = make_shared_h_edge(new_vertex, hf);
         hf->edge=new_he1;
         chain_edges(new_he1,he);
-- 
2.43.0


From d2796650712148feba1d23154b9c7d083f7e7c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:33 +0000
Subject: [PATCH 42/55] fix: Wire::close could not be instantiated

---
 inc/topology/wire.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/inc/topology/wire.h b/inc/topology/wire.h
index 8843379..ed3ee8e 100644
--- a/inc/topology/wire.h
+++ b/inc/topology/wire.h
@@ -230,9 +230,11 @@ namespace gbs
     template <std::floating_point T, size_t dim>
     void Wire<T, dim>::close()
     {
-        addEdge(Edge<T, dim>{
-            end()->vertex2(),
-            begin()->vertex1()});
+        if (isClosed())
+        {
+            return;
+        }
+        addEdge(Edge<T, dim>{vertex2(), vertex1()});
     }
 
     template <std::floating_point T, size_t dim>
-- 
2.43.0


From 67a2023b70d711090764a6e1ee83a272009f0053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:04 +0000
Subject: [PATCH 43/55] fix: edge added to a wire through a shared vertex did
 not close it, and could be accepted without being connected

---
 inc/topology/wire.h | 40 +++++++++-------------------------------
 1 file changed, 9 insertions(+), 31 deletions(-)

diff --git a/inc/topology/wire.h b/inc/topology/wire.h
index ed3ee8e..924c465 100644
--- a/inc/topology/wire.h
+++ b/inc/topology/wire.h
@@ -90,8 +90,7 @@ namespace gbs
                 m_edges.back()->vertex2()->point(),
                 ed->vertex1()->point()) < this->approximationTolerance())
         {
-            ed->setVertex1(m_edges.back()->vertex2());
-            return true;
+            return ed->setVertex1(m_edges.back()->vertex2());
         }
         return false;
     }
@@ -103,8 +102,7 @@ namespace gbs
                 m_edges.front()->vertex1()->point(),
                 ed->vertex2()->point()) < this->approximationTolerance())
         {
-            ed->setVertex2(m_edges.front()->vertex1());
-            return true;
+            return ed->setVertex2(m_edges.front()->vertex1());
         }
         return false;
     }
@@ -134,38 +132,18 @@ namespace gbs
             {
                 return false;
             }
-            if (m_edges.front()->vertex1() == ed->vertex2())
-            {
-                m_edges.push_front(ed);
-            }
-            else if (m_edges.back()->vertex2() == ed->vertex1())
+            // an end that is already shared needs no fusion, the other end may still close the wire
+            const bool after  = m_edges.back()->vertex2() == ed->vertex1() || fuseVertex1(ed);
+            const bool before = m_edges.front()->vertex1() == ed->vertex2() || fuseVertex2(ed);
+            if (after)
             {
                 m_edges.push_back(ed);
             }
-            else
+            else if (before)
             {
-                bool added = false;
-                if (distance(
-                        m_edges.back()->vertex2()->point(),
-                        ed->vertex1()->point()) < this->approximationTolerance())
-                {
-                    ed->setVertex1(m_edges.back()->vertex2());
-                    m_edges.push_back(ed);
-                    added = true;
-                }
-                if (distance(
-                        m_edges.front()->vertex1()->point(),
-                        ed->vertex2()->point()) < this->approximationTolerance())
-                {
-                    ed->setVertex2(m_edges.front()->vertex1());
-                    if (!added)
-                    {
-                        m_edges.push_front(ed);
-                        added = true;
-                    }
-                }
-                return added;
+                m_edges.push_front(ed);
             }
+            return after || before;
         }
 
         return true;
-- 
2.43.0


From fc437ca9edb1a0e2ab287aa67433d5ab09823864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:20 +0000
Subject: [PATCH 44/55] fix: json file read with rounding errors and parse
 errors ignored

---
 gbs-io/fromjson.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gbs-io/fromjson.h b/gbs-io/fromjson.h
index ae2e737..75edb27 100644
--- a/gbs-io/fromjson.h
+++ b/gbs-io/fromjson.h
@@ -502,6 +502,11 @@ namespace gbs
             throw std::runtime_error("File not found: " + std::string(fname));
         }
 
-        document.Parse(str.data());
+        // full precision: a number which was written must be read back as the same number
+        document.Parse<rapidjson::kParseFullPrecisionFlag>(str.data());
+        if (document.HasParseError())
+        {
+            throw std::runtime_error("Not a valid json file: " + std::string(fname));
+        }
     }
 }
\ No newline at end of file
-- 
2.43.0


From d24ae5a7ab01c5958a8dd2f1d41a0de00410f6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:20 +0000
Subject: [PATCH 45/55] fix: curve on a surface of revolution lost its surface
 in json

---
 gbs-io/fromjson.h | 12 +++++++++++-
 gbs-io/tojson.h   |  4 ++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/gbs-io/fromjson.h b/gbs-io/fromjson.h
index 75edb27..7a8dc18 100644
--- a/gbs-io/fromjson.h
+++ b/gbs-io/fromjson.h
@@ -395,6 +395,9 @@ namespace gbs
     template <typename T, size_t dim>
     auto make_surface(const rapidjson::Value &val) -> std::shared_ptr<Surface<T,dim>>;
 
+    template <typename T>
+    auto make_surface(const rapidjson::Value &val) -> std::shared_ptr<Surface<T,3>>;
+
     template <typename T, size_t dim>
     auto make_curve(const rapidjson::Value &val) -> std::shared_ptr<Curve<T,dim>>
     {
@@ -419,13 +422,20 @@ namespace gbs
                 );
                 break;
             case static_cast<int>(entity_type::CurveOnSurface):
+            {
+                std::shared_ptr<Surface<T,dim>> p_srf;
+                if constexpr (dim == 3)
+                    p_srf = make_surface<T>(val["surface"]); // surfaces of revolution included
+                else
+                    p_srf = make_surface<T,dim>(val["surface"]);
                 return std::make_shared<CurveOnSurface<T,dim>>(
                     CurveOnSurface<T,dim>{
                         make_curve<T,2>(val["curve2d"]),
-                        make_surface<T,dim>(val["surface"])
+                        p_srf
                     }
                 );
                 break;
+            }
             default:
                 throw std::invalid_argument("Unsupported curve type");
                 break;
diff --git a/gbs-io/tojson.h b/gbs-io/tojson.h
index f81d4a6..9d84bd5 100644
--- a/gbs-io/tojson.h
+++ b/gbs-io/tojson.h
@@ -428,8 +428,8 @@ namespace gbs
         rapidjson::Value dim_val{static_cast<unsigned>(dim)};
         rapidjson::Value type_val{static_cast<int>(entity_type::CurveOnSurface)};
 
-        auto crv2d_val = make_json<T,2>(  &crv.basisCurve(),   allocator);
-        auto srf_val   = make_json<T,dim>(&crv.basisSurface(), allocator);
+        auto crv2d_val = make_json(&crv.basisCurve(),   allocator);
+        auto srf_val   = make_json(&crv.basisSurface(), allocator);
         
         crv_val.AddMember( "type"     ,type_val,  allocator);
         crv_val.AddMember( "dim"      ,dim_val,   allocator);
-- 
2.43.0


From a1020a0698eb8680c66c608ef3288dff9b4ebc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:20 +0000
Subject: [PATCH 46/55] fix: constraints of unequal counts read beyond the json
 array

---
 gbs-io/fromjson.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gbs-io/fromjson.h b/gbs-io/fromjson.h
index 7a8dc18..766363e 100644
--- a/gbs-io/fromjson.h
+++ b/gbs-io/fromjson.h
@@ -162,6 +162,10 @@ namespace gbs
         {
             throw std::invalid_argument("auto make_point_vec(const rapidjson::Value &a) -> std::vector< std::array<T,dim> > not and array");
         }
+        if (a.Size() != nc || !std::all_of(a.Begin(), a.End(), [&a](const auto &val) { return val.IsArray() && val.Size() == a[0].Size(); }))
+        {
+            throw std::invalid_argument("auto make_constraints_vec(const rapidjson::Value &a) -> std::vector<constrType<T, dim, nc>> wrong size");
+        }
         auto n = a.GetArray()[0].GetArray().Size();
 
         std::vector<constrType<T, dim, nc>> v_(n);
-- 
2.43.0


From b99a242ee1cfa930eac24618626f61e3cda55eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:38 +0000
Subject: [PATCH 47/55] fix: curve document whose type is not a text crashed
 the reader

---
 gbs-io/fromjson.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gbs-io/fromjson.h b/gbs-io/fromjson.h
index 766363e..63353c8 100644
--- a/gbs-io/fromjson.h
+++ b/gbs-io/fromjson.h
@@ -317,6 +317,10 @@ namespace gbs
             }
         }
         // Legacy format: string-based dispatch.
+        if (!a["type"].IsString())
+        {
+            throw std::invalid_argument("auto make_bscurve(const rapidjson::Value &a) unsupported type");
+        }
         if( std::strcmp(a["type"].GetString(),"bscurve_interp_cn") == 0)
         {
             return bscurve_interp_cn<T,dim>(a);
@@ -385,7 +389,7 @@ namespace gbs
     template <typename T, size_t dim>
     auto make_bscurve(const rapidjson::Value &a,const std::vector<T> &u) -> BSCurve<T, dim>
     {
-        if( std::strcmp(a["type"].GetString(),"bscurve_interp")  == 0)
+        if( a["type"].IsString() && std::strcmp(a["type"].GetString(),"bscurve_interp")  == 0)
         {
             return bscurve_interp<T,dim>(a,u);
         }
-- 
2.43.0


From 786cb269a66640e814568104fc643c3a43c610e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:02 +0000
Subject: [PATCH 48/55] fix: nested json value which is not an entity read as
 one

---
 gbs-io/fromjson.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/gbs-io/fromjson.h b/gbs-io/fromjson.h
index 63353c8..f839fd4 100644
--- a/gbs-io/fromjson.h
+++ b/gbs-io/fromjson.h
@@ -400,6 +400,13 @@ namespace gbs
         }
     }
 
+    inline auto get_entity_type(const rapidjson::Value &val) -> int
+    {
+        if (!val.IsObject() || !val.HasMember("type"))
+            throw std::invalid_argument("auto get_entity_type(const rapidjson::Value &val) -> int not an entity");
+        return get_val<int>(val["type"]);
+    }
+
     template <typename T, size_t dim>
     auto make_surface(const rapidjson::Value &val) -> std::shared_ptr<Surface<T,dim>>;
 
@@ -409,7 +416,7 @@ namespace gbs
     template <typename T, size_t dim>
     auto make_curve(const rapidjson::Value &val) -> std::shared_ptr<Curve<T,dim>>
     {
-        switch( val["type"].GetInt() ){
+        switch( get_entity_type(val) ){
             case static_cast<int>(entity_type::BSCurve):
                 return std::make_shared<BSCurve<T,dim>>(
                     BSCurve<T,dim>{
@@ -453,7 +460,7 @@ namespace gbs
     template <typename T, size_t dim>
     auto make_surface(const rapidjson::Value &val) -> std::shared_ptr<Surface<T,dim>>
     {
-        switch( val["type"].GetInt() ){
+        switch( get_entity_type(val) ){
             case static_cast<int>(entity_type::BSSurface):
                 return std::make_shared<BSSurface<T,dim>>(
                     BSSurface<T,dim>{
@@ -488,7 +495,7 @@ namespace gbs
     template <typename T>
     auto make_surface(const rapidjson::Value &val) -> std::shared_ptr<Surface<T,3>>
     {
-        switch( val["type"].GetInt() ){
+        switch( get_entity_type(val) ){
             case static_cast<int>(entity_type::SurfaceOfRevolution):
             {
                 return std::make_shared<SurfaceOfRevolution<T>>(
-- 
2.43.0


From ae32b40c6c30a261b9f8c24fc7c71a2249931a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:49 +0000
Subject: [PATCH 49/55] fix: degree which is not a number accepted from json

---
 gbs-io/fromjson.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gbs-io/fromjson.h b/gbs-io/fromjson.h
index f839fd4..e282a63 100644
--- a/gbs-io/fromjson.h
+++ b/gbs-io/fromjson.h
@@ -422,7 +422,7 @@ namespace gbs
                     BSCurve<T,dim>{
                         make_point_vec<T,dim>(val["poles"]),
                         flat_knots( make_vec<T>(val["knots"]),make_vec<size_t>(val["mults"]) ),
-                        val["degree"].GetUint64()
+                        get_val<size_t>(val["degree"])
                     }
                 );
                 break;
@@ -432,7 +432,7 @@ namespace gbs
                         make_point_vec<T,dim>(val["poles"]),
                         flat_knots( make_vec<T>(val["knots"]),make_vec<size_t>(val["mults"]) ),
                         make_vec<T>(val["weights"]),
-                        val["degree"].GetUint64()
+                        get_val<size_t>(val["degree"])
                     }
                 );
                 break;
@@ -467,8 +467,8 @@ namespace gbs
                         make_point_vec<T,dim>(val["poles"]),
                         flat_knots( make_vec<T>(val["knotsU"]),make_vec<size_t>(val["multsU"]) ),
                         flat_knots( make_vec<T>(val["knotsV"]),make_vec<size_t>(val["multsV"]) ),
-                        val["degreeU"].GetUint64(),
-                        val["degreeV"].GetUint64()
+                        get_val<size_t>(val["degreeU"]),
+                        get_val<size_t>(val["degreeV"])
                     }
                 );
                 break;
@@ -481,8 +481,8 @@ namespace gbs
                         ),
                         flat_knots( make_vec<T>(val["knotsU"]),make_vec<size_t>(val["multsU"]) ),
                         flat_knots( make_vec<T>(val["knotsV"]),make_vec<size_t>(val["multsV"]) ),
-                        val["degreeU"].GetUint64(),
-                        val["degreeV"].GetUint64()
+                        get_val<size_t>(val["degreeU"]),
+                        get_val<size_t>(val["degreeV"])
                     }
                 );
                 break;
-- 
2.43.0


From 90129d43e7f1b4b0b1a6d1d6175bd6e2104a8665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:27 +0000
Subject: [PATCH 50/55] fix: end tangents of the three point method

---
 gbs/bscinterp.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gbs/bscinterp.h b/gbs/bscinterp.h
index efd36b2..f94cf2b 100644
--- a/gbs/bscinterp.h
+++ b/gbs/bscinterp.h
@@ -80,8 +80,8 @@ auto build_3pt_tg_vec(const std::vector<std::array<T, dim>> &pts,const std::vect
         std::next(D.begin())
         );
 
-    D.front() = T(2.)*q.front() - *std::next(D.begin());
-    D.back()  = T(2.)*q.back()  - *std::next(D.end(),-1);
+    D.front() = T(2.)*d.front() - *std::next(D.begin());
+    D.back()  = T(2.)*d.back()  - *std::next(D.end(),-2);
 
     return D;
 }
@@ -114,7 +114,7 @@ auto build_3pt_tg_dir(const std::vector<std::array<T, dim>> &pts,const std::vect
         );
 
     D.front() = 2.*q.front() - *std::next(D.begin());
-    D.back()  = 2.*q.back()  - *std::next(D.end(),-1);
+    D.back()  = 2.*q.back()  - *std::next(D.end(),-2);
 
     adim(D);
 
-- 
2.43.0


From b762818310da6246483c52356702512418f8b09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:21 +0000
Subject: [PATCH 51/55] fix: adim of a vector list left its last item unchanged

---
 gbs/vecop.ixx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/vecop.ixx b/gbs/vecop.ixx
index c5d9396..be86ab0 100644
--- a/gbs/vecop.ixx
+++ b/gbs/vecop.ixx
@@ -255,7 +255,7 @@
     {
         std::transform(
             GBS_SEQ_EXEC
-            v.begin(), std::next(v.end(), -1),
+            v.begin(), v.end(),
             v.begin(),
             [](const auto &v_) {
                 return v_ / norm(v_);
-- 
2.43.0


From a49a41b3bc70bb16e2282cb8e2fab7f0b92edf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:02 +0000
Subject: [PATCH 52/55] fix: curve moved by the constraints instead of the
 distance to them

---
 gbs/bscshaping.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/bscshaping.h b/gbs/bscshaping.h
index 81af81d..c66ba2c 100644
--- a/gbs/bscshaping.h
+++ b/gbs/bscshaping.h
@@ -143,7 +143,7 @@ namespace gbs
             i2 = std::min<size_t>(n-2,i2);
         }
 
-        return moved_to_constraints_delta(crv, constraints, i1, i2);
+        return moved_to_constraints_delta(crv, constraints_delta, i1, i2);
     }
 
     template<typename T, size_t dim>
-- 
2.43.0


From 94936457a6b419216c3a720da3b8058831353602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:02 +0000
Subject: [PATCH 53/55] fix: curve moved to no constraint

---
 gbs/bscshaping.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gbs/bscshaping.h b/gbs/bscshaping.h
index c66ba2c..93e8daf 100644
--- a/gbs/bscshaping.h
+++ b/gbs/bscshaping.h
@@ -87,7 +87,8 @@ namespace gbs
         auto n = poles.size();
         auto k     = crv.knotsFlats();
         auto p     = crv.degree();
-        move_to_constraints_delta(poles, constraints_delta, k, p , i1, i2);
+        if(constraints_delta.size()>0)
+            move_to_constraints_delta(poles, constraints_delta, k, p , i1, i2);
         return BSCurve<T,dim>{poles,k,p};
     }
 
-- 
2.43.0


From b9c561a803d70711062e4a3474d256da4ebe2cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:02 +0000
Subject: [PATCH 54/55] fix: derivative constraints of a surface handled as
 positions

---
 gbs/bssshaping.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gbs/bssshaping.h b/gbs/bssshaping.h
index 5cb75ce..532cfec 100644
--- a/gbs/bssshaping.h
+++ b/gbs/bssshaping.h
@@ -42,10 +42,10 @@ namespace gbs
 
             for (size_t j{j1}; j <= j2; j++)
             {
-                Nv = basis_function(v, j, q, 0, kv);
+                Nv = basis_function(v, j, q, dv, kv);
                 for (size_t i{i1}; i <= i2; i++)
                 {
-                    Nu = basis_function(u, i, p, 0, ku);
+                    Nu = basis_function(u, i, p, du, ku);
                     B(r, i - i1 + nu * ( j - j1) ) = Nu * Nv;
                 }
             }
-- 
2.43.0


From 621c31a3c4140e8da1e8db373cf917505cc319e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:45 +0000
Subject: [PATCH 55/55] fix: refinement of a mesh lost the Delaunay condition
 and crashed on a refused point

---
 inc/topology/tessellations.h | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/inc/topology/tessellations.h b/inc/topology/tessellations.h
index 470588b..50368c5 100644
--- a/inc/topology/tessellations.h
+++ b/inc/topology/tessellations.h
@@ -536,11 +536,19 @@ namespace bw_detail
 
             auto d_G_UV = dist_mesh(*it);
             crit = d_G_UV.first;
+            if (crit < crit_max)
+                break;
 
             // std::cout << crit << " inserting: " << d_G_UV.second[0] << " " << d_G_UV.second[1] << std::endl;
 
             auto [vtx, deleted_faces_list, new_faces_list] = boyerWatson(faces_lst, d_G_UV.second, tol);
 
+            if (!vtx) // the point is refused, this face can't be improved
+            {
+                face_quality[*it] = std::numeric_limits<T>::lowest();
+                continue;
+            }
+
             for (const auto &face : deleted_faces_list)
             {
                 face_quality.erase(face);
@@ -551,15 +559,31 @@ namespace bw_detail
                 update_face_quality(face);
             }
 
-            // Smooth mesh
+            // Smooth mesh, unless a face gets inverted
+            auto coords = vtx->coords;
             laplacian_smoothing(faces_lst, *vtx);
+            if (!are_face_ccw(new_faces_list))
+            {
+                vtx->coords = coords;
+            }
+            for (const auto &face : new_faces_list)
+            {
+                update_face_quality(face);
+            }
             // Restore Delaunay condition
-            auto edges = getEdgesMap<T,dim>(faces_lst);
-            for(auto & [ed,i] : edges)
+            for (bool flipped{true}; flipped;)
             {
-                if(ed->opposite && !is_locally_delaunay(ed))
+                flipped = false;
+                auto edges = getEdgesMap<T,dim>(faces_lst);
+                for(auto & [ed,i] : edges)
                 {
-                    flip(ed->face,ed->opposite->face);
+                    if(ed->opposite && is_locally_delaunay(ed) > tol)
+                    {
+                        flip(ed->face,ed->opposite->face);
+                        update_face_quality(ed->face);
+                        update_face_quality(ed->opposite->face);
+                        flipped = true;
+                    }
                 }
             }
         }
-- 
2.43.0

