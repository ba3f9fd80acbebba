From dc008c12169685ae4719b1b0f05eac04709934cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:52 +0000
Subject: [PATCH 01/36] fix: curve trim with swapped parameters left inverted
 bounds

BSCurveGeneral::trim(u1, u2) with u1 > u2 trims knots and poles to
[u2, u1] but recorded the bounds as {u1, u2}, so every later evaluation
threw OutOfBoundsCurveEval.
---
 gbs/bscurve.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/bscurve.h b/gbs/bscurve.h
index 465bdce..28082e4 100644
--- a/gbs/bscurve.h
+++ b/gbs/bscurve.h
@@ -539,7 +539,7 @@ namespace gbs
          */
         auto trim(T u1, T u2, bool permanently=true) -> void
         {
-            m_bounds = {u1,u2};
+            m_bounds = {std::min(u1,u2),std::max(u1,u2)};
             if (permanently)
             {
                 gbs::trim(m_deg, m_knotsFlats, m_poles, u1, u2);
-- 
2.43.0


From b92ac8ac442eeb7bdfb0899a122b66b43fa6317c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:52 +0000
Subject: [PATCH 02/36] fix: inserting a knot outside of the knots' range was
 undefined behaviour

insert_knots computed a span of -1 (or past the end) for such a value
and indexed knots and poles out of bounds; the curve is now left as is.
---
 gbs/knotsfunctions.ixx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gbs/knotsfunctions.ixx b/gbs/knotsfunctions.ixx
index a25b01c..90809fe 100644
--- a/gbs/knotsfunctions.ixx
+++ b/gbs/knotsfunctions.ixx
@@ -367,6 +367,10 @@
     auto insert_knots(T u, size_t p, size_t r, std::vector<T> &UP, std::vector<std::array<T, dim>> &P)
     {
 
+        // Fail safe: there is no span to split outside of the knots' range
+        if(u < UP.front()) return size_t{0};
+        if(u > UP.back()) return P.size()-1;
+
         auto np   = P.size()-1;
         auto mp   = np + p + 1;
         auto nq   = np + r;
-- 
2.43.0


From 558d74c1a73c40aee1d7061f86d16e770ef7e620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:12 +0000
Subject: [PATCH 03/36] fix: removing an end knot, or more copies than its
 multiplicity, corrupted the curve

remove_knot only excluded r == 0 and r == U.size(), which never happens
for the clamped ends (r is p or U.size()-1), and never capped the number
of removals at the multiplicity: poles and knots were then read and
written out of bounds. A value within knot_eps of a knot was accepted
with a multiplicity of 0.
---
 gbs/knotsfunctions.ixx | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/gbs/knotsfunctions.ixx b/gbs/knotsfunctions.ixx
index 90809fe..d999c89 100644
--- a/gbs/knotsfunctions.ixx
+++ b/gbs/knotsfunctions.ixx
@@ -569,18 +569,19 @@
         // Determine the knot interval that contains u
         auto r = std::distance(U.begin(), std::ranges::upper_bound(U, u)) - 1;
         // if u is not an internal knot, there is nothing to remove
-        if (std::abs(U[r] - u) > knot_eps<T> || r == 0 || r == static_cast<decltype(r)>(U.size()))
+        if (r < 0 || std::abs(U[r] - u) > knot_eps<T> || U[r] == U.front() || U[r] == U.back())
         {
             return size_t{0};
         }
+        // work with the exact knot value, and never remove more than its multiplicity
+        u = U[r];
+        auto s = multiplicity(u, U);
+        num = std::min(num, static_cast<size_t>(s));
         if (num < 1)
         {
             return size_t{0};
         }
 
-        // Find the multiplicity of the knot u
-        auto s = multiplicity(u, U);
-
         int m = static_cast<int>(U.size());
         int ord = static_cast<int>(p) + 1;
         int fout = (2 * r - s - static_cast<int>(p)) / 2; // first control point out
@@ -700,11 +701,12 @@
         // Determine the knot interval that contains u
         auto r = std::distance(U.begin(), std::ranges::upper_bound(U, u)) - 1;
 
-        // if u is not a knot
-        if(std::abs(U[r]-u)>knot_eps<T>)
+        // if u is not an internal knot
+        if(r < 0 || std::abs(U[r]-u)>knot_eps<T> || U[r] == U.front() || U[r] == U.back())
         {
             return false;
         }
+        u = U[r]; // work with the exact knot value
         
         // Find the multiplicity of the knot u
         auto s = multiplicity(u, U);
-- 
2.43.0


From 174d4d26a8a044bf9312ea9b31ae565b1ea43c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:12 +0000
Subject: [PATCH 04/36] fix: integer overflow in binomial_law

The factorials overflow int for n > 12 (and size_t for n > 20): degree
elevation to degree 13 and above, and high order rational derivatives,
returned garbage.
---
 gbs/math.ixx | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/gbs/math.ixx b/gbs/math.ixx
index 4bd6a00..118dfea 100644
--- a/gbs/math.ixx
+++ b/gbs/math.ixx
@@ -60,14 +60,13 @@
     template <typename T,typename L>
     auto binomial_law(L n, L k) -> T
     {
-        if (k == n)
+        // Multiplicative form: factorials overflow integers for n > 12
+        T result{1};
+        for (L i{1}; i <= k; i++)
         {
-            return T(1);
-        }
-        else
-        {
-            return T(factorial(n)) / T(factorial(k) * factorial(n - k));
+            result = result * T(n - k + i) / T(i);
         }
+        return result;
     }
 
     template <typename T>
-- 
2.43.0


From 70b803a6fde35721709b03fe4cc0552b5faf843a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:25 +0000
Subject: [PATCH 05/36] fix: surface trim with swapped parameters left inverted
 U bounds

---
 gbs/bssurf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gbs/bssurf.h b/gbs/bssurf.h
index 36ea035..a170f80 100644
--- a/gbs/bssurf.h
+++ b/gbs/bssurf.h
@@ -980,8 +980,8 @@ namespace gbs
             std::swap(m_knotsFlatsU, new_knotsUFlats);
             std::swap(m_poles, new_poles);
 
-            m_bounds[0] = u1; 
-            m_bounds[1] = u2;
+            m_bounds[0] = std::min(u1, u2);
+            m_bounds[1] = std::max(u1, u2);
         }
 
         /**
-- 
2.43.0


From 2027b603c37dae6a7329fa1074739f938913b587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:25 +0000
Subject: [PATCH 06/36] fix: surface pole access did not match its
 documentation

pole(i, j) used i as the V index and only checked the flattened index;
polesU(j) / polesV(i) read out of bounds on overflow instead of
returning the last row / column.
---
 gbs/bssurf.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/gbs/bssurf.h b/gbs/bssurf.h
index a170f80..60a4bb9 100644
--- a/gbs/bssurf.h
+++ b/gbs/bssurf.h
@@ -672,8 +672,8 @@ namespace gbs
         auto pole(size_t i, size_t j) -> point<T, dim + rational> &
         {
             auto n = nPolesU();
-            auto id = j + i * n;
-            if(id>=m_poles.size())
+            auto id = i + j * n;
+            if(i>=n || j>=nPolesV())
             {
                 throw std::out_of_range("BSSurfaceGeneral::pole(size_t i, size_t j) out of bounds index.");
             }
@@ -691,8 +691,8 @@ namespace gbs
         auto pole(size_t i, size_t j) const -> const point<T, dim + rational> &
         {
             auto n = nPolesU();
-            auto id = j + i * n;
-            if(id>=m_poles.size())
+            auto id = i + j * n;
+            if(i>=n || j>=nPolesV())
             {
                 throw std::out_of_range("BSSurfaceGeneral::pole(size_t i, size_t j) out of bounds index.");
             }
@@ -713,8 +713,9 @@ namespace gbs
             auto n = nPolesU();
             auto m = nPolesV();
             points_vector<T, dim + rational> poles_(n);
+            j = std::min(j, m - 1);
             auto beg_ = std::next(m_poles.begin(), j * n);
-            auto end_ = (j < m) ? std::next(m_poles.begin(), (j + 1) * n) : m_poles.end();
+            auto end_ = std::next(beg_, n);
             std::copy(beg_, end_, poles_.begin());
 
             return poles_;
@@ -735,6 +736,7 @@ namespace gbs
             auto n = nPolesU();
             auto m = nPolesV();
             points_vector<T, dim + rational> poles_(m);
+            i = std::min(i, n - 1);
             for (auto j = 0; j < m; j++)
             {
                 poles_[j] = m_poles[i + j * n];
-- 
2.43.0


From fa87e336e729bae9fa0aa886371bf25caea0f7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:05 +0000
Subject: [PATCH 07/36] fix: adding a dimension to a rational curve or surface
 used the new coordinate as weight

---
 gbs/bsctools.h | 8 +++++++-
 gbs/bsstools.h | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/gbs/bsctools.h b/gbs/bsctools.h
index 5c14fdd..39a35af 100644
--- a/gbs/bsctools.h
+++ b/gbs/bsctools.h
@@ -753,7 +753,13 @@ namespace gbs
             crv.poles().end(),
             poles.begin(),
             [&val](const auto &p_){
-                return add_dimension(p_,val);
+                auto pole = add_dimension(p_,val);
+                if constexpr (rational)
+                { // weight has to stay the last coordinate
+                    pole[dim]   = val * p_.back();
+                    pole.back() = p_.back();
+                }
+                return pole;
             }
         );
         using bs_type = typename std::conditional<rational,BSCurveRational<T, dim+1>,BSCurve<T, dim+1>>::type;
diff --git a/gbs/bsstools.h b/gbs/bsstools.h
index b3aaf47..8fa842e 100644
--- a/gbs/bsstools.h
+++ b/gbs/bsstools.h
@@ -101,7 +101,13 @@ namespace gbs
             poles.begin(),
             [&val](const auto &p_)
             {
-                return add_dimension<T,dim+rational>(p_, val);
+                auto pole = add_dimension<T,dim+rational>(p_, val);
+                if constexpr (rational)
+                { // weight has to stay the last coordinate
+                    pole[dim]   = val * p_.back();
+                    pole.back() = p_.back();
+                }
+                return pole;
             });
         using bs_type = typename std::conditional<rational, BSSurfaceRational<T, dim + 1>, BSSurface<T, dim + 1>>::type;
         return bs_type(poles, srf.knotsFlatsU(), srf.knotsFlatsV(), srf.degreeU(), srf.degreeV());
-- 
2.43.0


From a50d5892b42f2af04883064c99f17cac69d2fff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:40 +0000
Subject: [PATCH 08/36] fix: merge_weights read past the weights when there are
 fewer weights than poles

---
 gbs/basisfunctions.ixx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gbs/basisfunctions.ixx b/gbs/basisfunctions.ixx
index d859dfa..a645a98 100644
--- a/gbs/basisfunctions.ixx
+++ b/gbs/basisfunctions.ixx
@@ -849,6 +849,10 @@
     template <typename T, size_t dim>
     auto merge_weights(const std::vector<std::array<T, dim>> &poles, const std::vector<T> &weights) -> std::vector<std::array<T, dim + 1>>
     {
+        if(poles.size() != weights.size())
+        {
+            throw std::length_error("merge_weights: wrong weights array length.");
+        }
         std::vector<std::array<T, dim + 1>> p(poles.size());
         std::transform(
             GBS_PAR_EXEC
-- 
2.43.0


From d386b431e723c0d6739cb4a8bbef9ee118e23973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:09 +0000
Subject: [PATCH 09/36] fix: Bessel tangents at the end points used chords
 instead of slopes, and the last one itself

---
 gbs/bscinterp.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gbs/bscinterp.h b/gbs/bscinterp.h
index efd36b2..f94cf2b 100644
--- a/gbs/bscinterp.h
+++ b/gbs/bscinterp.h
@@ -80,8 +80,8 @@ auto build_3pt_tg_vec(const std::vector<std::array<T, dim>> &pts,const std::vect
         std::next(D.begin())
         );
 
-    D.front() = T(2.)*q.front() - *std::next(D.begin());
-    D.back()  = T(2.)*q.back()  - *std::next(D.end(),-1);
+    D.front() = T(2.)*d.front() - *std::next(D.begin());
+    D.back()  = T(2.)*d.back()  - *std::next(D.end(),-2);
 
     return D;
 }
@@ -114,7 +114,7 @@ auto build_3pt_tg_dir(const std::vector<std::array<T, dim>> &pts,const std::vect
         );
 
     D.front() = 2.*q.front() - *std::next(D.begin());
-    D.back()  = 2.*q.back()  - *std::next(D.end(),-1);
+    D.back()  = 2.*q.back()  - *std::next(D.end(),-2);
 
     adim(D);
 
-- 
2.43.0


From 57929bfb15ee8a426388be8839b074ab97665cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:09 +0000
Subject: [PATCH 10/36] fix: adim of a list of vectors left the last one
 unscaled

---
 gbs/vecop.ixx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/vecop.ixx b/gbs/vecop.ixx
index c5d9396..be86ab0 100644
--- a/gbs/vecop.ixx
+++ b/gbs/vecop.ixx
@@ -255,7 +255,7 @@
     {
         std::transform(
             GBS_SEQ_EXEC
-            v.begin(), std::next(v.end(), -1),
+            v.begin(), v.end(),
             v.begin(),
             [](const auto &v_) {
                 return v_ / norm(v_);
-- 
2.43.0


From 3be0990cc7e80b94dcc49b3767a0447c026f7096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:00 +0000
Subject: [PATCH 11/36] fix: curve approximations over negative parameters were
 never refined

---
 gbs/bscapprox.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gbs/bscapprox.h b/gbs/bscapprox.h
index 5c35a6d..28a3b2c 100644
--- a/gbs/bscapprox.h
+++ b/gbs/bscapprox.h
@@ -206,7 +206,8 @@ namespace gbs
             // C2: d_max_ used to ignore points near a knot, masking unmet tolerance).
             T d_avg_{}, d_max_{};
             // Knot-insertion candidate: the worst point that is well inside a span.
-            T d_insert{}, u_max{-1};
+            T d_insert{}, u_max{};
+            bool found{false};
             std::vector<T> knots{crv_refined.knotsFlats()};
 
             for(size_t j {} ; j < n_pts ; j++)
@@ -235,6 +236,7 @@ namespace gbs
                     {
                         d_insert = d;
                         u_max = u_;
+                        found = true;
                     }
                 }
             }
@@ -244,7 +246,7 @@ namespace gbs
             // No span is "open enough" for a new knot: we cannot refine further,
             // regardless of whether the tolerance is met -> do not claim convergence,
             // just stop (the returned curve reflects the best we can place).
-            if (u_max < 0)
+            if (!found)
                 break;
 
             auto it = std::lower_bound(knots.begin(), knots.end(), u_max);
-- 
2.43.0


From 62e7b866cf78ba369f14a60101d3d172d0189236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:07 +0000
Subject: [PATCH 12/36] fix: refining an approximation with as many poles as
 points threw length_error

---
 gbs/bscapprox.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gbs/bscapprox.h b/gbs/bscapprox.h
index 28a3b2c..21873ff 100644
--- a/gbs/bscapprox.h
+++ b/gbs/bscapprox.h
@@ -246,7 +246,7 @@ namespace gbs
             // No span is "open enough" for a new knot: we cannot refine further,
             // regardless of whether the tolerance is met -> do not claim convergence,
             // just stop (the returned curve reflects the best we can place).
-            if (!found)
+            if (!found || n_poles >= n_pts)
                 break;
 
             auto it = std::lower_bound(knots.begin(), knots.end(), u_max);
@@ -262,7 +262,7 @@ namespace gbs
             }
             if (
                 (d_max_ < d_max && d_avg_ < d_avg)
-                || n_poles>= pts.size() - 5 // The idea of approximation id to get less pole tha  interpolation
+                || n_poles + 5 >= pts.size() // The idea of approximation id to get less pole tha  interpolation
                 )
                 break;
         }
-- 
2.43.0


From 69c910fdb004b17919acfbb29c091f15e346de8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:59 +0000
Subject: [PATCH 13/36] fix: bulk evaluations terminated the process instead of
 throwing out of the parallel branch

---
 gbs/bscanalysis.h |  3 +--
 gbs/execution.h   | 30 ++++++++++++++++++++++++++++--
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/gbs/bscanalysis.h b/gbs/bscanalysis.h
index 15c73a6..bb67937 100644
--- a/gbs/bscanalysis.h
+++ b/gbs/bscanalysis.h
@@ -506,8 +506,7 @@ namespace gbs
     {
         points_vector<T,dim> points(u_lst.size());
 
-        std::transform(
-            GBS_PAR_EXEC
+        transform_threshold(
             u_lst.begin(),u_lst.end(),points.begin(),
             [d,&crv](T u_){return crv(u_,d);}
         );
diff --git a/gbs/execution.h b/gbs/execution.h
index 68b5a5a..863f2fb 100644
--- a/gbs/execution.h
+++ b/gbs/execution.h
@@ -10,6 +10,7 @@
 #include <vector>     // std::vector (build_batch output)
 #include <type_traits> // std::decay_t (build_batch result type)
 #include <exception>  // std::exception_ptr (build_batch error propagation)
+#include <atomic>     // std::atomic (transform_threshold error propagation)
 
 #include "gbsconstants.h"  // gbs::parallel_min_size
 
@@ -69,7 +70,20 @@ namespace gbs
     OutputIt transform_threshold(InputIt first, InputIt last, OutputIt out, UnaryOp op)
     {
         if (static_cast<std::size_t>(std::distance(first, last)) >= parallel_min_size)
-            return std::transform(GBS_PAR_EXEC first, last, out, op);
+        {
+            // An exception escaping a parallel element function calls std::terminate:
+            // trap it, and let the serial pass below report it to the caller.
+            using Result = std::decay_t<decltype(op(*first))>;
+            std::atomic<bool> failed{false};
+            auto res = std::transform(GBS_PAR_EXEC first, last, out,
+                [&op, &failed](const auto &x) -> Result
+                {
+                    try { return op(x); }
+                    catch (...) { failed = true; return Result{}; }
+                });
+            if (!failed)
+                return res;
+        }
         return std::transform(first, last, out, op);
     }
 
@@ -78,7 +92,19 @@ namespace gbs
     OutputIt transform_threshold(InputIt1 first1, InputIt1 last1, InputIt2 first2, OutputIt out, BinaryOp op)
     {
         if (static_cast<std::size_t>(std::distance(first1, last1)) >= parallel_min_size)
-            return std::transform(GBS_PAR_EXEC first1, last1, first2, out, op);
+        {
+            // As above: exceptions are reported by the serial pass.
+            using Result = std::decay_t<decltype(op(*first1, *first2))>;
+            std::atomic<bool> failed{false};
+            auto res = std::transform(GBS_PAR_EXEC first1, last1, first2, out,
+                [&op, &failed](const auto &x, const auto &y) -> Result
+                {
+                    try { return op(x, y); }
+                    catch (...) { failed = true; return Result{}; }
+                });
+            if (!failed)
+                return res;
+        }
         return std::transform(first1, last1, first2, out, op);
     }
 
-- 
2.43.0


From 17eaf3cf6c5cd977834b1793d7d82019b1c1734a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:52 +0000
Subject: [PATCH 14/36] fix: splitting an interior half-edge left two
 half-edges unlinked and the new vertex with a half-edge of another one

---
 inc/topology/halfEdgeMeshEditors.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/topology/halfEdgeMeshEditors.h b/inc/topology/halfEdgeMeshEditors.h
index b9acf5e..425c2d1 100644
--- a/inc/topology/halfEdgeMeshEditors.h
+++ b/inc/topology/halfEdgeMeshEditors.h
@@ -561,7 +561,6 @@ namespace gbs
         //     new_pt = ( a +b + c + d) / static_cast<T>(4);
         // }
         auto new_vertex = make_shared_h_vertex( new_pt );
-        new_vertex->edge = he;
         auto new_he1    = make_shared_h_edge(new_vertex, hf);
         hf->edge=new_he1;
         chain_edges(new_he1,he);
@@ -592,6 +591,7 @@ namespace gbs
             auto new_he2_opp    = make_shared_h_edge(new_vertex);
             auto new_he3_opp    = make_shared_h_edge(he_prev->vertex);
             link_edges(new_he1_opp, new_he2_opp);
+            link_edges(new_he2, new_he3_opp);
             auto new_hf1_opp_ed_lst = {new_he2_opp,new_he3_opp, he_opp_next};
             auto new_hf1_opp = make_shared_h_face<T,dim>(new_hf1_opp_ed_lst);
 
-- 
2.43.0


From 65695aff7e1de8b5fb1dfb316bed988a23946b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:52 +0000
Subject: [PATCH 15/36] fix: is_boundary of a half-edge vertex was inverted

---
 inc/topology/halfEdgeMeshGeomTests.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/topology/halfEdgeMeshGeomTests.h b/inc/topology/halfEdgeMeshGeomTests.h
index 96aedbb..1c36afa 100644
--- a/inc/topology/halfEdgeMeshGeomTests.h
+++ b/inc/topology/halfEdgeMeshGeomTests.h
@@ -274,11 +274,11 @@ namespace gbs
         {
             if(!current->opposite)
             {
-                return false;
+                return true;
             }
             current = current->opposite->previous;
         }while (current!=start);
 
-        return true;  
+        return false;  
     }
 } // namespace gbs
\ No newline at end of file
-- 
2.43.0


From fcbf2024ee5d8fb25cfcd74d23d58bec345caa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:55 +0000
Subject: [PATCH 16/36] fix: recovering an edge never flipped a convex
 quadrilateral (orientation test inverted)

---
 inc/topology/edgeRecovery.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/topology/edgeRecovery.h b/inc/topology/edgeRecovery.h
index 9411b36..33dcf65 100644
--- a/inc/topology/edgeRecovery.h
+++ b/inc/topology/edgeRecovery.h
@@ -144,7 +144,7 @@ namespace gbs
                 const auto& B = v_b->coords;
                 const auto& C = v_apex1->coords;
                 const auto& D = v_apex2->coords;
-                if (orient_2d(C, B, D) <= tol || orient_2d(D, A, C) <= tol)
+                if (orient_2d(D, B, C) <= tol || orient_2d(C, A, D) <= tol)
                 {
                     ++it;
                     continue; // non-convex or degenerate, defer
-- 
2.43.0


From 90cf1081cd875354eff9754b48b0d2c3115c4ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:55 +0000
Subject: [PATCH 17/36] fix: constrained triangulation lost hull triangles and
 left its faces linked to the removed ones

---
 inc/topology/tessellations.h | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/inc/topology/tessellations.h b/inc/topology/tessellations.h
index 470588b..ebc526b 100644
--- a/inc/topology/tessellations.h
+++ b/inc/topology/tessellations.h
@@ -358,7 +358,6 @@ namespace bw_detail
             all_coords.insert(all_coords.end(), r.begin(), r.end());
 
         auto faces_lst = getEncompassingMesh(all_coords);
-        auto super_vertices = getVerticesVectorFromFaces<T, 2>(faces_lst);
 
         std::vector<std::vector<std::shared_ptr<HalfEdgeVertex<T, 2>>>> ring_vtx(rings.size());
         for (std::size_t r = 0; r < rings.size(); ++r)
@@ -371,11 +370,12 @@ namespace bw_detail
             }
         }
 
-        for (const auto &vtx : super_vertices)
-            remove_faces(faces_lst, vtx);
-        // remove_faces only severs opposite linkages; vertex->edge pointers can
-        // still reference half-edges whose face was deleted. Re-sync them
-        // before any navigation (recoverEdge, findHalfEdge) runs.
+        // The encompassing faces are kept until the constrained edges are
+        // recovered: the points' convex hull is not always covered without
+        // them. They are exterior ones, dropped at last.
+        // vertex->edge pointers can still reference half-edges whose face was
+        // deleted. Re-sync them before any navigation (recoverEdge,
+        // findHalfEdge) runs.
         repairVertexEdges<T, 2>(faces_lst);
 
         // 2. Recover constrained edges (outer + holes); collect both directions
@@ -429,10 +429,19 @@ namespace bw_detail
             }
         }
 
-        // 4. Drop exterior faces (includes faces strictly inside each hole).
+        // 4. Drop exterior faces (includes faces strictly inside each hole),
+        //    no more opposite on the remaining adjacent faces.
         faces_lst.remove_if([&interior](const auto &f) {
-            return interior.find(f.get()) == interior.end();
+            if (interior.find(f.get()) != interior.end())
+                return false;
+            for (const auto &he : getFaceEdges(f))
+            {
+                if (he->opposite)
+                    he->opposite->opposite = nullptr;
+            }
+            return true;
         });
+        repairVertexEdges<T, 2>(faces_lst);
 
         return faces_lst;
     }
-- 
2.43.0


From ef30a5ccb1d204b5eec251abb9f6a6bd8ee73920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:55 +0000
Subject: [PATCH 18/36] fix: the boundary points of a surface mesh ended with
 two undefined ones at the origin

---
 inc/topology/tessellations.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/topology/tessellations.h b/inc/topology/tessellations.h
index ebc526b..2a4ec47 100644
--- a/inc/topology/tessellations.h
+++ b/inc/topology/tessellations.h
@@ -51,7 +51,7 @@ namespace gbs
         std::reverse(begin(v1), end(v1));
         auto v2 = deviation_based_v_params(srf, v1_, v2_, u2_, nv, deviation);
 
-        auto n = u1.size() + u2.size() + v1.size() + v2.size();
+        auto n = u1.size() + u2.size() + v1.size() + v2.size() - 2; // v1 and v2 are taken without their first parameter
         std::vector<std::array<T, 2>> coords(n);
 
         auto coords_begin = coords.begin();
-- 
2.43.0


From fefedbd775701d61e4dc62c5e6b2e16e1972e8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:59 +0000
Subject: [PATCH 19/36] fix: the Delaunay triangulation of points rarely
 covered their convex hull (encompassing mesh too close)

---
 inc/topology/tessellations.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/topology/tessellations.h b/inc/topology/tessellations.h
index 2a4ec47..9a708c2 100644
--- a/inc/topology/tessellations.h
+++ b/inc/topology/tessellations.h
@@ -259,7 +259,7 @@ namespace bw_detail
     template < std::floating_point T>
     auto delaunay2DBoyerWatson(const auto &coords, T tol)
     {
-        auto faces_lst = getEncompassingMesh(coords);
+        auto faces_lst = getEncompassingMesh(coords, T{100000}); // far enough for the convex hull to be covered
         auto vertices = getVerticesVectorFromFaces<T,2>(faces_lst);
         // insert points
         for(const auto &xy : coords)
-- 
2.43.0


From 428d106cb1c4bfd8067708c997e336e4bef2f82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:56 +0000
Subject: [PATCH 20/36] fix: the centre of the sphere through three points was
 wrong

---
 inc/topology/baseGeom.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/inc/topology/baseGeom.h b/inc/topology/baseGeom.h
index c8c7927..538ca31 100644
--- a/inc/topology/baseGeom.h
+++ b/inc/topology/baseGeom.h
@@ -157,20 +157,18 @@ namespace gbs
     std::array<T, 3> sphere_center(const std::array<T, 3>& a, const std::array<T, 3>& b, const std::array<T, 3>& c)
     {
         // Calculate some intermediate values
-        T A = b[0] - a[0], B = b[1] - a[1], C = b[2] - a[2];
-        T D = c[0] - a[0], E = c[1] - a[1], F = c[2] - a[2];
-        T G = A * (E * F - B * F) + B * (D * F - C * F) + C * (B * D - E * D);
-        T H = (A * A + B * B + C * C) * (E * F - D * F) + (D * D + E * E + F * F) * (B * F - C * E) + (A * A + C * C + B * B) * (D * E - B * C);
+        auto ab = b - a;
+        auto ac = c - a;
+        auto n  = ab ^ ac;
+        T G = n * n;
 
-        if (std::abs(G) < std::numeric_limits<T>::epsilon()) {
+        if (G < std::numeric_limits<T>::epsilon()) {
             // Points are collinear, no unique solution exists
             return {{std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::quiet_NaN()}};
         }
 
         // Calculate the x, y, and z coordinates of the sphere's center
-        T center_x = H / (2 * G);
-        T center_y = ((A * A + B * B + C * C) * (D * F - E * F) + (D * D + E * E + F * F) * (C * A - D * B) + (A * A + C * C + B * B) * (E * D - C * B)) / (2 * G);
-        T center_z = ((A * A + B * B + C * C) * (B * E - C * D) + (D * D + E * E + F * F) * (A * C - B * B) + (A * A + C * C + B * B) * (B * D - A * E)) / (2 * G);
+        auto [center_x, center_y, center_z] = a + ((ac * ac) * (n ^ ab) + (ab * ab) * (ac ^ n)) / (2 * G);
 
         // Return the result as a 3D array
         return {{center_x, center_y, center_z}};
-- 
2.43.0


From 09fb9389ef3a0e236f6f2b53f62d8ece99f642e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:05 +0000
Subject: [PATCH 21/36] fix: second derivative of a curve on a surface used d2u
 for both directions

---
 gbs/curveonsurface.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/curveonsurface.h b/gbs/curveonsurface.h
index 503eeae..14ee3ea 100644
--- a/gbs/curveonsurface.h
+++ b/gbs/curveonsurface.h
@@ -53,7 +53,7 @@ namespace gbs
                     auto D2U = p_srf_->value(u_,v_,2,0);
                     auto D2V = p_srf_->value(u_,v_,0,2);
                     auto D2UV = p_srf_->value(u_,v_,1,1);
-                    auto V2 = d2u_ * D1U + d2u_ * D1V + 2 * du_ * dv_ * D2UV;
+                    auto V2 = d2u_ * D1U + d2v_ * D1V + 2 * du_ * dv_ * D2UV;
                     return du_ * du_ * D2U + dv_ * dv_ * D2V + V2;
                 }
                 break;
-- 
2.43.0


From 83656648748f2ef453dd8442bb73e7ed626321ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:05 +0000
Subject: [PATCH 22/36] fix: a circle built from its axis was not in the plane
 orthogonal to it

---
 gbs/curvecircle.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gbs/curvecircle.h b/gbs/curvecircle.h
index 43c7875..e56c777 100644
--- a/gbs/curvecircle.h
+++ b/gbs/curvecircle.h
@@ -16,10 +16,11 @@ namespace gbs
         Circle(T r, const ax2<T, dim> &ax) : r{r}, ax_{{ax[0], ax[1], r / norm(ax[2]) * ax[2] }} {} 
         Circle(T r, const ax1<T, dim> &ax) : r{r} {
             auto z = ax[1];
-            auto i_min_coord_mag = std::distance(z.begin(), std::min_element(z.begin(), z.end()));
+            auto i_min_coord_mag = std::distance(z.begin(), std::min_element(z.begin(), z.end(), [](auto a, auto b){ return std::abs(a) < std::abs(b); }));
             point<T,dim> x{};
-            x[i_min_coord_mag] = r;
-            ax_ = { ax[0], ax[1], x };
+            x[i_min_coord_mag] = 1;
+            x = x - (x * z) / (z * z) * z; // orthogonal to the axis
+            ax_ = { ax[0], ax[1], r / norm(x) * x };
         }
 
         virtual auto bounds() const -> std::array<T, 2> override
-- 
2.43.0


From 3aa7a929ce2ce95aa9af3ce4cfe7c31292f01f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:05 +0000
Subject: [PATCH 23/36] fix: setR had no effect on the points of a circle

---
 gbs/curvecircle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/curvecircle.h b/gbs/curvecircle.h
index e56c777..39afa46 100644
--- a/gbs/curvecircle.h
+++ b/gbs/curvecircle.h
@@ -34,7 +34,7 @@ namespace gbs
         }
 
         auto getR() const noexcept -> T { return r; }
-        auto setR(T r_){r=r_;}
+        auto setR(T r_){r=r_; ax_[2] = r / norm(ax_[2]) * ax_[2];}
         /**
          * @brief Circle starting direction
          * 
-- 
2.43.0


From c5eff347cf351c41f2f02d86714589cc0c9b413b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:05 +0000
Subject: [PATCH 24/36] fix: the bounds of a line excluded its negative half

---
 gbs/curveline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/curveline.h b/gbs/curveline.h
index 905aca5..fb526b7 100644
--- a/gbs/curveline.h
+++ b/gbs/curveline.h
@@ -43,7 +43,7 @@ namespace gbs
         }
         virtual auto bounds() const -> std::array<T, 2> override
         {
-            return {std::numeric_limits<T>::min(),std::numeric_limits<T>::max()};
+            return {std::numeric_limits<T>::lowest(),std::numeric_limits<T>::max()};
         }
 
         auto getAx() const noexcept -> const ax1<T,dim>&
-- 
2.43.0


From 8c800dbee1826e430c0a7850c61bc1a22815126b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:05 +0000
Subject: [PATCH 25/36] fix: change of frame was wrong unless the first frame
 is the reference one

---
 gbs/surfaceofrevolution.h | 4 ++--
 gbs/transformpoints.h     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gbs/surfaceofrevolution.h b/gbs/surfaceofrevolution.h
index 0d51f90..adb18a5 100644
--- a/gbs/surfaceofrevolution.h
+++ b/gbs/surfaceofrevolution.h
@@ -31,8 +31,8 @@ namespace gbs
             M_ = build_trf_matrix<T>(
                 {{
                     {o,o,o},
-                    {o,i,o},
-                    {o,o,i}
+                    {i,o,o}, // curve's x along the axis
+                    {o,i,o}
                 }}
                     ,
                 ax
diff --git a/gbs/transformpoints.h b/gbs/transformpoints.h
index a24845f..640814e 100644
--- a/gbs/transformpoints.h
+++ b/gbs/transformpoints.h
@@ -197,8 +197,8 @@ namespace gbs
         auto [Loc_from, P_from] = build_trf_loc_and_matrix(R_from);
 
         //Explicit types to force convertion
-        Matrix3<T> P          = P_to*P_from;
-        Vector3<T> Loc        = Loc_to - P_to * Loc_from;
+        Matrix3<T> P          = P_to*P_from.transpose();
+        Vector3<T> Loc        = Loc_to - P * Loc_from;
         return std::make_pair(Loc, P);
     }
 
-- 
2.43.0


From bfb3b9688958d3cbca01080f19c0d6352bb6c397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:16 +0000
Subject: [PATCH 26/36] fix: a surface of revolution turned about the origin,
 not its axis

---
 gbs/surfaceofrevolution.h | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/gbs/surfaceofrevolution.h b/gbs/surfaceofrevolution.h
index adb18a5..b42ea79 100644
--- a/gbs/surfaceofrevolution.h
+++ b/gbs/surfaceofrevolution.h
@@ -55,30 +55,17 @@ namespace gbs
          */
         virtual auto value(T u, T v, size_t du = 0, size_t dv = 0) const -> point<T, 3> override
         {
-            point<T,3> pt;
             v = fmod(v,2*std::numbers::pi_v<T>);
-            if(dv==0)
+            auto pt = add_dimension<T,2>(p_crv_->value(u,du),0.);
+            transform(pt,M_);
+            pt = pt - ax_[0]; // relative to the axis location
+            if(dv!=0)
             {
-                auto pt2d = p_crv_->value(u,du) ;
-                pt = add_dimension<T,2>(pt2d,0.);
-                transform(pt,M_);
-            }
-            else
-            {
-                auto pt2d = p_crv_->value(u, du);
-                pt = add_dimension<T, 2>(pt2d, 0.);
-                transform(pt,M_);
-                if (du == 0)
-                {
-                    pt = pt - ax_[0];
-                }
-
                 pt = cross( ax_[1], pt);
                 rotate<T>(pt,(dv-1)*std::numbers::pi_v<T>/2.,ax_[1]);
-
             }
-            return rotated<T>( pt , v, ax_[1]);
-            
+            rotate<T>( pt , v, ax_[1]);
+            return (du == 0 && dv == 0) ? pt + ax_[0] : pt;
         }
         /**
          * @brief return surface's bounds {U1,U2,V1,V2}
-- 
2.43.0


From 0d4ee326c2485f99bb886aa330604cc25e2eba66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:43 +0000
Subject: [PATCH 27/36] fix: derivatives of an offset curve in space were not
 those of its points

---
 gbs/curveoffset.h | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/gbs/curveoffset.h b/gbs/curveoffset.h
index 9c2dc66..3d6973e 100644
--- a/gbs/curveoffset.h
+++ b/gbs/curveoffset.h
@@ -197,12 +197,13 @@ namespace gbs
             {
                 auto crv_d1 = crv.value(u, 1);
                 auto crv_d2 = crv.value(u, 2);
-                auto tangent = normalized(crv_d1);
-                auto normal = normalized(cross(direction_, tangent));
-                auto curvature = cross(crv_d1, crv_d2) / (std::pow(norm(crv_d1), 3));
-                auto normal_derivative = normalized(curvature * off(u, 0));
-                auto off_d1 = off(u, 1);
-                return crv_d1 + normal_derivative * off_d1;
+                // normal = n / l, n and l derived once
+                auto n  = cross(direction_, crv_d1);
+                auto n1 = cross(direction_, crv_d2);
+                auto l = norm(n);
+                auto normal = n / l;
+                auto normal_d1 = (n1 - (normal * n1) * normal) / l;
+                return crv_d1 + normal_d1 * off(u, 0) + normal * off(u, 1);
             }
             break;
         case 2:
@@ -210,17 +211,17 @@ namespace gbs
                 auto crv_d1 = crv.value(u, 1);
                 auto crv_d2 = crv.value(u, 2);
                 auto crv_d3 = crv.value(u, 3);
-                auto tangent = normalized(crv_d1);
-                auto normal = normalized(cross(direction_, tangent));
-                auto curvature = cross(crv_d1, crv_d2) / (std::pow(norm(crv_d1), 3));
-                auto normal_derivative = normalized(curvature * off(u, 0));
-
-                auto d2t = (crv_d2 - ( crv_d2 * tangent) * tangent) / norm(crv_d1);
-                auto d2n = cross(d2t, direction_) + cross(tangent, cross(crv_d2, direction_));
-                auto off_d1 = off(u, 1);
-                auto off_d2 = off(u, 2);
-
-                return crv_d2 + d2n * off_d1 + normal_derivative * off_d2;
+                // normal = n / l, n and l derived twice
+                auto n  = cross(direction_, crv_d1);
+                auto n1 = cross(direction_, crv_d2);
+                auto n2 = cross(direction_, crv_d3);
+                auto l = norm(n);
+                auto normal = n / l;
+                auto l1 = normal * n1;
+                auto normal_d1 = (n1 - l1 * normal) / l;
+                auto l2 = normal_d1 * n1 + normal * n2;
+                auto normal_d2 = (n2 - l2 * normal - T(2) * l1 * normal_d1) / l;
+                return crv_d2 + normal_d2 * off(u, 0) + T(2) * normal_d1 * off(u, 1) + normal * off(u, 2);
             }
             break;
         default:
-- 
2.43.0


From ef2b1baa28733bd347745c1cd5ddc3534b24a177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:43 +0000
Subject: [PATCH 28/36] fix: evaluation of a composite curve before its start
 read outside of its curves

---
 gbs/curvecomposite.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/curvecomposite.h b/gbs/curvecomposite.h
index fd12436..5fa2641 100644
--- a/gbs/curvecomposite.h
+++ b/gbs/curvecomposite.h
@@ -33,7 +33,7 @@ namespace gbs
             {
                 pos = std::next(pos, -2);
             }
-            else
+            else if (pos != u_.begin()) // before the start: left to the first curve
             {
                 pos = std::next(pos, -1);
             }
-- 
2.43.0


From 8590a5b0ef0119cbbf0977977e555d305918ebc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:10 +0000
Subject: [PATCH 29/36] fix: a loft along a spine missed its sections when they
 were not evenly spaced

---
 gbs/bssbuild.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gbs/bssbuild.h b/gbs/bssbuild.h
index 1a57cbe..1b5cb29 100644
--- a/gbs/bssbuild.h
+++ b/gbs/bssbuild.h
@@ -235,7 +235,12 @@ namespace gbs
         // interpolate poles
         constexpr size_t dim_t = dim + rational;
         size_t q = std::max(std::min(v_degree_max, n_poles_v - 1), size_t{1}); // degree V, clamped to a valid range
-        auto kv_flat = build_simple_mult_flat_knots<T>(v.front(),v.back(),n_poles_v * 2,q); //dif
+        // each section fixes two rows of poles: knots averaged over the doubled parameters, so that the system
+        // stays regular whatever the spacing of the sections (a degree 1 has no tangent of its own)
+        std::vector<T> v_doubled;
+        for (const auto v_ : v) { v_doubled.push_back(v_); v_doubled.push_back(v_); }
+        auto kv_flat = q > 1 ? build_simple_mult_flat_knots<T>(v_doubled, q)
+                             : build_simple_mult_flat_knots<T>(v.front(),v.back(),n_poles_v * 2,q);
 
         // One constraint column per u-pole: at each section, position + spine
         // tangent (nc == 2). Assemble them straight into the shared loft core's RHS
-- 
2.43.0


From c143efbe80d1213c3338331f0ecbd6867dc05d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:10 +0000
Subject: [PATCH 30/36] fix: gordon ended the process when curves of the two
 sets do not meet, instead of throwing

---
 gbs/bssbuild.h | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/gbs/bssbuild.h b/gbs/bssbuild.h
index 1b5cb29..2495e60 100644
--- a/gbs/bssbuild.h
+++ b/gbs/bssbuild.h
@@ -487,26 +487,20 @@ namespace gbs
     template <typename T, size_t dim, typename InputIt>
     auto build_intersections(InputIt first_curve, InputIt last_curve, const Curve<T, dim> &crv, T tol = extrema_tol<T>) -> std::vector<T>
     {
-        auto nu = std::distance(first_curve, last_curve);
-        std::vector<T> u(nu);
+        std::vector<InputIt> curves;
+        for (auto it = first_curve; it != last_curve; ++it) curves.push_back(it);
 
         // Compute intersections
-        auto f_intersection = [tol, &crv](const auto &crv_) {
-            auto [u_, v_, d] = extrema_curve_curve( crv, conditional_dereference(crv_), tol);
+        auto f_intersection = [tol, &crv](const auto &it) {
+            auto [u_, v_, d] = extrema_curve_curve( crv, conditional_dereference(*it), tol);
             if (d > tol) {
                 throw std::invalid_argument("A curve from set is not touching the curve. Distance is: "+std::to_string(d));
             }
             return u_;
         };
 
-        std::transform(
-            GBS_PAR_EXEC
-            first_curve, last_curve,
-            u.begin(),
-            f_intersection
-        );
-
-        return u;
+        // a throw must not escape from a parallel algorithm
+        return build_batch(curves, f_intersection, 2);
     }
 
     /**
-- 
2.43.0


From ea19c00c01b9c9eea788e29cc9abd3eaa978281e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:19 +0000
Subject: [PATCH 31/36] fix: gradients of the distances curve to curve and
 surface to curve

---
 gbs/extrema.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gbs/extrema.h b/gbs/extrema.h
index 02d30d0..7677dc2 100644
--- a/gbs/extrema.h
+++ b/gbs/extrema.h
@@ -158,7 +158,7 @@ namespace gbs
         {
             auto f_ = crv1(x[0])-crv2(x[1]);
             auto dfdu = 2.*crv1(x[0],1)* f_;
-            auto dfdv = 2.*crv2(x[1],1)* f_;
+            auto dfdv =-2.*crv2(x[1],1)* f_;
             return std::vector<double>{2. * r[0] * dfdu,2. * r[0] * dfdv};
         };
 
@@ -262,8 +262,8 @@ namespace gbs
         {
             auto f_ = crv(x[0])-srf(x[1],x[2]);
             auto dfduc = 2.*crv(x[0],1)  * f_;
-            auto dfdus =-2.*srf(x[1],1,0)* f_;
-            auto dfdvs =-2.*srf(x[2],0,1)* f_;
+            auto dfdus =-2.*srf(x[1],x[2],1,0)* f_;
+            auto dfdvs =-2.*srf(x[1],x[2],0,1)* f_;
             return std::vector<double>{2. * r[0] * dfduc,2. * r[0] * dfdus,2. * r[0] * dfdvs};
         };
 
-- 
2.43.0


From ccf58aa25f817ab0c417838c4a6978fa1bd9d473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:19 +0000
Subject: [PATCH 32/36] fix: extrema_surf_curve started its search from mixed
 up parameters

---
 gbs/extrema.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/extrema.h b/gbs/extrema.h
index 7677dc2..056b804 100644
--- a/gbs/extrema.h
+++ b/gbs/extrema.h
@@ -291,7 +291,7 @@ namespace gbs
             return sq_norm(srf(u1, v1)-crv(w1)) < sq_norm(srf(u2, v2)-crv(w2));
         };
         auto [u0, v0, w0 ] = *std::min_element(GBS_PAR_EXEC uvw.begin(), uvw.end(), comp);
-        return extrema_surf_curve(srf, crv, u0, v0, w0, tol_x, solver);
+        return extrema_surf_curve(srf, crv, w0, u0, v0, tol_x, solver);
     }
 
     template <typename T, size_t dim>
-- 
2.43.0


From aee080e83ceb32ee3a8bd6994414c114daea7302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:11 +0000
Subject: [PATCH 33/36] fix: a closest point search could cycle for ever

---
 gbs/solvers.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gbs/solvers.h b/gbs/solvers.h
index 70195d5..279dd61 100644
--- a/gbs/solvers.h
+++ b/gbs/solvers.h
@@ -12,6 +12,9 @@
 #endif
 namespace gbs
 {
+    // Evaluations after which a solver gives its best result so far
+    inline constexpr int max_solver_eval = 100000;
+
     template <typename F>
     struct N_UserData
     {
@@ -44,6 +47,7 @@ namespace gbs
         opt.set_upper_bounds(hb_d);
         opt.set_min_objective(eq_, &data);
         opt.set_xtol_rel(tol_x);
+        opt.set_maxeval(max_solver_eval); // COBYLA may cycle for ever
 
         double minf;
 
@@ -89,6 +93,7 @@ namespace gbs
         opt.set_upper_bounds(hb_d);
         opt.set_min_objective(eq_, &data);
         opt.set_xtol_rel(tol_x);
+        opt.set_maxeval(max_solver_eval); // COBYLA may cycle for ever
 
         double minf;
 
-- 
2.43.0


From d3c11133fd6ea4d0e6da37c9015b043a0f8aadd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:25 +0000
Subject: [PATCH 34/36] fix: extrema_curve_curve_lst ignored its solver and
 numbers of samples

---
 gbs/extrema.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gbs/extrema.h b/gbs/extrema.h
index 056b804..561ed7c 100644
--- a/gbs/extrema.h
+++ b/gbs/extrema.h
@@ -242,8 +242,8 @@ namespace gbs
             GBS_PAR_EXEC
             first, last,
             intersection_info.begin(),
-            [&crv,tol_x](const auto &crv_){
-                return extrema_curve_curve(crv, *crv_, tol_x);
+            [&](const auto &crv_){
+                return extrema_curve_curve(crv, *crv_, tol_x, solver, n_bracket_u, n_bracket_v);
             }
         );
         return intersection_info;
-- 
2.43.0


From acc7472b410af8027b9459e785a86a9b0e32185a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:37 +0000
Subject: [PATCH 35/36] fix: adaptive stations used an iterator after inserting
 before it

---
 gbs/bscanalysis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/bscanalysis.h b/gbs/bscanalysis.h
index bb67937..418ea00 100644
--- a/gbs/bscanalysis.h
+++ b/gbs/bscanalysis.h
@@ -200,7 +200,7 @@ namespace gbs
                 if (curv_diff > tolerance)
                 {
                     inserted = true;
-                    u.insert(it_u3, mid_u);
+                    it_u3 = u.insert(it_u3, mid_u);
                 }
                 it_u1 = it_u3;
                 it_u3 = std::next(it_u1);
-- 
2.43.0


From 2dc8863636eba771986c341123b2c31e7e7839eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:37 +0000
Subject: [PATCH 36/36] fix: closest_curve and closest_p_curve called a
 function that does not exist

---
 gbs/bscanalysis.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gbs/bscanalysis.h b/gbs/bscanalysis.h
index 418ea00..a48817f 100644
--- a/gbs/bscanalysis.h
+++ b/gbs/bscanalysis.h
@@ -661,7 +661,7 @@ namespace gbs
             curve_begin, curve_end,
             [&pt, tol](const auto &c1, const auto &c2)
             {
-                return extrema_curve_point(c1, pt, c1.midPoint(), tol)[1] < extrema_curve_point(c2, pt, c2.midPoint(), tol)[1];
+                return extrema_curve_point(c1, pt, c1.midPosition(), tol)[1] < extrema_curve_point(c2, pt, c2.midPosition(), tol)[1];
             });
     }
 /**
@@ -683,7 +683,7 @@ namespace gbs
             curve_begin, curve_end,
             [&pt, tol](const auto &c1, const auto &c2)
             {
-                return extrema_curve_point(*c1, pt, c1->midPoint(), tol)[1] < extrema_curve_point(*c2, pt, c2->midPoint(), tol)[1];
+                return extrema_curve_point(*c1, pt, c1->midPosition(), tol)[1] < extrema_curve_point(*c2, pt, c2->midPosition(), tol)[1];
             });
     }
 
-- 
2.43.0

