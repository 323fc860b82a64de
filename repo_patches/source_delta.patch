From d62f738129ff314155f29321d2b3cf7229136f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:22 +0000
Subject: [PATCH 01/18] fix: sectors under construction are released when the
 potential throws or memory runs out

automaticNextSector held its sectors through raw pointers, so an exception thrown by the potential (or std::bad_alloc) leaked the
sector being refined.
---
 matslise/util/sectorbuilder.cpp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/matslise/util/sectorbuilder.cpp b/matslise/util/sectorbuilder.cpp
index b4c9ffc..2866bd2 100644
--- a/matslise/util/sectorbuilder.cpp
+++ b/matslise/util/sectorbuilder.cpp
@@ -10,13 +10,13 @@ using std::unique_ptr;
 using std::vector;
 
 template<typename Scalar, typename Problem>
-static typename Problem::Sector *
+static unique_ptr<typename Problem::Sector>
 refineSector(const typename Problem::Sector &sector, const Problem *problem, const Scalar &min, const Scalar &max,
              Direction direction) {
     if constexpr(Problem::refineSectors) {
-        return sector.refine(problem, min, max, direction);
+        return unique_ptr<typename Problem::Sector>(sector.refine(problem, min, max, direction));
     } else {
-        return new typename Problem::Sector(problem, min, max, direction);
+        return std::make_unique<typename Problem::Sector>(problem, min, max, direction);
     }
 }
 
@@ -53,7 +53,7 @@ UniformSectorBuilder<Problem, Scalar>::operator()(const Problem *problem, const
 }
 
 template<typename Problem>
-typename Problem::Sector *automaticNextSector(
+unique_ptr<typename Problem::Sector> automaticNextSector(
         const Problem *ms, typename Problem::Scalar &h,
         const typename Problem::Scalar &left, const typename Problem::Scalar &right,
         const typename Problem::Scalar &tolerance, Direction direction) {
@@ -68,7 +68,7 @@ typename Problem::Sector *automaticNextSector(
     }
     h = xmax - xmin;
     int steps = 0;
-    Sector *s = new Sector(ms, xmin, xmax, direction);
+    auto s = std::make_unique<Sector>(ms, xmin, xmax, direction);
     Scalar error = s->error();
     while (error > tolerance && steps < 10 && h > 1e-3) {
         ++steps;
@@ -78,10 +78,8 @@ typename Problem::Sector *automaticNextSector(
         } else {
             xmin = xmax - h;
         }
-        Sector *prevSector = s;
-        s = refineSector<Scalar, Problem>(*prevSector, ms, xmin, xmax, direction);
+        s = refineSector<Scalar, Problem>(*s, ms, xmin, xmax, direction);
         h = xmax - xmin;
-        delete prevSector;
         error = s->error();
     }
     if constexpr(Sector::expensive) {
@@ -115,17 +113,15 @@ typename Problem::Sector *automaticNextSector(
                     }
                 }
                 h = xmax - xmin;
-                auto *newSector = refineSector<Scalar, Problem>(
+                auto newSector = refineSector<Scalar, Problem>(
                         *s, ms, xmin, xmax, direction);
                 error = newSector->error();
 
                 if (error > tolerance) {
                     h = s->max - s->min;
-                    delete newSector;
                     break;
                 } else {
-                    delete s;
-                    s = newSector;
+                    s = std::move(newSector);
                 }
             }
         }
-- 
2.43.0


From 73c3f8547b9b68a4ad14cd35ea86544da23b5c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:22 +0000
Subject: [PATCH 02/18] fix: sign of half-range eigenfunctions evaluated in a
 single negative point

The derivative of an even function is odd and the other way around; the evaluation in an array of points already did this.
---
 matslise/matslise/halfrange.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matslise/matslise/halfrange.cpp b/matslise/matslise/halfrange.cpp
index 30af658..9c538e3 100644
--- a/matslise/matslise/halfrange.cpp
+++ b/matslise/matslise/halfrange.cpp
@@ -47,8 +47,8 @@ public:
     virtual Array<Scalar, 2, 1> operator()(const Scalar &x) const override {
         Array<Scalar, 2, 1> c = (*eigenfunction)(x < 0 ? -x : x);
         c *= sqrt(Scalar(.5));
-        if (x < 0 && !even)
-            c *= -1;
+        if (x < 0)
+            c[even ? 1 : 0] *= -1;
         return c;
     }
 
-- 
2.43.0


From b09a18e2e939b8aa84acbe3b3a047e08aa7d42f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:22 +0000
Subject: [PATCH 03/18] fix: PeriodicMatslise does not write to standard output

eigenfunction() printed its intermediate results, changing the formatting state of std::cout from whatever thread it ran in; the
warning of eigenvaluePair goes to std::cerr like the other warnings.
---
 matslise/matslise/periodic.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/matslise/matslise/periodic.cpp b/matslise/matslise/periodic.cpp
index 1cf9387..fe3e3d7 100644
--- a/matslise/matslise/periodic.cpp
+++ b/matslise/matslise/periodic.cpp
@@ -90,7 +90,7 @@ pair<Scalar, Scalar> eigenvaluePair(const PeriodicMatslise<Scalar> *ms, Scalar E
 
     Scalar midError = fError(mid);
     if (same_sign(minError, midError)) {
-        if (abs(midError) > eps) cout << "PeriodicMatslise::eigenvaluePair wrong result" << endl;
+        if (abs(midError) > eps) cerr << "PeriodicMatslise::eigenvaluePair wrong result" << endl;
         return {mid, mid};
     } else {
         return {binarySearch(Emin, mid, fError, eps, minError), binarySearch(mid, Emax, fError, eps, midError)};
@@ -238,16 +238,12 @@ PeriodicMatslise<Scalar>::eigenfunction(const Scalar &E) const {
     Y<Scalar, 1, 2> l = propagate(E, periodicInitialValue<Scalar>(), matslise.domain.min, match).first;
     Y<Scalar, 1, 2> r = propagate(E, periodicInitialValue<Scalar>(K), matslise.domain.max, match).first;
     Matrix<Scalar, 2, 2> err = (l.y() - r.y());
-    cout << err << endl;
 
     EigenSolver<Matrix<Scalar, 2, 2>> solver(err, true);
     Matrix<complex<Scalar>, 2, 1> eigenvalues = solver.eigenvalues();
     Matrix<complex<Scalar>, 2, 2> eigenvectors = solver.eigenvectors();
 
     vector<unique_ptr<typename PeriodicMatslise<Scalar>::Eigenfunction>> result;
-    cout << "eigenvalues: " << eigenvalues.transpose() << endl;
-    cout << eigenvectors << endl;
-    cout << endl;
     result.reserve(2);
     if (norm(eigenvalues[0]) < 1e-4) {
         Y<Scalar> boundary;
-- 
2.43.0


From a6378582b5384e2a526399ec100e8b93c5f3ae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:49 +0000
Subject: [PATCH 04/18] fix: Matslise::eigenvaluesByIndex ends when no upper
 bound exists

With NaN in the sectors (potential returning NaN or inf) the search for an upper bound doubled Emax forever.
---
 matslise/matslise/matslise.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index 770d1b3..d152060 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -149,6 +149,8 @@ Matslise<Scalar>::eigenvaluesByIndex(int Imin, int Imax, const Y<Scalar> &left,
     Scalar Emax = 1;
     while (true) {
         Scalar t = get<2>(matchingError(Emax, left, right)) / constants<Scalar>::PI;
+        if (isnan(t) || isinf(Emax))
+            throw runtime_error("Matslise::eigenvaluesByIndex(): no upper bound for the eigenvalues could be found");
         int i = (int) floor(t);
         if (i >= Imax)
             break;
-- 
2.43.0


From c4d812a9c8b259f821aef415c6f921baa9488cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:49 +0000
Subject: [PATCH 05/18] fix: Matscs::propagatePsi checks its end points

Like propagate and propagateColumn; a point outside of the interval read sectors[-1].
---
 matslise/matscs/matscs.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/matslise/matscs/matscs.cpp b/matslise/matscs/matscs.cpp
index 8dd09f7..b318ba7 100644
--- a/matslise/matscs/matscs.cpp
+++ b/matslise/matscs/matscs.cpp
@@ -56,6 +56,8 @@ Matscs<Scalar>::propagate(const Scalar &E, const Y<Scalar, Dynamic> &_y,
 template<typename Scalar>
 Matrix<Scalar, Dynamic, Dynamic> Matscs<Scalar>::propagatePsi(
         const Scalar &E, const Matrix<Scalar, Dynamic, Dynamic> &_psi, const Scalar &a, const Scalar &b) const {
+    if (!contains(a) || !contains(b))
+        throw runtime_error("Matscs::propagatePsi(): a and b should be in the interval");
     Matrix<Scalar, Dynamic, Dynamic> psi = _psi;
 
     int sectorIndex = find_sector<Matscs<Scalar>>(this, a);
-- 
2.43.0


From 79d82601f8845d73fbab65b180419726ffac637c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:49 +0000
Subject: [PATCH 06/18] fix: Matscs::eigenfunction releases its result when an
 allocation fails

---
 matslise/matscs/matscs.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matslise/matscs/matscs.cpp b/matslise/matscs/matscs.cpp
index b318ba7..961fd08 100644
--- a/matslise/matscs/matscs.cpp
+++ b/matslise/matscs/matscs.cpp
@@ -77,7 +77,7 @@ Matrix<Scalar, Dynamic, Dynamic> Matscs<Scalar>::propagatePsi(
 template<typename Scalar>
 vector<Y<Scalar, Dynamic>> *Matscs<Scalar>::eigenfunction(const Scalar &E, vector<Scalar> &x) const {
     sort(x.begin(), x.end());
-    auto *ys = new vector<Y<Scalar, Dynamic>>();
+    auto ys = make_unique<vector<Y<Scalar, Dynamic>>>();
 
     auto iterator = x.begin();
 
@@ -101,7 +101,7 @@ vector<Y<Scalar, Dynamic>> *Matscs<Scalar>::eigenfunction(const Scalar &E, vecto
     while (iterator != x.end() && *iterator > xmax + EPS)
         iterator = x.erase(iterator);
 
-    return ys;
+    return ys.release();
 }
 
 #define INSTANTIATE_PROPAGATE(Scalar, r)\
-- 
2.43.0


From 18223d84444b81843e5ad410c6dc80b2293b87c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:49 +0000
Subject: [PATCH 07/18] fix: virtual destructor for SectorBuilder

It is a polymorphic base class (the Python module stores builders behind pointers to it).
---
 matslise/util/sectorbuilder.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/matslise/util/sectorbuilder.h b/matslise/util/sectorbuilder.h
index d8e4758..5066e95 100644
--- a/matslise/util/sectorbuilder.h
+++ b/matslise/util/sectorbuilder.h
@@ -17,6 +17,8 @@ namespace matslise::sector_builder {
     public:
         virtual SectorBuilderReturn<Problem>
         operator()(const Problem *, const Scalar &min, const Scalar &max) const = 0;
+
+        virtual ~SectorBuilder() = default;
     };
 
     template<typename Problem, typename Scalar=typename Problem::Scalar>
-- 
2.43.0


From 7edffc19b5b044c9fb41d6411a9be4c206f82165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:15 +0000
Subject: [PATCH 08/18] fix: LiouvilleTransformation ends when p or w are not
 finite and positive

The piece containing NaN was split forever, growing the list of pieces until memory ran out.
---
 matslise/liouville/liouville.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/matslise/liouville/liouville.cpp b/matslise/liouville/liouville.cpp
index 251ba41..433b924 100644
--- a/matslise/liouville/liouville.cpp
+++ b/matslise/liouville/liouville.cpp
@@ -1,4 +1,5 @@
 #include <math.h>
+#include <stdexcept>
 #include <vector>
 #include "../liouville.h"
 #include "../util/legendre.h"
@@ -112,6 +113,9 @@ constructPiecewise(const LiouvilleTransformation<Scalar> &lt) {
             pieces.push_back(right);
             xMin = right.x.max;
         } else {
+            if (!(next.r.min < rMid && rMid < next.r.max
+                  && next.r.max - next.r.min > Scalar(1e-32) * (lt.rDomain().max - lt.rDomain().min)))
+                throw std::runtime_error("LiouvilleTransformation: p and w have to be finite and positive");
             toDo.pop_back();
             toDo.push_back(right);
             toDo.push_back(left);
-- 
2.43.0


From 9d77432c6af0fb35d445286817991a13568427ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:11 +0000
Subject: [PATCH 09/18] fix: Matscs::Sector does not hand non-finite matrices
 to the eigenvalue solver

---
 matslise/matscs/sector.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/matslise/matscs/sector.cpp b/matslise/matscs/sector.cpp
index eaac019..bdcd589 100644
--- a/matslise/matscs/sector.cpp
+++ b/matslise/matscs/sector.cpp
@@ -1,4 +1,5 @@
 #include <functional>
+#include <limits>
 #include "../matscs.h"
 #include "matscs_formulas.h"
 #include "../util/legendre.h"
@@ -147,7 +148,11 @@ typename Matscs<Scalar>::MatrixXcs Matscs<Scalar>::Sector::theta(const Y<Scalar,
 }
 
 template<typename Scalar, typename InputMatrix>
-inline Array<Scalar, Dynamic, 1> angle(const InputMatrix &m) {
+inline Array<Scalar, Dynamic, 1> angle(const InputMatrix &input) {
+    const Matrix<complex<Scalar>, Dynamic, Dynamic> m = input;
+    // the complex eigenvalue solver of Eigen may read outside the matrix when it does not converge
+    if (!m.allFinite())
+        return Array<Scalar, Dynamic, 1>::Constant(m.rows(), std::numeric_limits<Scalar>::quiet_NaN());
     Array<Scalar, Dynamic, 1> angles = m.eigenvalues().array().arg();
 
     const Scalar PI2 = constants<Scalar>::PI * 2;
-- 
2.43.0


From 7ac27bc5e7c000ee1f380037519f757a159cba2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:37 +0000
Subject: [PATCH 10/18] fix: LiouvilleTransformation does not refine below the
 rounding errors for large p and w

---
 matslise/liouville/liouville.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/matslise/liouville/liouville.cpp b/matslise/liouville/liouville.cpp
index 433b924..3d01eaf 100644
--- a/matslise/liouville/liouville.cpp
+++ b/matslise/liouville/liouville.cpp
@@ -1,4 +1,5 @@
 #include <math.h>
+#include <algorithm>
 #include <stdexcept>
 #include <vector>
 #include "../liouville.h"
@@ -92,6 +93,9 @@ constructPiecewise(const LiouvilleTransformation<Scalar> &lt) {
         Piece right{lt, {rMid, next.r.max}};
         setXMin(right, left.x.max);
 
+        // differences of pwx can not be more accurate than the rounding errors on pwx itself
+        const Scalar pwScale = std::max({Scalar(1), abs(next.pwx(0)), abs(next.pwx(1))});
+
         if ((next.x.max - next.x.min) < 1e-8 || (
                 relError(right.x.max, next.x.max) < 1e-14
                 && pieceError<Scalar>([](const Piece &p) {
@@ -104,8 +108,8 @@ constructPiecewise(const LiouvilleTransformation<Scalar> &lt) {
                 && pieceError<Scalar>([](const Piece &p) {
                     return p.pwx.integral(1) * (p.x.max - p.x.min);
                 }, next, left, right) < 1e-14
-                && pieceError<Scalar>([](const Piece &p) {
-                    return p.pwx(1) - p.pwx(0);
+                && pieceError<Scalar>([&pwScale](const Piece &p) {
+                    return (p.pwx(1) - p.pwx(0)) / pwScale;
                 }, next, left, right) < 1e-12
         )) {
             toDo.pop_back();
-- 
2.43.0


From 80c40123c62f47c098b49add287d8bea58614c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:57 +0000
Subject: [PATCH 11/18] fix: LiouvilleTransformation refuses pieces that are
 not finite or not in order

---
 matslise/liouville/liouville.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/matslise/liouville/liouville.cpp b/matslise/liouville/liouville.cpp
index 3d01eaf..a4e47a8 100644
--- a/matslise/liouville/liouville.cpp
+++ b/matslise/liouville/liouville.cpp
@@ -1,5 +1,6 @@
 #include <math.h>
 #include <algorithm>
+#include <limits>
 #include <stdexcept>
 #include <vector>
 #include "../liouville.h"
@@ -112,6 +113,9 @@ constructPiecewise(const LiouvilleTransformation<Scalar> &lt) {
                     return (p.pwx(1) - p.pwx(0)) / pwScale;
                 }, next, left, right) < 1e-12
         )) {
+            if (!(xMin <= left.x.max && left.x.max <= right.x.max
+                  && right.x.max <= std::numeric_limits<Scalar>::max()))
+                throw std::runtime_error("LiouvilleTransformation: p and w have to be finite and positive");
             toDo.pop_back();
             pieces.push_back(left);
             pieces.push_back(right);
-- 
2.43.0


From fb7bbc76286617bf0665d1bd7d1092802f991ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:57 +0000
Subject: [PATCH 12/18] fix: AutomaticSectorBuilder ends on intervals it can
 not divide

---
 matslise/util/sectorbuilder.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/matslise/util/sectorbuilder.cpp b/matslise/util/sectorbuilder.cpp
index 2866bd2..bdbb7aa 100644
--- a/matslise/util/sectorbuilder.cpp
+++ b/matslise/util/sectorbuilder.cpp
@@ -1,8 +1,12 @@
 #include "../matslise.h"
 #include "./sectorbuilder.h"
 #include <algorithm>
+#include <stdexcept>
 #include <tuple>
 
+// Sectors have a minimal width: on an interval that is much too long their number would only be limited by the memory
+#define MAX_SECTORS 1000000
+
 
 using namespace matslise;
 using namespace matslise::sector_builder;
@@ -66,6 +70,8 @@ unique_ptr<typename Problem::Sector> automaticNextSector(
     } else if (direction == backward && xmin < left) {
         xmin = left;
     }
+    if (left != right && !(xmin < xmax || xmin > xmax))
+        throw std::runtime_error("AutomaticSectorBuilder: the interval can not be divided into sectors.");
     h = xmax - xmin;
     int steps = 0;
     auto s = std::make_unique<Sector>(ms, xmin, xmax, direction);
@@ -159,6 +165,8 @@ AutomaticSectorBuilder<Problem, Scalar>::operator()(const Problem *problem, cons
 
 
     while (forward.back()->max != backward.back()->min) {
+        if (forward.size() + backward.size() >= MAX_SECTORS)
+            throw std::runtime_error("AutomaticSectorBuilder: too many sectors needed.");
         if (Sector::compare(*backward.back(), *forward.back())) {
             if (forward.back()->max == nextForwardJump())
                 ++forwardJumpPosition;
-- 
2.43.0


From 7e9e63ac7f86b347f6cd6f25c64d2d327a10f88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:17 +0000
Subject: [PATCH 13/18] fix: searches for eigenvalue bounds end when no bounds
 exist

---
 matslise/matslise/matslise.cpp |  2 ++
 matslise/matslise/periodic.cpp | 28 ++++++++++++++++++++++------
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index d152060..f04e2cc 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -163,6 +163,8 @@ Matslise<Scalar>::eigenvaluesByIndex(int Imin, int Imax, const Y<Scalar> &left,
     if (Emin == -1) {
         while (true) {
             Scalar t = get<2>(matchingError(Emin, left, right)) / constants<Scalar>::PI;
+            if (isinf(Emin))
+                throw runtime_error("Matslise::eigenvaluesByIndex(): no lower bound for the eigenvalues could be found");
             int i = (int) ceil(t);
             if (i <= Imin)
                 break;
diff --git a/matslise/matslise/periodic.cpp b/matslise/matslise/periodic.cpp
index fe3e3d7..2a16e37 100644
--- a/matslise/matslise/periodic.cpp
+++ b/matslise/matslise/periodic.cpp
@@ -57,7 +57,7 @@ bool same_sign(const T &a, const T &b) {
 template<typename Scalar, typename Func, typename FuncRet = decltype(declval<Func>()(declval<Scalar>()))>
 Scalar binarySearch(Scalar eMin, Scalar eMax, const Func &f, const Scalar &eps, FuncRet fMin) {
     Scalar mid = (eMin + eMax) / 2;
-    while (eMax - eMin > (abs(eMin) < 1 ? eps : eps * abs(eMin))) {
+    while (eMax - eMin > (abs(eMin) < 1 ? eps : eps * abs(eMin)) && eMin < mid && mid < eMax) {
         FuncRet fMid = f(mid);
         if (same_sign(fMin, fMid)) {
             fMin = fMid;
@@ -97,6 +97,12 @@ pair<Scalar, Scalar> eigenvaluePair(const PeriodicMatslise<Scalar> *ms, Scalar E
     }
 }
 
+template<typename Scalar>
+void checkBound(const Scalar &E) {
+    if (isnan(E) || isinf(E))
+        throw runtime_error("PeriodicMatslise: no bounds for the eigenvalues could be found");
+}
+
 template<typename Scalar, bool with_eigenfunctions>
 struct EigenpairsReturn {
     using type = vector<tuple<int, Scalar, std::conditional_t<with_eigenfunctions, vector<unique_ptr<typename PeriodicMatslise<Scalar>::Eigenfunction>>, int>>>;
@@ -145,8 +151,10 @@ eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, Scalar eMin, Scalar eMax, i
     };
 
     Scalar highest = eMax;
-    for (Scalar step = 1; findHigh(iMax + 1)(highest) < 0; step *= 2)
+    for (Scalar step = 1; findHigh(iMax + 1)(highest) < 0; step *= 2) {
         highest += step;
+        checkBound(highest);
+    }
 
     int i = iMin - (iMin % 2);
     if (ms->K(0, 1) > 0 || (ms->K(0, 1) == 0 && ms->K(0, 0) < 0)) {
@@ -156,8 +164,10 @@ eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, Scalar eMin, Scalar eMax, i
 
     Scalar low = eMin;
     if (i == 0) {
-        for (Scalar step = 1; findHigh(i)(low) > 0; step *= 2)
+        for (Scalar step = 1; findHigh(i)(low) > 0; step *= 2) {
             low -= step;
+            checkBound(low);
+        }
 
         Scalar high = binarySearch<Scalar>(low, highest, findHigh(i), eps);
         Scalar E = binarySearch(low, high, [ms](Scalar E) {
@@ -168,8 +178,10 @@ eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, Scalar eMin, Scalar eMax, i
     }
 
     for (; i <= iMax + 1; i += 2) {
-        for (Scalar step = 1; findLow(i)(low) > 0; step *= 2)
+        for (Scalar step = 1; findLow(i)(low) > 0; step *= 2) {
             low -= step;
+            checkBound(low);
+        }
         low = binarySearch<Scalar>(low, highest, findLow(i), eps);
         Scalar high = binarySearch<Scalar>(low, highest, findHigh(i), eps);
         pair<Scalar, Scalar> p = eigenvaluePair(ms, low, high, eps);
@@ -198,11 +210,15 @@ eigenpairsByIndexHelper(const PeriodicMatslise<Scalar> *ms, int iMin, int iMax)
     Scalar eMin = -1;
     Scalar eMax = 1;
 
-    while (ms->matchingError(eMin).second.minCoeff() > std::max(iMin - 2, 0))
+    while (ms->matchingError(eMin).second.minCoeff() > std::max(iMin - 2, 0)) {
         eMin *= 2;
+        checkBound(eMin);
+    }
 
-    while (ms->matchingError(eMax).second.maxCoeff() < iMax + 2)
+    while (ms->matchingError(eMax).second.maxCoeff() < iMax + 2) {
         eMax *= 2;
+        checkBound(eMax);
+    }
 
     return eigenpairsHelper<Scalar, with_eigenfunctions>(ms, eMin, eMax, iMin, iMax, 1e-8);
 }
-- 
2.43.0


From 21257c5453d4977cdbc31ae45155bad1a4f03959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:17 +0000
Subject: [PATCH 14/18] fix: AutomaticSectorBuilder gives up before the sectors
 take gigabytes

---
 matslise/util/sectorbuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matslise/util/sectorbuilder.cpp b/matslise/util/sectorbuilder.cpp
index bdbb7aa..04b3b0c 100644
--- a/matslise/util/sectorbuilder.cpp
+++ b/matslise/util/sectorbuilder.cpp
@@ -5,7 +5,7 @@
 #include <tuple>
 
 // Sectors have a minimal width: on an interval that is much too long their number would only be limited by the memory
-#define MAX_SECTORS 1000000
+#define MAX_SECTORS 100000
 
 
 using namespace matslise;
-- 
2.43.0


From 328e922bf1b0cfbcfd47edf6f0f66a24c48814a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:04 +0000
Subject: [PATCH 15/18] fix: Profiler can be used by several threads, does not
 depend on the wall clock, and does not throw from destructors

Scopes are entered and left under a lock, and each thread knows its own innermost
scope. The entry is created when the scope is entered, so the destructor of
ScopedTimer no longer allocates. Durations are measured with steady_clock:
high_resolution_clock is system_clock in libstdc++, and jumps with it. The header
includes what it uses.
---
 matslise/util/scoped_timer.h | 136 +++++++++++++++++++----------------
 1 file changed, 76 insertions(+), 60 deletions(-)

diff --git a/matslise/util/scoped_timer.h b/matslise/util/scoped_timer.h
index 33270c9..66bf736 100644
--- a/matslise/util/scoped_timer.h
+++ b/matslise/util/scoped_timer.h
@@ -7,16 +7,33 @@
 
 #ifdef MATSLISE_PROFILING
 
-#include <iostream>
-#include <iomanip>
+#include <algorithm>
 #include <chrono>
-#include <map>
+#include <cstdlib>
+#include <iomanip>
+#include <iostream>
+#include <mutex>
+#include <sstream>
+#include <string>
+#include <unordered_map>
+#include <utility>
 #include <vector>
 
 namespace matslise {
     class Profiler {
+    public:
+        struct ProfileEntry {
+            long long count;
+            long long insertion;
+            std::chrono::nanoseconds time;
+        };
+
     private:
+        typedef std::unordered_map<std::string, ProfileEntry> Entries;
+
         long long insertion_counter = 0;
+        std::mutex mutex; // guards insertion_counter and executionTimes
+        Entries executionTimes;
 
         Profiler() = default;
 
@@ -24,89 +41,88 @@ namespace matslise {
 
         Profiler &operator=(Profiler &other) = delete;
 
-        struct ProfileEntry {
-            long long count;
-            long long insertion;
-            std::chrono::nanoseconds time;
-        };
+        static Profiler *create() {
+            Profiler *profiler = new Profiler();
+            std::atexit([]() { instance().report(); });
+            return profiler;
+        }
 
     public:
-        static Profiler *profiler;
-
-        std::unordered_map<std::string, ProfileEntry> executionTimes;
-        std::vector<std::pair<std::string, long long>> stack;
+        // Elements of an unordered_map never move: timers refer to the one they add their time to.
+        typedef Entries::value_type Scope;
 
         static Profiler &instance() {
-            if (!profiler) {
-                profiler = new Profiler();
-                std::atexit([]() {
-                    Profiler::profiler->report();
-                    delete Profiler::profiler;
-                });
-            }
+            // Never deleted: other threads may still be in a scope when the report is written.
+            static Profiler *profiler = create();
             return *profiler;
         }
 
-        void push(std::string name) {
-            stack.emplace_back(std::move(name), insertion_counter++);
+        Scope *enter(const Scope *parent, const std::string &name) {
+            std::string id = (parent ? parent->first : std::string()) + " > " + name;
+            std::lock_guard<std::mutex> lock(mutex);
+            auto inserted = executionTimes.emplace(std::move(id), ProfileEntry{0, insertion_counter, {}});
+            if (inserted.second)
+                ++insertion_counter;
+            return &*inserted.first;
         }
 
-        void pop() {
-            stack.pop_back();
-        }
-
-        std::string getIdentifier() {
-            if (stack.empty())
-                return ">";
-
-            std::string id;
-            for (auto &call: stack)
-                id += " > " + call.first;
-            return id;
-        }
-
-        void addTime(std::chrono::nanoseconds time) {
-            std::string id = getIdentifier();
-
-            if (executionTimes.find(id) == executionTimes.end())
-                executionTimes[id] = ProfileEntry{.count=1, .insertion=stack.back().second, .time= time};
-            else {
-                auto &p = executionTimes[id];
-                p.count += 1;
-                p.time += time;
-            }
+        void leave(Scope *scope, std::chrono::nanoseconds time) {
+            std::lock_guard<std::mutex> lock(mutex);
+            scope->second.count += 1;
+            scope->second.time += time;
         }
 
         void report() {
-            std::cerr << "\n\n**Matslise profiler report:**" << std::endl;
-            std::vector<std::pair<std::string, ProfileEntry>> entries(
-                    executionTimes.begin(), executionTimes.end());
+            std::vector<std::pair<std::string, ProfileEntry>> entries;
+            {
+                std::lock_guard<std::mutex> lock(mutex);
+                for (auto &scope: executionTimes)
+                    if (scope.second.count > 0)
+                        entries.emplace_back(scope);
+            }
             std::sort(entries.begin(), entries.end(),
                       [](const auto &a, const auto &b) { return a.second.insertion < b.second.insertion; });
+            std::ostringstream out;
+            out << "\n\n**Matslise profiler report:**\n";
             for (auto &f: entries) {
                 const auto &entry = f.second;
-                std::cerr << f.first << "\t" << entry.count << "\t"
-                          << std::fixed << std::setprecision(2)
-                          << double(entry.time.count() / 10000) / 100. << "ms" << std::endl;
+                out << f.first << "\t" << entry.count << "\t"
+                    << std::fixed << std::setprecision(2)
+                    << double(entry.time.count() / 10000) / 100. << "ms\n";
             }
+            std::cerr << out.str() << std::flush;
         }
     };
 
-    inline Profiler *Profiler::profiler = nullptr;
-
     class ScopedTimer {
+    private:
+        // The innermost scope the current thread is in
+        static ScopedTimer *&current() {
+            static thread_local ScopedTimer *timer = nullptr;
+            return timer;
+        }
+
+        ScopedTimer *parent;
+        Profiler::Scope *scope;
+
     public:
-        std::chrono::time_point<std::chrono::high_resolution_clock> start;
+        // Not system_clock: that one may go backwards
+        std::chrono::time_point<std::chrono::steady_clock> start;
 
-        explicit ScopedTimer(const std::string &name) {
-            Profiler::instance().push(name);
-            start = std::chrono::high_resolution_clock::now();
+        explicit ScopedTimer(const std::string &name) : parent(current()) {
+            scope = Profiler::instance().enter(parent ? parent->scope : nullptr, name);
+            current() = this;
+            start = std::chrono::steady_clock::now();
         }
 
+        ScopedTimer(const ScopedTimer &) = delete;
+
+        ScopedTimer &operator=(const ScopedTimer &) = delete;
+
         ~ScopedTimer() {
-            auto end = std::chrono::high_resolution_clock::now();
-            Profiler::instance().addTime(end - start);
-            Profiler::instance().pop();
+            auto end = std::chrono::steady_clock::now();
+            current() = parent;
+            Profiler::instance().leave(scope, end - start);
         }
     };
 }
-- 
2.43.0


From 654500f81be095f33167b8d3bdfc78336a1c17f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:37 +0000
Subject: [PATCH 16/18] fix: a sector handed to Python keeps the problem it
 belongs to alive

---
 matslise/pyslise/pyscs.cpp   | 2 +-
 matslise/pyslise/pyslise.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/matslise/pyslise/pyscs.cpp b/matslise/pyslise/pyscs.cpp
index ca8d4d5..045484e 100644
--- a/matslise/pyslise/pyscs.cpp
+++ b/matslise/pyslise/pyscs.cpp
@@ -50,5 +50,5 @@ void pyscs(py::module &m) {
             .def("propagatePsi", &Matscs<>::propagatePsi)
             .def("__sector", [](Matscs<> &p, int i) -> Matscs<>::Sector * {
                 return p.sectors[i].get();
-            }, py::return_value_policy::reference);
+            }, py::return_value_policy::reference_internal);
 }
\ No newline at end of file
diff --git a/matslise/pyslise/pyslise.cpp b/matslise/pyslise/pyslise.cpp
index 498ebb4..a2758c1 100644
--- a/matslise/pyslise/pyslise.cpp
+++ b/matslise/pyslise/pyslise.cpp
@@ -193,7 +193,7 @@ For a given E and initial condition in point a, propagate the solution of the Sc
             .def_readonly("__matchIndex", &Matslise<>::matchIndex)
             .def("__sector", [](Matslise<> &p, int i) -> Matslise<>::Sector * {
                 return p.sectors[i].get();
-            }, py::return_value_policy::reference);
+            }, py::return_value_policy::reference_internal);
 
     py::class_<MatsliseHalf<>, AbstractMatslise<double>, shared_ptr<MatsliseHalf<>>>(m, "PysliseHalf")
             .def(py::init([](const function<double(double)> &V, double xmax, double tolerance) {
-- 
2.43.0


From 9f823881f3dddec93d2f7a7c2d4a4b8f250bbdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:37 +0000
Subject: [PATCH 17/18] fix: Pyscs does not leak its sector builder when
 reading the jumps runs out of memory

---
 matslise/pyslise/pyscs.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matslise/pyslise/pyscs.cpp b/matslise/pyslise/pyscs.cpp
index 045484e..2124c7a 100644
--- a/matslise/pyslise/pyscs.cpp
+++ b/matslise/pyslise/pyscs.cpp
@@ -20,13 +20,13 @@ void pyscs(py::module &m) {
                                          "When a fixed number of steps is specified, jump-positions are not supported.");
                              unique_ptr<SectorBuilder<Matscs<>>> sectorBuilder;
                              if (tolerance >= 0) {
-                                 auto sb = new AutomaticSectorBuilder<Matscs<>>(tolerance);
+                                 auto sb = make_unique<AutomaticSectorBuilder<Matscs<>>>(tolerance);
                                  sb->jumps.reserve(jumps.size());
                                  for(double jump : jumps)
                                      if (xmin < jump && jump < xmax)
                                          sb->jumps.push_back(jump);
                                  std::sort(sb->jumps.begin(), sb->jumps.end());
-                                 sectorBuilder.reset(sb);
+                                 sectorBuilder = std::move(sb);
                              } else {
                                  sectorBuilder.reset(new UniformSectorBuilder<Matscs<>>(steps));
                              }
-- 
2.43.0


From a055b18ac4a6cfb0f9d7f37c8a1feea1eefad5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:23 +0000
Subject: [PATCH 18/18] fix: Matscs::eigenfunction stopped after the first
 sector, so there were fewer values than points

---
 matslise/matscs/matscs.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/matslise/matscs/matscs.cpp b/matslise/matscs/matscs.cpp
index 961fd08..f5ce26a 100644
--- a/matslise/matscs/matscs.cpp
+++ b/matslise/matscs/matscs.cpp
@@ -79,6 +79,9 @@ vector<Y<Scalar, Dynamic>> *Matscs<Scalar>::eigenfunction(const Scalar &E, vecto
     sort(x.begin(), x.end());
     auto ys = make_unique<vector<Y<Scalar, Dynamic>>>();
 
+    while (!x.empty() && x.back() > xmax + EPS)
+        x.pop_back();
+
     auto iterator = x.begin();
 
     while (iterator != x.end() && *iterator < xmin - EPS)
@@ -86,21 +89,14 @@ vector<Y<Scalar, Dynamic>> *Matscs<Scalar>::eigenfunction(const Scalar &E, vecto
 
     Y<Scalar, Dynamic> y(n);
     for (int i = 0; iterator != x.end(); ++iterator) {
-        const Sector &sector = *sectors[i];
-        while (*iterator > sector.max) {
-            y = sector.calculateT(E) * y;
+        while (i + 1 < sectorCount && *iterator > sectors[i]->max) {
+            y = sectors[i]->calculateT(E) * y;
             ++i;
-            if (i >= sectorCount)
-                goto allSectorsDone;
         }
 
-        ys->push_back(sector.calculateT(E, *iterator - sector.min) * y);
+        ys->push_back(sectors[i]->calculateT(E, *iterator - sectors[i]->min) * y);
     }
 
-    allSectorsDone:
-    while (iterator != x.end() && *iterator > xmax + EPS)
-        iterator = x.erase(iterator);
-
     return ys.release();
 }
 
-- 
2.43.0

