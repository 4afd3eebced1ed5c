From 155204661c2abf2ab268cbec757ee5957c477e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:16 +0000
Subject: [PATCH 01/12] fix: ezip takes the number of lines to skip from its
 third argument

The number was parsed from the path name of the uncertainty file, so that
every call with the documented optional argument failed.
---
 src/main/cxx/apps/ezip.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cxx/apps/ezip.cxx b/src/main/cxx/apps/ezip.cxx
index 1b09c7f..07be4c6 100644
--- a/src/main/cxx/apps/ezip.cxx
+++ b/src/main/cxx/apps/ezip.cxx
@@ -66,7 +66,7 @@ main (int argc, char *argv[])
 
       if (argc == 4)
         {
-          skip = especia::convert<natural> (string (argv[2]));
+          skip = especia::convert<natural> (string (argv[3]));
         }
 
       valarray<real> x;
-- 
2.43.0


From 396043e61796fb89c1e1a7f61e1b1d068a0f43cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:16 +0000
Subject: [PATCH 02/12] fix: keep uncertainties aligned with their rows when
 some are missing

A row without a third column used to shift the uncertainties of all
subsequent rows up by one row.
---
 src/main/cxx/core/dataio.cxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/main/cxx/core/dataio.cxx b/src/main/cxx/core/dataio.cxx
index 4612c72..030a9c4 100644
--- a/src/main/cxx/core/dataio.cxx
+++ b/src/main/cxx/core/dataio.cxx
@@ -99,8 +99,7 @@ especia::get (istream &is, valarray<real> &x, valarray<real> &y,
             {
               u.push_back (a);
               v.push_back (b);
-              if (ist >> c)
-                w.push_back (c);
+              w.push_back (ist >> c ? c : 0.0);
 
               ++n;
             }
-- 
2.43.0


From b2e188efde14f00b9d613fea39a992a5b0820e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:16 +0000
Subject: [PATCH 03/12] fix: reject cyclic references instead of following them
 forever

A reference into a cycle that does not include the referring parameter
itself was followed without end.
---
 src/main/cxx/core/model.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/cxx/core/model.h b/src/main/cxx/core/model.h
index c714935..323d66a 100644
--- a/src/main/cxx/core/model.h
+++ b/src/main/cxx/core/model.h
@@ -657,6 +657,7 @@ private:
              i != section_name_map.end (); ++i)
           {
             const natural j = isc[i->second];
+            size_t hops = 0;
 
             while (!ref[j].empty ())
               {
@@ -664,7 +665,7 @@ private:
                   {
                     const natural k = isc[section_name_map[ref[j]]];
 
-                    if (j != k)
+                    if (j != k and ++hops < section_name_map.size ())
                       {
                         if (ref[k].empty ())
                           {
@@ -702,6 +703,7 @@ private:
           for (natural j = 0; j < Function::parameter_count (); ++j)
             {
               const natural k = i->second + j;
+              size_t hops = 0;
 
               while (!ref[k].empty ())
                 {
@@ -710,7 +712,7 @@ private:
                     {
                       const natural l = profile_name_map[ref[k]] + j;
 
-                      if (k != l)
+                      if (k != l and ++hops < profile_name_map.size ())
                         {
                           if (ref[l].empty ())
                             {
-- 
2.43.0


From ebc745188a11d4eef55d903c855b22654022f9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:16 +0000
Subject: [PATCH 04/12] fix: reject a model definition without any section

An empty definition used to crash the program.
---
 src/main/cxx/core/model.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cxx/core/model.h b/src/main/cxx/core/model.h
index 323d66a..e211e5d 100644
--- a/src/main/cxx/core/model.h
+++ b/src/main/cxx/core/model.h
@@ -633,7 +633,7 @@ private:
             }
         }
 
-    if (!st.bad () and st.eof ())
+    if (!st.bad () and st.eof () and not sections.empty ())
       {
         // Index unique parameters
         for (natural i = 0, k = 0; i < msk.size (); ++i)
-- 
2.43.0


From 3069d20317e24b8e2fdbb955a9634a4684da8624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:08 +0000
Subject: [PATCH 05/12] fix: propagate exceptions out of the concurrent
 evaluation

An exception thrown while an individual is evaluated (e.g. the continuum
of a section without enough valid data points) used to abort the program
instead of being reported with the documented exit code.
---
 src/main/cxx/core/optimize.h | 89 ++++++++++++++++++++++++++++++++----
 1 file changed, 79 insertions(+), 10 deletions(-)

diff --git a/src/main/cxx/core/optimize.h b/src/main/cxx/core/optimize.h
index 3334019..8eee845 100644
--- a/src/main/cxx/core/optimize.h
+++ b/src/main/cxx/core/optimize.h
@@ -8,6 +8,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <exception>
 #include <limits>
 #include <thread>
 #include <valarray>
@@ -121,9 +122,12 @@ optimize (const F &f, const Constraint &constraint, natural n,
           const Compare &compare, const Tracing &tracer)
 {
   using std::accumulate;
+  using std::current_exception;
+  using std::exception_ptr;
   using std::exp;
   using std::numeric_limits;
   using std::partial_sort;
+  using std::rethrow_exception;
   using std::sqrt;
   using std::thread;
   using std::valarray;
@@ -174,11 +178,20 @@ optimize (const F &f, const Constraint &constraint, natural n,
               vw = v[k];
             }
         }
+      // Exceptions must not leave the concurrent evaluation
+      vector<exception_ptr> errors (population_size);
 #ifdef _OPENMP
 #pragma omp parallel for
       for (natural k = 0; k < population_size; ++k)
         {
-          y[k] = f (&x[k][0], n) + constraint.cost (&x[k][0], n);
+          try
+            {
+              y[k] = f (&x[k][0], n) + constraint.cost (&x[k][0], n);
+            }
+          catch (...)
+            {
+              errors[k] = current_exception ();
+            }
           indexes[k] = k;
         }
 #else // C++-11
@@ -186,9 +199,17 @@ optimize (const F &f, const Constraint &constraint, natural n,
       threads.reserve (population_size);
       for (natural k = 0; k < population_size; ++k)
         {
-          threads.push_back (thread ([k, &f, &constraint, &x, n, &y] () {
-            y[k] = f (&x[k][0], n) + constraint.cost (&x[k][0], n);
-          }));
+          threads.push_back (
+              thread ([k, &f, &constraint, &x, n, &y, &errors] () {
+                try
+                  {
+                    y[k] = f (&x[k][0], n) + constraint.cost (&x[k][0], n);
+                  }
+                catch (...)
+                  {
+                    errors[k] = current_exception ();
+                  }
+              }));
         }
       for (natural k = 0; k < population_size; ++k)
         {
@@ -196,6 +217,13 @@ optimize (const F &f, const Constraint &constraint, natural n,
           indexes[k] = k;
         }
 #endif
+      for (natural k = 0; k < population_size; ++k)
+        {
+          if (errors[k])
+            {
+              rethrow_exception (errors[k]);
+            }
+        }
       partial_sort (&indexes[0], &indexes[parent_number],
                     &indexes[population_size],
                     Index_Compare<real, Compare> (y, compare));
@@ -323,8 +351,11 @@ postopti (const F &f, const Constraint &constraint, natural n, const real x[],
           real z[])
 {
   using std::abs;
+  using std::current_exception;
+  using std::exception_ptr;
   using std::exp;
   using std::log;
+  using std::rethrow_exception;
   using std::sqrt;
   using std::thread;
   using std::valarray;
@@ -351,27 +382,65 @@ postopti (const F &f, const Constraint &constraint, natural n, const real x[],
             }
           real zp;
           real zq;
+          exception_ptr ep;
+          exception_ptr eq;
 #ifdef _OPENMP
 #pragma omp parallel
           {
 #pragma omp sections
             {
 #pragma omp section
-              zp = f (&p[0], n) + constraint.cost (&p[0], n);
+              try
+                {
+                  zp = f (&p[0], n) + constraint.cost (&p[0], n);
+                }
+              catch (...)
+                {
+                  ep = current_exception ();
+                }
 #pragma omp section
-              zq = f (&q[0], n) + constraint.cost (&q[0], n);
+              try
+                {
+                  zq = f (&q[0], n) + constraint.cost (&q[0], n);
+                }
+              catch (...)
+                {
+                  eq = current_exception ();
+                }
             }
           }
 #else // C++-11
-          thread tp ([&f, &constraint, &p, n, &zp] () {
-            zp = f (&p[0], n) + constraint.cost (&p[0], n);
+          thread tp ([&f, &constraint, &p, n, &zp, &ep] () {
+            try
+              {
+                zp = f (&p[0], n) + constraint.cost (&p[0], n);
+              }
+            catch (...)
+              {
+                ep = current_exception ();
+              }
           });
-          thread tq ([&f, &constraint, &q, n, &zq] () {
-            zq = f (&q[0], n) + constraint.cost (&q[0], n);
+          thread tq ([&f, &constraint, &q, n, &zq, &eq] () {
+            try
+              {
+                zq = f (&q[0], n) + constraint.cost (&q[0], n);
+              }
+            catch (...)
+              {
+                eq = current_exception ();
+              }
           });
           tp.join ();
           tq.join ();
 #endif
+          if (ep)
+            {
+              rethrow_exception (ep);
+            }
+          if (eq)
+            {
+              rethrow_exception (eq);
+            }
           // Compute the rescaled global step size
           g[j] = c / sqrt (abs ((zp + zq) - (zx + zx)));
 
-- 
2.43.0


From 7289ca40dfe376d4b5eea7a898aa31697053a958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:30 +0000
Subject: [PATCH 06/12] fix: refuse a population that does not exceed the
 number of parents

A parent number of zero or a population without any individual beyond the
parents made the selection read and write beyond its arrays.
---
 src/main/cxx/core/optimizer.cxx | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/main/cxx/core/optimizer.cxx b/src/main/cxx/core/optimizer.cxx
index 56e12fb..5c69f4a 100644
--- a/src/main/cxx/core/optimizer.cxx
+++ b/src/main/cxx/core/optimizer.cxx
@@ -4,6 +4,7 @@
 /// @date 2024
 /// @copyright MIT License
 #include <cmath>
+#include <stdexcept>
 
 #include "optimizer.h"
 
@@ -39,6 +40,15 @@ especia::Optimizer::Builder::with_problem_dimension (natural n)
 especia::Optimizer::Builder &
 especia::Optimizer::Builder::with_parent_number (natural parent_number)
 {
+  using std::invalid_argument;
+
+  if (parent_number < 1)
+    {
+      throw invalid_argument (
+          "especia::Optimizer::Builder::with_parent_number() Error: the "
+          "parent number must not be zero");
+    }
+
   const natural population_size = 2 * parent_number;
 
   if (this->parent_number != parent_number)
@@ -93,6 +103,15 @@ especia::Optimizer::Builder::with_stop_generation (natural stop_generation)
 especia::Optimizer
 especia::Optimizer::Builder::build ()
 {
+  using std::invalid_argument;
+
+  if (population_size <= parent_number)
+    {
+      throw invalid_argument (
+          "especia::Optimizer::Builder::build() Error: the population size "
+          "must exceed the parent number");
+    }
+
   return Optimizer (*this);
 }
 
-- 
2.43.0


From 0fced9852983245bcfd99f3259241697197f83a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:53 +0000
Subject: [PATCH 07/12] fix: consider a parameter with coinciding bounds as
 constant

The lower limit of the mutation variance made every individual violate
such bounds, so that drawing the next generation never came to an end.
---
 src/main/cxx/core/model.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/main/cxx/core/model.h b/src/main/cxx/core/model.h
index e211e5d..f51bbbf 100644
--- a/src/main/cxx/core/model.h
+++ b/src/main/cxx/core/model.h
@@ -637,7 +637,15 @@ private:
       {
         // Index unique parameters
         for (natural i = 0, k = 0; i < msk.size (); ++i)
-          if (msk[i] and ref[i].empty ())
+          if (msk[i] and ref[i].empty () and lo[i] == up[i])
+            {
+              // There is nothing to optimize
+              val[i] = lo[i];
+              msk[i] = false;
+
+              ind.push_back (0);
+            }
+          else if (msk[i] and ref[i].empty ())
             {
               if (lo[i] > up[i])
                 swap (lo[i], up[i]);
-- 
2.43.0


From 70bcf9708508fd079b398a85a19bd3bf47a00f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:54 +0000
Subject: [PATCH 08/12] fix: reject a section head with a fractional number of
 Legendre polynomials

When the number of polynomials was missing the first bound of a masked
interval was split into a number of polynomials and a mask bound.
---
 src/main/cxx/core/model.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cxx/core/model.h b/src/main/cxx/core/model.h
index f51bbbf..a7b92ac 100644
--- a/src/main/cxx/core/model.h
+++ b/src/main/cxx/core/model.h
@@ -7,6 +7,7 @@
 #define ESPECIA_MODEL_H
 
 #include <algorithm>
+#include <cctype>
 #include <cstddef>
 #include <fstream>
 #include <iomanip>
@@ -526,7 +527,8 @@ private:
               natural p;
 
               // Parse section head
-              if (ist >> sid >> fn >> a >> b >> p and getline (ist, s2))
+              if (ist >> sid >> fn >> a >> b >> p and getline (ist, s2)
+                  and (s2.empty () or isspace (s2[0])))
                 {
                   if (section_name_map.find (sid) == section_name_map.end ())
                     {
-- 
2.43.0


From bce900e9ba216b3f5ef83c3ea180f7f41af65f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:55 +0000
Subject: [PATCH 09/12] fix: keep the columns of a written section apart
 whatever their values

---
 src/main/cxx/core/section.cxx | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/main/cxx/core/section.cxx b/src/main/cxx/core/section.cxx
index fc6f667..a94325b 100644
--- a/src/main/cxx/core/section.cxx
+++ b/src/main/cxx/core/section.cxx
@@ -362,18 +362,18 @@ especia::Section::put (std::ostream &os, const real a, const real b) const
             const real nun = unc[i] / cfl[i];
 
             os << setw (w) << wav[i]; // 1
-            os << setw (w) << flx[i]; // 2
-            os << setw (w) << unc[i]; // 3
+            os << ' ' << setw (w - 1) << flx[i]; // 2
+            os << ' ' << setw (w - 1) << unc[i]; // 3
             os << setw (3) << msk[i]; // 4
-            os << setw (w) << opt[i]; // 5
-            os << setw (w) << atm[i]; // 6
-            os << setw (w) << cat[i]; // 7
-            os << setw (w) << cfl[i]; // 8
-            os << setw (w) << tfl[i]; // 9
-            os << setw (w) << fit[i]; // 10
-            os << setw (w) << res[i]; // 11
-            os << setw (w) << nfl;    // 12
-            os << setw (w) << nun;    // 13
+            os << ' ' << setw (w - 1) << opt[i]; // 5
+            os << ' ' << setw (w - 1) << atm[i]; // 6
+            os << ' ' << setw (w - 1) << cat[i]; // 7
+            os << ' ' << setw (w - 1) << cfl[i]; // 8
+            os << ' ' << setw (w - 1) << tfl[i]; // 9
+            os << ' ' << setw (w - 1) << fit[i]; // 10
+            os << ' ' << setw (w - 1) << res[i]; // 11
+            os << ' ' << setw (w - 1) << nfl;    // 12
+            os << ' ' << setw (w - 1) << nun;    // 13
 
             os << '\n';
           }
-- 
2.43.0


From 90a5af2caa0d1f8cb3a3ed26a02c96a2def342cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:45 +0000
Subject: [PATCH 10/12] fix: keep the columns written by the utilities apart
 whatever their values

---
 src/main/cxx/core/dataio.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cxx/core/dataio.cxx b/src/main/cxx/core/dataio.cxx
index 030a9c4..63c83ef 100644
--- a/src/main/cxx/core/dataio.cxx
+++ b/src/main/cxx/core/dataio.cxx
@@ -155,10 +155,10 @@ especia::put (ostream &os, const valarray<real> &x, const valarray<real> &y,
           os.setf (ios_base::fixed, ios_base::floatfield);
           os << setw (w) << x[i];
           os.setf (ios_base::scientific, ios_base::floatfield);
-          os << setw (w) << y[i];
+          os << ' ' << setw (w - 1) << y[i];
           if (z.size () > 0)
             {
-              os << setw (w) << z[i];
+              os << ' ' << setw (w - 1) << z[i];
             }
           os << '\n';
         }
-- 
2.43.0


From 1e7229c94f48d49e93f90046a0918ba59e925d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:45 +0000
Subject: [PATCH 11/12] fix: foreach backs up every file before it replaces any
 of them

---
 src/main/scripts/foreach | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/scripts/foreach b/src/main/scripts/foreach
index a09e4a2..14cd585 100755
--- a/src/main/scripts/foreach
+++ b/src/main/scripts/foreach
@@ -18,6 +18,10 @@ shift
 for sourceFile in "${@}"
 do
     cp "${sourceFile}" "${sourceFile}.backup"
+done
+
+for sourceFile in "${@}"
+do
     targetFile="$(basename "$sourceFile")"
     ${command} "${sourceFile}" "${targetFile}"
     mv "${targetFile}" "${sourceFile}"
-- 
2.43.0


From aa1dc421044b4b5cee93a8274e94765a1441ed6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:26 +0000
Subject: [PATCH 12/12] fix: refuse an instrumental profile without a positive
 width

---
 src/main/cxx/core/section.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/main/cxx/core/section.h b/src/main/cxx/core/section.h
index 8982258..dcac131 100644
--- a/src/main/cxx/core/section.h
+++ b/src/main/cxx/core/section.h
@@ -216,6 +216,9 @@ private:
   /// @param[out] opt The evaluated optical depth.
   /// @param[out] atm The evaluated absorption term.
   /// @param[out] cat The evaluated convoluted absorption term.
+  ///
+  /// @throw runtime_error when the width of the instrumental profile or the
+  /// data spacing is not positive.
   template <class Function>
   void
   convolute (const real r, const Function &tau, std::valarray<real> &opt,
@@ -223,6 +226,7 @@ private:
   {
     using std::ceil;
     using std::exp;
+    using std::runtime_error;
     using std::transform;
     using std::valarray;
 
@@ -232,6 +236,14 @@ private:
         const real h = 0.5 * center () / (r * kilo);
         // The data spacing.
         const real d = width () / (n - 1);
+
+        if (not(h > 0.0 and d > 0.0))
+          {
+            throw runtime_error (
+                "especia::Section::convolute() Error: the width of the "
+                "instrumental profile and the data spacing must be positive");
+          }
+
         // The super-sampling factor. Is greater than one, if the data spacing
         // is greater than the HWHM.
         const auto s = static_cast<natural> (ceil (d / h));
-- 
2.43.0

