From 70667d5271a8963b7c963080913b08c6ddf37fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:06 +0000
Subject: [PATCH 01/77] fix: solve_with_svd discards all singular values below
 the tolerance

The loop kept running over the truncated list, and discarding the first
singular value asked for a negative index.
---
 src/linalg/solve_with_svd_d.cc | 10 ++++------
 src/linalg/solve_with_svd_z.cc | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/linalg/solve_with_svd_d.cc b/src/linalg/solve_with_svd_d.cc
index d71afe6..d95c7df 100644
--- a/src/linalg/solve_with_svd_d.cc
+++ b/src/linalg/solve_with_svd_d.cc
@@ -41,15 +41,13 @@ namespace linalg {
     if (tol <= 0) {
       tol = DBL_EPSILON;
     }
+    // Singular values below the tolerance do not contribute to the solution.
+    RTensor inv_s(s.size());
     for (tensor::index i = 0; i < s.size(); i++) {
-      if (s[i] <= tol) {
-	U = U(range(), range(0,i-1));
-	s = s(range(0,i-1));
-	VT = VT(range(0,i-1), range());
-      }
+      inv_s.at(i) = (s[i] <= tol)? 0.0 : 1.0 / s[i];
     }
     RTensor X = foldc(U, 0, B, 0);
-    scale_inplace(X, 0, 1.0/s);
+    scale_inplace(X, 0, inv_s);
     return foldc(VT, 0, X, 0);
   }
 
diff --git a/src/linalg/solve_with_svd_z.cc b/src/linalg/solve_with_svd_z.cc
index 79b6a68..6d364e1 100644
--- a/src/linalg/solve_with_svd_z.cc
+++ b/src/linalg/solve_with_svd_z.cc
@@ -41,15 +41,13 @@ namespace linalg {
     if (tol <= 0) {
       tol = DBL_EPSILON;
     }
+    // Singular values below the tolerance do not contribute to the solution.
+    RTensor inv_s(s.size());
     for (tensor::index i = 0; i < s.size(); i++) {
-      if (s[i] <= tol) {
-	U = U(range(), range(0,i-1));
-	s = s(range(0,i-1));
-	VT = VT(range(0,i-1), range());
-      }
+      inv_s.at(i) = (s[i] <= tol)? 0.0 : 1.0 / s[i];
     }
     CTensor X = foldc(U, 0, B, 0);
-    scale_inplace(X, 0, 1.0/s);
+    scale_inplace(X, 0, inv_s);
     return foldc(VT, 0, X, 0);
   }
 
-- 
2.43.0


From 123ab41f19aaf2447a89d9b53688d5085896dcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:06 +0000
Subject: [PATCH 02/77] fix: ranges accept negative positions, descending steps
 and empty dimensions

---
 src/views/range.cc | 49 +++++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/src/views/range.cc b/src/views/range.cc
index c927d4e..88c80e7 100644
--- a/src/views/range.cc
+++ b/src/views/range.cc
@@ -115,7 +115,7 @@ namespace tensor {
    * SINGLE INDEX RANGE
    */
   SingleRange::SingleRange(index ndx)
-    : Range(), ndx_(ndx), counter_(ndx)
+    : Range(), ndx_(ndx), counter_(0)
   {
   }
 
@@ -125,21 +125,22 @@ namespace tensor {
     if (counter_)
       return nomore();
     ++counter_;
-    return ndx_;
+    return ndx_ * get_factor();
   }
 
   void
   SingleRange::set_factor(index factor)
   {
-    index old = get_factor();
-    ndx_ = (ndx_ / old) * factor;
+    counter_ = 0;
     Range::set_factor(factor);
   }
 
   void
   SingleRange::set_limit(index limit)
   {
-    assert(limit > ndx_);
+    if (ndx_ < 0)
+      ndx_ += limit;
+    assert(ndx_ >= 0 && ndx_ < limit);
     Range::set_limit(limit);
   }
 
@@ -160,17 +161,18 @@ namespace tensor {
    */
 
   StepRange::StepRange(index start, index end, index step) :
-    Range(), start_(start), end_(end), step_(step), ndx_(0)
+    Range(), start_(start), end_(end), step_(step), ndx_(start)
   {
+    assert(step != 0);
   }
 
   index
   StepRange::pop()
   {
-    if (ndx_ > end_) {
+    if (step_ > 0? ndx_ > end_ : ndx_ < end_) {
       return nomore();
     } else {
-      index output = ndx_;
+      index output = ndx_ * get_factor();
       ndx_ += step_;
       return output;
     }
@@ -179,23 +181,30 @@ namespace tensor {
   void
   StepRange::set_factor(index factor)
   {
-    index old = get_factor();
-    end_ = (end_ / old) * factor;
-    step_ = (step_ / old) * factor;
-    ndx_ = start_ = (start_ / old) * factor;
+    ndx_ = start_;
     Range::set_factor(factor);
   }
 
   void
   StepRange::set_limit(index limit)
   {
-    assert(limit > end_);
+    if (start_ < 0)
+      start_ += limit;
+    if (end_ < 0)
+      end_ += limit;
+    if (StepRange::size() > 0) {
+      assert(start_ >= 0 && start_ < limit);
+      assert(end_ >= 0 && end_ < limit);
+    }
+    ndx_ = start_;
     Range::set_limit(limit);
   }
 
   index
   StepRange::size() const
   {
+    if (step_ > 0? start_ > end_ : start_ < end_)
+      return 0;
     return (end_ - start_) / step_ + 1;
   }
 
@@ -218,16 +227,12 @@ namespace tensor {
   {
     if (counter_ >= indices_.size())
       return nomore();
-    return indices_[counter_++];
+    return indices_[counter_++] * get_factor();
   }
 
   void
   IndexRange::set_factor(index factor)
   {
-    index old = get_factor();
-    for (Indices::iterator it = indices_.begin(); it != indices_.end(); it++) {
-      *it = (*it / old) * factor;
-    }
     counter_ = 0;
     Range::set_factor(factor);
   }
@@ -235,11 +240,11 @@ namespace tensor {
   void
   IndexRange::set_limit(index limit)
   {
-#ifndef NDEBUG
-    for (Indices::const_iterator it = indices_.begin(); it != indices_.end(); it++) {
-      assert(*it <= limit);
+    for (Indices::iterator it = indices_.begin(); it != indices_.end(); it++) {
+      if (*it < 0)
+        *it += limit;
+      assert(*it >= 0 && *it < limit);
     }
-#endif
     Range::set_limit(limit);
   }
 
-- 
2.43.0


From ef4e630f76da5b84bd85cd9b08e9d73dc2db510a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:06 +0000
Subject: [PATCH 03/77] fix: a slice can be assigned the tensor it belongs to

---
 src/tensor/tensor_view.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tensor/tensor_view.hpp b/src/tensor/tensor_view.hpp
index 09437cf..d8d2440 100644
--- a/src/tensor/tensor_view.hpp
+++ b/src/tensor/tensor_view.hpp
@@ -262,9 +262,11 @@ namespace tensor {
   }
 
   template<typename elt_t> void
-  Tensor<elt_t>::mutable_view::operator=(const Tensor<elt_t> &t)
+  Tensor<elt_t>::mutable_view::operator=(const Tensor<elt_t> &a_tensor)
   {
     //assert(verify_tensor_dimensions_match(dims_, t.dimensions()));
+    // Keep the values alive and unchanged when a_tensor is the sliced tensor.
+    const Tensor<elt_t> t(a_tensor);
     assert(dims_.total_size() == t.dims_.total_size());
     ranges_->reset();
     for (index i = 0, j; (j = ranges_->pop()) != ranges_->nomore(); i++) {
-- 
2.43.0


From b8dcddda1855c7914c450d095806ab6b9e327e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:10 +0000
Subject: [PATCH 04/77] fix: negative dimensions are rejected when a size is
 computed

---
 src/indices/indices.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/indices/indices.cc b/src/indices/indices.cc
index 051ef69..33806a5 100644
--- a/src/indices/indices.cc
+++ b/src/indices/indices.cc
@@ -44,7 +44,7 @@ namespace tensor {
                     << (it - begin_const()) << std::endl
                     << "All dimensions:" << std::endl
                     << *this << std::endl;
-          return false;
+          abort();
         }
         aux *= *it;
       }
-- 
2.43.0


From c24a7beeee4933cbe020135b8f353afbe337820b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:10 +0000
Subject: [PATCH 05/77] fix: change_dimension rejects a negative size

---
 src/tensor/tensor_change_dimension.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tensor/tensor_change_dimension.cc b/src/tensor/tensor_change_dimension.cc
index 0c6f2d9..5d3ccd0 100644
--- a/src/tensor/tensor_change_dimension.cc
+++ b/src/tensor/tensor_change_dimension.cc
@@ -27,6 +27,7 @@ namespace tensor {
   {
     typedef typename Tensor::elt_t elt_t;
 
+    assert(new_size >= 0);
     dim = normalize_index(dim, a.rank());
     Indices d = a.dimensions();
     index old_size = d[dim];
-- 
2.43.0


From d36454fd7af93b62e4980cba36e28c69d4df8cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:10 +0000
Subject: [PATCH 06/77] fix: squeeze keeps empty dimensions and one-element
 tensors

---
 src/tensor/tensor_squeeze.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tensor/tensor_squeeze.cc b/src/tensor/tensor_squeeze.cc
index dad3232..d6cae99 100644
--- a/src/tensor/tensor_squeeze.cc
+++ b/src/tensor/tensor_squeeze.cc
@@ -24,10 +24,15 @@ namespace tensor {
 
   const Indices squeeze_dimensions(const Indices &d)
   {
-    Indices output(d.size() - std::count(d.begin(), d.end(), 1));
+    index ones = std::count(d.begin(), d.end(), 1);
+    if (ones && ones == d.size()) {
+      // A tensor with one element keeps one of its dimensions
+      return igen << 1;
+    }
+    Indices output(d.size() - ones);
     Indices::const_iterator b = d.begin();
     for (Indices::iterator a = output.begin(); a != output.end() && b != d.end(); b++) {
-      if (*b > 1)
+      if (*b != 1)
         *(a++) = *b;
     }
     return output;
-- 
2.43.0


From 082043b6f9cd1f90d41386bc72fbaec6cf77a69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:07 +0000
Subject: [PATCH 07/77] fix: contractions may write their result over one of
 their operands

---
 src/tensor/tensor_fold.cc   | 3 ++-
 src/tensor/tensor_foldin.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tensor/tensor_fold.cc b/src/tensor/tensor_fold.cc
index c6e8ed6..f77e665 100644
--- a/src/tensor/tensor_fold.cc
+++ b/src/tensor/tensor_fold.cc
@@ -28,10 +28,11 @@ namespace tensor {
 
   using namespace blas;
 
+  // The operands are taken by value because the output may be one of them.
   template<typename elt_t, bool do_conj>
   void
   do_fold(Tensor<elt_t> &output,
-          const Tensor<elt_t> &a, int _ndx1, const Tensor<elt_t> &b, int _ndx2)
+          const Tensor<elt_t> a, int _ndx1, const Tensor<elt_t> b, int _ndx2)
   {
     index i_len,j_len,k_len,l_len,m_len;
     index rank, i;
diff --git a/src/tensor/tensor_foldin.cc b/src/tensor/tensor_foldin.cc
index 0426e0b..507ef11 100644
--- a/src/tensor/tensor_foldin.cc
+++ b/src/tensor/tensor_foldin.cc
@@ -28,10 +28,11 @@ namespace tensor {
 
   using namespace blas;
 
+  // The operands are taken by value because the output may be one of them.
   template<typename elt_t>
   void
   do_foldin_into(Tensor<elt_t> &output,
-                 const Tensor<elt_t> &a, int _ndx1, const Tensor<elt_t> &b, int _ndx2)
+                 const Tensor<elt_t> a, int _ndx1, const Tensor<elt_t> b, int _ndx2)
   {
     index i_len,j_len,k_len,l_len,m_len;
     index rank, i;
-- 
2.43.0


From a2457a2666a78bcdbd9a1d3371e8775be762bb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:07 +0000
Subject: [PATCH 08/77] fix: foldin of two vectors reserves the dimension of
 its result

---
 src/tensor/tensor_foldin.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/tensor_foldin.cc b/src/tensor/tensor_foldin.cc
index 507ef11..578bad9 100644
--- a/src/tensor/tensor_foldin.cc
+++ b/src/tensor/tensor_foldin.cc
@@ -40,7 +40,7 @@ namespace tensor {
     const index rankb = b.rank();
     index ndx1 = normalize_index(_ndx1, ranka);
     index ndx2 = normalize_index(_ndx2, rankb);
-    Indices new_dims(ranka + rankb - 2);
+    Indices new_dims(std::max<index>(ranka + rankb - 2, 1));
     /*
      * Since we use row-major order, in which the first
      * index varies faster, we nest the loops beginning with the last index,
-- 
2.43.0


From f94aa353bff282402352d330743068e5124979f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:21 +0000
Subject: [PATCH 09/77] fix: take_diag uses the size of the second diagonal
 index

---
 src/tensor/tensor_take_diag.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/tensor_take_diag.cc b/src/tensor/tensor_take_diag.cc
index 4acd9a6..9feda7a 100644
--- a/src/tensor/tensor_take_diag.cc
+++ b/src/tensor/tensor_take_diag.cc
@@ -99,7 +99,7 @@ const tensor::Tensor<elt_t> do_take_diag(const tensor::Tensor<elt_t> &a, int whi
   tensor::Tensor<elt_t> output(new_dims);
   which = -which;
   if (a2b) {
-    do_diag<elt_t>(output.begin(), a.begin(), a1,a2,a2b,a3,a3,a5,which);
+    do_diag<elt_t>(output.begin(), a.begin(), a1,a2,a2b,a3,a4,a5,which);
   }
   return output;
 }
-- 
2.43.0


From 130af889c3545a55295640281d1f3e385aeae80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:21 +0000
Subject: [PATCH 10/77] fix: trace accepts -rank as the number of the first
 index

---
 src/tensor/tensor_trace.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/tensor_trace.cc b/src/tensor/tensor_trace.cc
index ab198db..3332506 100644
--- a/src/tensor/tensor_trace.cc
+++ b/src/tensor/tensor_trace.cc
@@ -53,8 +53,8 @@ namespace tensor {
   template<typename elt_t>
   static const Tensor<elt_t> do_trace(const Tensor<elt_t> &D, index i1, index i2)
   {
-    assert(i1 < D.rank() && i1 > -D.rank());
-    assert(i2 < D.rank() && i2 > -D.rank());
+    assert(i1 < D.rank() && i1 >= -D.rank());
+    assert(i2 < D.rank() && i2 >= -D.rank());
     if (i1 < 0)
       i1 = i1 + D.rank();
     if (i2 < 0)
-- 
2.43.0


From a2f1ad75873af317093a02cbd2fe1e23763becf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 11/77] fix: element-wise operators reject tensors of different
 dimensions

---
 src/generated/tensor_divide_tt_cdouble.cc | 2 +-
 src/generated/tensor_divide_tt_double.cc  | 2 +-
 src/generated/tensor_minus_t1_cdouble.cc  | 2 +-
 src/generated/tensor_minus_t1_double.cc   | 2 +-
 src/generated/tensor_minus_tt_cdouble.cc  | 2 +-
 src/generated/tensor_minus_tt_double.cc   | 2 +-
 src/generated/tensor_plus_t1_cdouble.cc   | 2 +-
 src/generated/tensor_plus_t1_double.cc    | 2 +-
 src/generated/tensor_plus_tt_cdouble.cc   | 2 +-
 src/generated/tensor_plus_tt_double.cc    | 2 +-
 src/generated/tensor_times_tt_cdouble.cc  | 2 +-
 src/generated/tensor_times_tt_double.cc   | 2 +-
 src/tensor/tensor_t_op_t.cc               | 2 +-
 13 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/generated/tensor_divide_tt_cdouble.cc b/src/generated/tensor_divide_tt_cdouble.cc
index 90653ba..10c9a9d 100644
--- a/src/generated/tensor_divide_tt_cdouble.cc
+++ b/src/generated/tensor_divide_tt_cdouble.cc
@@ -22,7 +22,7 @@
 namespace tensor {
 
   const Tensor<cdouble> operator/(const Tensor<cdouble> &a, const Tensor<cdouble> &b) {
-    assert(a.size() == b.size());
+    assert(verify_tensor_dimensions_match(a.dimensions(), b.dimensions()));
     Tensor<cdouble> output(a.dimensions());
     Tensor<cdouble>::const_iterator ita = a.begin();
     Tensor<cdouble>::const_iterator itb = b.begin();
diff --git a/src/generated/tensor_divide_tt_double.cc b/src/generated/tensor_divide_tt_double.cc
index 8c2d1b0..e33d054 100644
--- a/src/generated/tensor_divide_tt_double.cc
+++ b/src/generated/tensor_divide_tt_double.cc
@@ -22,7 +22,7 @@
 namespace tensor {
 
   const Tensor<double> operator/(const Tensor<double> &a, const Tensor<double> &b) {
-    assert(a.size() == b.size());
+    assert(verify_tensor_dimensions_match(a.dimensions(), b.dimensions()));
     Tensor<double> output(a.dimensions());
     Tensor<double>::const_iterator ita = a.begin();
     Tensor<double>::const_iterator itb = b.begin();
diff --git a/src/generated/tensor_minus_t1_cdouble.cc b/src/generated/tensor_minus_t1_cdouble.cc
index 96be312..4a1dee8 100644
--- a/src/generated/tensor_minus_t1_cdouble.cc
+++ b/src/generated/tensor_minus_t1_cdouble.cc
@@ -23,7 +23,7 @@
 namespace tensor {
 
   Tensor<cdouble> &operator-=(Tensor<cdouble> &a, const Tensor<cdouble> &b) {
-    assert(a.size() == b.size());
+    assert(verify_tensor_dimensions_match(a.dimensions(), b.dimensions()));
 #if 1
     Tensor<cdouble>::iterator ita = a.begin();
     Tensor<cdouble>::iterator itae = a.end();
diff --git a/src/generated/tensor_minus_t1_double.cc b/src/generated/tensor_minus_t1_double.cc
index 640f08b..0838fc0 100644
--- a/src/generated/tensor_minus_t1_double.cc
+++ b/src/generated/tensor_minus_t1_double.cc
@@ -23,7 +23,7 @@
 namespace tensor {
 
   Tensor<double> &operator-=(Tensor<double> &a, const Tensor<double> &b) {
-    assert(a.size() == b.size());
+    assert(verify_tensor_dimensions_match(a.dimensions(), b.dimensions()));
 #if 1
     Tensor<double>::iterator ita = a.begin();
     Tensor<double>::iterator itae = a.end();
diff --git a/src/generated/tensor_minus_tt_cdouble.cc b/src/generated/tensor_minus_tt_cdouble.cc
index 2bce8d0..749307a 100644
--- a/src/generated/tensor_minus_tt_cdouble.cc
+++ b/src/generated/tensor_minus_tt_cdouble.cc
@@ -22,7 +22,7 @@
 namespace tensor {
 
   const Tensor<cdouble> operator-(const Tensor<cdouble> &a, const Tensor<cdouble> &b) {
-    assert(a.size() == b.size());
+    assert(verify_tensor_dimensions_match(a.dimensions(), b.dimensions()));
     Tensor<cdouble> output(a.dimensions());
     Tensor<cdouble>::const_iterator ita = a.begin();
     Tensor<cdouble>::const_iterator itb = b.begin();
diff --git a/src/generated/tensor_minus_tt_double.cc b/src/generated/tensor_minus_tt_double.cc
index ad9fd79..2c0d42b 100644
--- a/src/generated/tensor_minus_tt_double.cc
+++ b/src/generated/tensor_minus_tt_double.cc
@@ -22,7 +22,7 @@
 namespace tensor {
 
   const Tensor<double> operator-(const Tensor<double> &a, const Tensor<double> &b) {
-    assert(a.size() == b.size());
+    assert(verify_tensor_dimensions_match(a.dimensions(), b.dimensions()));
     Tensor<double> output(a.dimensions());
     Tensor<double>::const_iterator ita = a.begin();
     Tensor<double>::const_iterator itb = b.begin();
diff --git a/src/generated/tensor_plus_t1_cdouble.cc b/src/generated/tensor_plus_t1_cdouble.cc
index c64f7f2..b218b77 100644
--- a/src/generated/tensor_plus_t1_cdouble.cc
+++ b/src/generated/tensor_plus_t1_cdouble.cc
@@ -23,7 +23,7 @@
 namespace tensor {
 
   Tensor<cdouble> &operator+=(Tensor<cdouble> &a, const Tensor<cdouble> &b) {
-    assert(a.size() == b.size());
+    assert(verify_tensor_dimensions_match(a.dimensions(), b.dimensions()));
     Tensor<cdouble>::iterator ita = a.begin();
     Tensor<cdouble>::iterator itae = a.end();
     Tensor<cdouble>::const_iterator itb = b.begin();
diff --git a/src/generated/tensor_plus_t1_double.cc b/src/generated/tensor_plus_t1_double.cc
index 1b45db1..d79cb13 100644
--- a/src/generated/tensor_plus_t1_double.cc
+++ b/src/generated/tensor_plus_t1_double.cc
@@ -23,7 +23,7 @@
 namespace tensor {
 
   Tensor<double> &operator+=(Tensor<double> &a, const Tensor<double> &b) {
-    assert(a.size() == b.size());
+    assert(verify_tensor_dimensions_match(a.dimensions(), b.dimensions()));
 #if 1
     Tensor<double>::iterator ita = a.begin();
     Tensor<double>::iterator itae = a.end();
diff --git a/src/generated/tensor_plus_tt_cdouble.cc b/src/generated/tensor_plus_tt_cdouble.cc
index 3df4a64..35d7d37 100644
--- a/src/generated/tensor_plus_tt_cdouble.cc
+++ b/src/generated/tensor_plus_tt_cdouble.cc
@@ -22,7 +22,7 @@
 namespace tensor {
 
   const Tensor<cdouble> operator+(const Tensor<cdouble> &a, const Tensor<cdouble> &b) {
-    assert(a.size() == b.size());
+    assert(verify_tensor_dimensions_match(a.dimensions(), b.dimensions()));
     Tensor<cdouble> output(a.dimensions());
     Tensor<cdouble>::const_iterator ita = a.begin();
     Tensor<cdouble>::const_iterator itb = b.begin();
diff --git a/src/generated/tensor_plus_tt_double.cc b/src/generated/tensor_plus_tt_double.cc
index e5ba921..e979bb6 100644
--- a/src/generated/tensor_plus_tt_double.cc
+++ b/src/generated/tensor_plus_tt_double.cc
@@ -22,7 +22,7 @@
 namespace tensor {
 
   const Tensor<double> operator+(const Tensor<double> &a, const Tensor<double> &b) {
-    assert(a.size() == b.size());
+    assert(verify_tensor_dimensions_match(a.dimensions(), b.dimensions()));
     Tensor<double> output(a.dimensions());
     Tensor<double>::const_iterator ita = a.begin();
     Tensor<double>::const_iterator itb = b.begin();
diff --git a/src/generated/tensor_times_tt_cdouble.cc b/src/generated/tensor_times_tt_cdouble.cc
index af5c521..4e7cc95 100644
--- a/src/generated/tensor_times_tt_cdouble.cc
+++ b/src/generated/tensor_times_tt_cdouble.cc
@@ -22,7 +22,7 @@
 namespace tensor {
 
   const Tensor<cdouble> operator*(const Tensor<cdouble> &a, const Tensor<cdouble> &b) {
-    assert(a.size() == b.size());
+    assert(verify_tensor_dimensions_match(a.dimensions(), b.dimensions()));
     Tensor<cdouble> output(a.dimensions());
     Tensor<cdouble>::const_iterator ita = a.begin();
     Tensor<cdouble>::const_iterator itb = b.begin();
diff --git a/src/generated/tensor_times_tt_double.cc b/src/generated/tensor_times_tt_double.cc
index 020e9b9..816c242 100644
--- a/src/generated/tensor_times_tt_double.cc
+++ b/src/generated/tensor_times_tt_double.cc
@@ -22,7 +22,7 @@
 namespace tensor {
 
   const Tensor<double> operator*(const Tensor<double> &a, const Tensor<double> &b) {
-    assert(a.size() == b.size());
+    assert(verify_tensor_dimensions_match(a.dimensions(), b.dimensions()));
     Tensor<double> output(a.dimensions());
     Tensor<double>::const_iterator ita = a.begin();
     Tensor<double>::const_iterator itb = b.begin();
diff --git a/src/tensor/tensor_t_op_t.cc b/src/tensor/tensor_t_op_t.cc
index 19b45f6..01bb36e 100644
--- a/src/tensor/tensor_t_op_t.cc
+++ b/src/tensor/tensor_t_op_t.cc
@@ -22,7 +22,7 @@
 namespace tensor {
 
   const TYPE3 OPERATOR1(const TYPE1 &a, const TYPE2 &b) {
-    assert(a.size() == b.size());
+    assert(verify_tensor_dimensions_match(a.dimensions(), b.dimensions()));
     TYPE3 output(a.dimensions());
     TYPE1::const_iterator ita = a.begin();
     TYPE2::const_iterator itb = b.begin();
-- 
2.43.0


From 197f40553ab7d46dfcc05350af0293d1401a7c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 12/77] fix: a tensor may be updated with the value of one of
 its elements

---
 include/tensor/detail/functional.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tensor/detail/functional.h b/include/tensor/detail/functional.h
index 13d55e5..853f9a5 100644
--- a/include/tensor/detail/functional.h
+++ b/include/tensor/detail/functional.h
@@ -79,7 +79,7 @@ struct divided {
 //
 template<typename t1, typename t2>
 struct plus_constant {
-  const t2 &value;
+  const t2 value;
   plus_constant(const t2 &b) : value(b) {}
   typename Binop<t1,t2>::type operator()(const t1 &a) {
     return a + value;
@@ -88,7 +88,7 @@ struct plus_constant {
 
 template<typename t1, typename t2>
 struct minus_constant {
-  const t2 &value;
+  const t2 value;
   minus_constant(const t2 &b) : value(b) {}
   typename Binop<t1,t2>::type operator()(const t1 &a) {
     return a - value;
@@ -97,7 +97,7 @@ struct minus_constant {
 
 template<typename t1, typename t2>
 struct times_constant {
-  const t2 &value;
+  const t2 value;
   times_constant(const t2 &b) : value(b) {}
   typename Binop<t1,t2>::type operator()(const t1 &a) {
     return a * value;
@@ -106,7 +106,7 @@ struct times_constant {
 
 template<typename t1, typename t2>
 struct divided_constant {
-  const t2 &value;
+  const t2 value;
   divided_constant(const t2 &b) : value(b) {}
   typename Binop<t1,t2>::type operator()(const t1 &a) {
     return a / value;
-- 
2.43.0


From e5b75e2d63afeb55f8bd6b172e797a897a0f63a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 13/77] fix: to_complex rejects real and imaginary parts of
 different dimensions

---
 src/tensor/tensor_to_complex.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tensor/tensor_to_complex.cc b/src/tensor/tensor_to_complex.cc
index 997fd3b..734f80e 100644
--- a/src/tensor/tensor_to_complex.cc
+++ b/src/tensor/tensor_to_complex.cc
@@ -34,6 +34,7 @@ namespace tensor {
 
   const CTensor to_complex(const RTensor &r, const RTensor &i)
   {
+    assert(verify_tensor_dimensions_match(r.dimensions(), i.dimensions()));
     CTensor output(r.dimensions());
     RTensor::const_iterator ir = r.begin();
     RTensor::const_iterator ii = i.begin();
-- 
2.43.0


From a62c68865ad44adebe40a4536c7b230e81f73cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 14/77] fix: comparisons with the number on the left follow the
 order of their operands

---
 include/tensor/indices.h | 8 ++++----
 include/tensor/tensor.h  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/tensor/indices.h b/include/tensor/indices.h
index ad93c73..4493f2f 100644
--- a/include/tensor/indices.h
+++ b/include/tensor/indices.h
@@ -85,10 +85,10 @@ namespace tensor {
   const Booleans operator!=(const Indices &a, index b);
 
   inline const Booleans operator==(index a, const Indices &b) { return b == a; }
-  inline const Booleans operator<(index a, const Indices &b) { return b >= a; }
-  inline const Booleans operator>(index a, const Indices &b) { return b <= a; }
-  inline const Booleans operator<=(index a, const Indices &b) { return b > a; }
-  inline const Booleans operator>=(index a, const Indices &b) {  return b < a; }
+  inline const Booleans operator<(index a, const Indices &b) { return b > a; }
+  inline const Booleans operator>(index a, const Indices &b) { return b < a; }
+  inline const Booleans operator<=(index a, const Indices &b) { return b >= a; }
+  inline const Booleans operator>=(index a, const Indices &b) {  return b <= a; }
   inline const Booleans operator!=(index a, const Indices &b) { return b != a; }
 
   //////////////////////////////////////////////////////////////////////
diff --git a/include/tensor/tensor.h b/include/tensor/tensor.h
index a9c33ab..bb6b604 100644
--- a/include/tensor/tensor.h
+++ b/include/tensor/tensor.h
@@ -449,10 +449,10 @@ namespace tensor {
   const Booleans operator!=(const RTensor &a, double b);
 
   inline const Booleans operator==(double a, const RTensor &b) { return b == a; }
-  inline const Booleans operator<(double a, const RTensor &b) { return b >= a; }
-  inline const Booleans operator>(double a, const RTensor &b) { return b <= a; }
-  inline const Booleans operator<=(double a, const RTensor &b) { return b > a; }
-  inline const Booleans operator>=(double a, const RTensor &b) {  return b < a; }
+  inline const Booleans operator<(double a, const RTensor &b) { return b > a; }
+  inline const Booleans operator>(double a, const RTensor &b) { return b < a; }
+  inline const Booleans operator<=(double a, const RTensor &b) { return b >= a; }
+  inline const Booleans operator>=(double a, const RTensor &b) {  return b <= a; }
   inline const Booleans operator!=(double a, const RTensor &b) { return b != a; }
 
   const RTensor operator+(const RTensor &a, const RTensor &b);
-- 
2.43.0


From 712ca3e1a912c5ecffe7b3cdb7cffbe195f14d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 15/77] fix: define the comparison of a complex tensor with a
 complex number

---
 src/compare/ctensor_cdouble_e.cc  | 2 +-
 src/compare/ctensor_cdouble_ne.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compare/ctensor_cdouble_e.cc b/src/compare/ctensor_cdouble_e.cc
index 1dcdcb8..d6a1c5e 100644
--- a/src/compare/ctensor_cdouble_e.cc
+++ b/src/compare/ctensor_cdouble_e.cc
@@ -22,7 +22,7 @@
 
 namespace tensor {
 
-  const Booleans operator==(const CTensor &a, double b)
+  const Booleans operator==(const CTensor &a, cdouble b)
   {
     Booleans c(a.size());
     Booleans::iterator ic = c.begin();
diff --git a/src/compare/ctensor_cdouble_ne.cc b/src/compare/ctensor_cdouble_ne.cc
index 8503fdc..5273f2f 100644
--- a/src/compare/ctensor_cdouble_ne.cc
+++ b/src/compare/ctensor_cdouble_ne.cc
@@ -22,7 +22,7 @@
 
 namespace tensor {
 
-  const Booleans operator!=(const CTensor &a, double b)
+  const Booleans operator!=(const CTensor &a, cdouble b)
   {
     Booleans c(a.size());
     Booleans::iterator ic = c.begin();
-- 
2.43.0


From b4cc7fcd6ad5874747374af36c6a238f38ff0b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 16/77] fix: scprod rejects tensors with different numbers of
 elements

---
 src/tensor/tensor_norm2_d.cc | 2 ++
 src/tensor/tensor_norm2_z.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/tensor/tensor_norm2_d.cc b/src/tensor/tensor_norm2_d.cc
index d83433d..c1fbe07 100644
--- a/src/tensor/tensor_norm2_d.cc
+++ b/src/tensor/tensor_norm2_d.cc
@@ -17,6 +17,7 @@
 */
 
 #define TENSOR_LOAD_IMPL
+#include <cassert>
 #include <tensor/tensor.h>
 
 namespace tensor {
@@ -28,6 +29,7 @@ namespace tensor {
 
   double scprod(const RTensor &a, const RTensor &b)
   {
+    assert(a.size() == b.size());
     double output = 0;
     for (RTensor::const_iterator ia = a.begin(), ib = b.begin();
 	 ia != a.end(); ia++, ib++)
diff --git a/src/tensor/tensor_norm2_z.cc b/src/tensor/tensor_norm2_z.cc
index 18522dd..5df9632 100644
--- a/src/tensor/tensor_norm2_z.cc
+++ b/src/tensor/tensor_norm2_z.cc
@@ -17,6 +17,7 @@
 */
 
 #define TENSOR_LOAD_IMPL
+#include <cassert>
 #include <tensor/tensor.h>
 
 namespace tensor {
@@ -28,6 +29,7 @@ namespace tensor {
 
   cdouble scprod(const CTensor &a, const CTensor &b)
   {
+    assert(a.size() == b.size());
     cdouble output = 0;
     for (CTensor::const_iterator ia = a.begin(), ib = b.begin();
 	 ia != a.end(); ia++, ib++)
-- 
2.43.0


From 43e82a5668a90462af03b6ef286cc24fcc6bb841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 17/77] fix: matrix_norminf of a matrix without columns

---
 src/tensor/matrix_norminf_d.cc | 6 +++---
 src/tensor/matrix_norminf_z.cc | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tensor/matrix_norminf_d.cc b/src/tensor/matrix_norminf_d.cc
index f280414..04d31ea 100644
--- a/src/tensor/matrix_norminf_d.cc
+++ b/src/tensor/matrix_norminf_d.cc
@@ -31,10 +31,10 @@ namespace tensor {
 
     double *aux = new double[r];
     RTensor::const_iterator p = m.begin_const();
-    for (size_t i = 0; i < r; i++, p++) {
-      aux[i] = abs(*p);
+    for (size_t i = 0; i < r; i++) {
+      aux[i] = 0.0;
     }
-    for (size_t j = 1; j < c; j++) {
+    for (size_t j = 0; j < c; j++) {
       for (size_t i = 0; i < r; i++, p++) {
 	aux[i] += abs(*p);
       }
diff --git a/src/tensor/matrix_norminf_z.cc b/src/tensor/matrix_norminf_z.cc
index 0499649..b1abd84 100644
--- a/src/tensor/matrix_norminf_z.cc
+++ b/src/tensor/matrix_norminf_z.cc
@@ -31,10 +31,10 @@ namespace tensor {
 
     double *aux = new double[r];
     CTensor::const_iterator p = m.begin_const();
-    for (size_t i = 0; i < r; i++, p++) {
-      aux[i] = abs(*p);
+    for (size_t i = 0; i < r; i++) {
+      aux[i] = 0.0;
     }
-    for (size_t j = 1; j < c; j++) {
+    for (size_t j = 0; j < c; j++) {
       for (size_t i = 0; i < r; i++, p++) {
 	aux[i] += abs(*p);
       }
-- 
2.43.0


From f38491f238d914a91587db9a8fa90c767853c062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 18/77] fix: mean along a dimension rejects dimensions a vector
 does not have

---
 src/tensor/tensor_mean_ndx.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/tensor_mean_ndx.cc b/src/tensor/tensor_mean_ndx.cc
index 0e44f3f..0903ac5 100644
--- a/src/tensor/tensor_mean_ndx.cc
+++ b/src/tensor/tensor_mean_ndx.cc
@@ -27,12 +27,12 @@ namespace {
   Tensor do_mean(const Tensor &t, int ndx)
   {
     int rank = t.rank();
+    ndx = normalize_index(ndx, rank);
     if (rank == 1) {
       Tensor output(1);
       output.at(0) = mean(t);
       return output;
     } else {
-      ndx = normalize_index(ndx, rank);
       Indices dimensions(rank-1);
       tensor::index left = 1, middle, right = 1;
       for (int i = 0, j = 0; i < rank; i++) {
-- 
2.43.0


From db0ee385435a15cb636c8bd691353011cba9aa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:23 +0000
Subject: [PATCH 19/77] fix: mean along the last dimension wrote past its list
 of dimensions

---
 src/tensor/tensor_mean_ndx.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/tensor/tensor_mean_ndx.cc b/src/tensor/tensor_mean_ndx.cc
index 0903ac5..dcbe425 100644
--- a/src/tensor/tensor_mean_ndx.cc
+++ b/src/tensor/tensor_mean_ndx.cc
@@ -37,14 +37,14 @@ namespace {
       tensor::index left = 1, middle, right = 1;
       for (int i = 0, j = 0; i < rank; i++) {
 	tensor::index d = t.dimension(i);
-	dimensions.at(j++) = d;
-	if (i < ndx)
-	  left *= d;
-	else if (i > ndx)
-	  right *= d;
-	else {
+	if (i == ndx) {
 	  middle = d;
-	  j--;
+	} else {
+	  dimensions.at(j++) = d;
+	  if (i < ndx)
+	    left *= d;
+	  else
+	    right *= d;
 	}
       }
       Tensor aux = reshape(t, left, middle, right);
-- 
2.43.0


From 3178ecbd9a4108e9649fd94d398cf19aaf17ef1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:57 +0000
Subject: [PATCH 20/77] fix: linspace accepts end points of any rank

---
 src/indices/linspace.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/indices/linspace.hpp b/src/indices/linspace.hpp
index fe99c8d..8b5580f 100644
--- a/src/indices/linspace.hpp
+++ b/src/indices/linspace.hpp
@@ -33,10 +33,10 @@ namespace tensor {
     if (n == 1) {
       output = min;
     } else if (n) {
-      const Tensor<elt_t> base = reshape(max, d);
+      const Tensor<elt_t> base = reshape(min, d);
       const Tensor<elt_t> delta = reshape((max - min) / (n - 1.0), d);
       for (index i = 0; i < n; i++) {
-        output.at(range(), range(i)) = delta * (double)i + min;
+        output.at(range(), range(i)) = delta * (double)i + base;
       }
     }
     if (d == 1)
-- 
2.43.0


From f9315e68f161b8cfec8ce5b4365b498d8595f85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:57 +0000
Subject: [PATCH 21/77] fix: linspace ends at its end point without rounding
 errors

---
 src/indices/linspace.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/indices/linspace.hpp b/src/indices/linspace.hpp
index 8b5580f..eb2ef25 100644
--- a/src/indices/linspace.hpp
+++ b/src/indices/linspace.hpp
@@ -38,6 +38,7 @@ namespace tensor {
       for (index i = 0; i < n; i++) {
         output.at(range(), range(i)) = delta * (double)i + base;
       }
+      output.at(range(), range(n-1)) = reshape(max, d);
     }
     if (d == 1)
       return reshape(output, n);
-- 
2.43.0


From 27bad468175a905e098688963c592597f15328d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:57 +0000
Subject: [PATCH 22/77] fix: sort compares indices as integers, not as doubles

---
 src/tensor/tensor_sort_i.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/tensor_sort_i.cc b/src/tensor/tensor_sort_i.cc
index 85a512c..883bfb1 100644
--- a/src/tensor/tensor_sort_i.cc
+++ b/src/tensor/tensor_sort_i.cc
@@ -28,9 +28,9 @@ namespace tensor {
   {
     Indices output(v);
     if (reverse) {
-      std::sort(output.begin(), output.end(), std::greater<double>());
+      std::sort(output.begin(), output.end(), std::greater<index>());
     } else {
-      std::sort(output.begin(), output.end(), std::less<double>());
+      std::sort(output.begin(), output.end(), std::less<index>());
     }
     return output;
   }
-- 
2.43.0


From 549a397503f8477146772cf7c7348062c5ec938b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:20 +0000
Subject: [PATCH 23/77] fix: product of a tensor and a sparse matrix no longer
 aborts

---
 src/sparse/mmult_tensor_sparse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse/mmult_tensor_sparse.h b/src/sparse/mmult_tensor_sparse.h
index eb8e7fc..f786dfc 100644
--- a/src/sparse/mmult_tensor_sparse.h
+++ b/src/sparse/mmult_tensor_sparse.h
@@ -63,7 +63,7 @@ do_mmult(const Tensor<elt_t> &m1, const Sparse<elt_t> &m2)
 	dims.at(k) = m1.dimension(k);
 	i_len *= dims[k];
     }
-    index j_len = m1.dimension(-1);
+    index j_len = m1.dimension(N-1);
     index l_len = dims.at(N-1) = m2.columns();
 
     if (j_len != m2.rows()) {
-- 
2.43.0


From fdade735fd92dcac5a7e5f5f4b2b1e21f9e53475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:20 +0000
Subject: [PATCH 24/77] fix: kron2_sum of sparse matrices equals that of dense
 matrices

---
 src/sparse/sparse_kron_d.cc | 6 +++---
 src/sparse/sparse_kron_z.cc | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sparse/sparse_kron_d.cc b/src/sparse/sparse_kron_d.cc
index e441eaf..a4359d8 100644
--- a/src/sparse/sparse_kron_d.cc
+++ b/src/sparse/sparse_kron_d.cc
@@ -33,10 +33,10 @@ namespace tensor {
     return kron(s2, s1);
   }
 
-  const Sparse<double> kron2_sum(const Sparse<double> &s2, const Sparse<double> &s1)
+  const Sparse<double> kron2_sum(const Sparse<double> &s1, const Sparse<double> &s2)
   {
-    return kron(s1, Sparse<double>::eye(s2.length())) +
-      kron(Sparse<double>::eye(s1.length()), s2);
+    return kron(s1, Sparse<double>::eye(s2.rows(), s2.columns())) +
+      kron(Sparse<double>::eye(s1.rows(), s1.columns()), s2);
   }
 
 } // namespace tensor
diff --git a/src/sparse/sparse_kron_z.cc b/src/sparse/sparse_kron_z.cc
index 1523f9e..7495a20 100644
--- a/src/sparse/sparse_kron_z.cc
+++ b/src/sparse/sparse_kron_z.cc
@@ -33,10 +33,10 @@ namespace tensor {
     return kron(s2, s1);
   }
 
-  const Sparse<cdouble> kron2_sum(const Sparse<cdouble> &s2, const Sparse<cdouble> &s1)
+  const Sparse<cdouble> kron2_sum(const Sparse<cdouble> &s1, const Sparse<cdouble> &s2)
   {
-    return kron(s1, Sparse<cdouble>::eye(s2.length())) +
-      kron(Sparse<cdouble>::eye(s1.length()), s2);
+    return kron(s1, Sparse<cdouble>::eye(s2.rows(), s2.columns())) +
+      kron(Sparse<cdouble>::eye(s1.rows(), s1.columns()), s2);
   }
 
 } // namespace tensor
-- 
2.43.0


From d6d313020e8bbdeb758a0279db442ba41fb14380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:20 +0000
Subject: [PATCH 25/77] fix: sparse matrices have room for all their triplets

---
 include/tensor/detail/sparse_base.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/tensor/detail/sparse_base.hpp b/include/tensor/detail/sparse_base.hpp
index d3f6389..d5001c9 100644
--- a/include/tensor/detail/sparse_base.hpp
+++ b/include/tensor/detail/sparse_base.hpp
@@ -101,8 +101,9 @@ namespace tensor {
     for (i = 0; i < l; i++) {
       index r = rows[i];
       index c = cols[i];
-      nrows = std::max(nrows, r);
-      ncols = std::max(ncols, c);
+      assert(r >= 0 && c >= 0);
+      nrows = std::max(nrows, r+1);
+      ncols = std::max(ncols, c+1);
       if (data[i] != number_zero<elt_t>()) {
         sorted_data.push_back(sparse_triplet<elt_t>(r, c, data[i]));
       }
-- 
2.43.0


From fc8668240e26d539696df4948bb9812ca2155134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 26/77] fix: repeated triplets of a sparse matrix give a single
 element

---
 include/tensor/detail/sparse_base.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tensor/detail/sparse_base.hpp b/include/tensor/detail/sparse_base.hpp
index d5001c9..921f2f7 100644
--- a/include/tensor/detail/sparse_base.hpp
+++ b/include/tensor/detail/sparse_base.hpp
@@ -130,6 +130,7 @@ namespace tensor {
       }
       column_.at(j) = d.col;
       data_.at(j) = d.value;
+      last_col = d.col;
       j++;
     }
     while (last_row < nrows) {
-- 
2.43.0


From 8bf38ee0a2274446e32f12824d29704d9bce27c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 27/77] fix: only matrices are converted to sparse form

---
 include/tensor/detail/sparse_base.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tensor/detail/sparse_base.hpp b/include/tensor/detail/sparse_base.hpp
index 921f2f7..1bbda36 100644
--- a/include/tensor/detail/sparse_base.hpp
+++ b/include/tensor/detail/sparse_base.hpp
@@ -178,6 +178,7 @@ namespace tensor {
     dims_(t.dimensions()), row_start_(t.rows()+1),
     column_(), data_()
   {
+    assert(t.rank() == 2);
     index nonzero = number_of_nonzero<elt_t>(t);
     column_ = Indices(nonzero);
     data_ = Tensor<elt_t>(nonzero);
-- 
2.43.0


From cd1138f804ab24a5d32fe8069637cd7a73ec7169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:12 +0000
Subject: [PATCH 28/77] fix: repeated triplets leave no unused room in the
 sparse matrix

---
 include/tensor/detail/sparse_base.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/tensor/detail/sparse_base.hpp b/include/tensor/detail/sparse_base.hpp
index 1bbda36..6995f68 100644
--- a/include/tensor/detail/sparse_base.hpp
+++ b/include/tensor/detail/sparse_base.hpp
@@ -74,6 +74,9 @@ namespace tensor {
         return col < other.col;
       return 0;
     }
+    static bool same_place(const sparse_triplet &a, const sparse_triplet &b) {
+      return a.row == b.row && a.col == b.col;
+    }
   };
 
   template<typename elt_t>
@@ -109,6 +112,9 @@ namespace tensor {
       }
     }
     std::sort(sorted_data.begin(), sorted_data.end());
+    sorted_data.erase(std::unique(sorted_data.begin(), sorted_data.end(),
+                                  sparse_triplet<elt_t>::same_place),
+                      sorted_data.end());
     dims_.at(0) = nrows;
     dims_.at(1) = ncols;
     row_start_ = Indices(nrows+1);
-- 
2.43.0


From 0e809ab1b323b2a80025fc24b40b9529fbb75d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:08 +0000
Subject: [PATCH 29/77] fix: a shared data file cannot have two owners

---
 include/tensor/sdf.h |  2 +-
 src/sdf/data_file.cc | 15 +++++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/tensor/sdf.h b/include/tensor/sdf.h
index dbc7f45..57b34d4 100644
--- a/include/tensor/sdf.h
+++ b/include/tensor/sdf.h
@@ -72,7 +72,7 @@ namespace sdf {
     const char *tag_to_name(size_t tag);
     void close();
     bool is_open() { return _open; }
-    bool is_locked() { return _lock; }
+    bool is_locked() { return _lock >= 0; }
     const std::string &actual_filename() { return _actual_filename; }
 
   };
diff --git a/src/sdf/data_file.cc b/src/sdf/data_file.cc
index 9c6b34f..c75511c 100644
--- a/src/sdf/data_file.cc
+++ b/src/sdf/data_file.cc
@@ -57,7 +57,18 @@ static int get_lock(char const *lockName, bool wait)
 	  close(fd);
 	  fd = -1;
 	}
-      if (fd > 0 || !wait)
+      if (fd >= 0) {
+          /* The previous owner deletes the lock file when it releases it. If
+           * that happened between open() and flock(), we locked a file which
+           * nobody else can see and we have to try again. */
+          struct stat ours, theirs;
+          if (fstat(fd, &ours) < 0 || stat(lockName, &theirs) < 0 ||
+              ours.st_dev != theirs.st_dev || ours.st_ino != theirs.st_ino) {
+            close(fd);
+            continue;
+          }
+      }
+      if (fd >= 0 || !wait)
 	return fd;
       sleep(1);
     } while (1);
@@ -81,7 +92,7 @@ DataFile::DataFile(const std::string &a_filename, int flags) :
   _actual_filename(a_filename),
   _filename(_actual_filename),
   _lock_filename(_actual_filename + ".lck"),
-  _lock((flags == SDF_SHARED) ? get_lock(_lock_filename.c_str(), true) : 0),
+  _lock((flags == SDF_SHARED) ? get_lock(_lock_filename.c_str(), true) : -1),
   _open(true)
 {
   switch (flags) {
-- 
2.43.0


From 17e4a868027919e20d2eb9ef3a475be88352d21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:08 +0000
Subject: [PATCH 30/77] fix: rename_file replaces its destination atomically

---
 src/sdf/rename_file.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sdf/rename_file.cc b/src/sdf/rename_file.cc
index c937f53..cd5f7e1 100644
--- a/src/sdf/rename_file.cc
+++ b/src/sdf/rename_file.cc
@@ -24,8 +24,14 @@ namespace sdf {
 
   bool rename_file(const std::string &orig, const std::string &dest, bool overwrite)
   {
+    // rename() replaces an existing destination in a single step
+#if defined(_MSC_VER) || defined(__MINGW32__)
+    const bool replaces = false;
+#else
+    const bool replaces = true;
+#endif
     if (file_exists(dest)) {
-      if (!overwrite || !delete_file(dest)) {
+      if (!overwrite || !(replaces || delete_file(dest))) {
 	std::cerr << "Unable to move file to destination " << dest
 		  << " because destination cannot be deleted." << std::endl;
 	abort();
-- 
2.43.0


From 0d725d22fcee87564f7f9fba45e03408913da718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:08 +0000
Subject: [PATCH 31/77] fix: errors when writing, closing or renaming a data
 file are reported

---
 src/sdf/data_file.cc  | 13 ++++++++++---
 src/sdf/odata_file.cc | 16 ++++++++++++----
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/sdf/data_file.cc b/src/sdf/data_file.cc
index c75511c..fcea478 100644
--- a/src/sdf/data_file.cc
+++ b/src/sdf/data_file.cc
@@ -106,7 +106,10 @@ DataFile::DataFile(const std::string &a_filename, int flags) :
     break;
   case SDF_PARANOID:
     _actual_filename = _actual_filename + ".tmp";
-    delete_file(_actual_filename);
+    if (file_exists(_actual_filename) && !delete_file(_actual_filename)) {
+      std::cerr << "Cannot delete file " << _actual_filename << std::endl;
+      abort();
+    }
     break;
   default:
     std::cerr << "Unrecognized DataFile mode " <<  flags << std::endl;
@@ -131,8 +134,12 @@ DataFile::close()
       }
       break;
     case SDF_PARANOID:
-      if (file_exists(_actual_filename))
-        rename_file(_actual_filename, _filename);
+      if (file_exists(_actual_filename) &&
+          !rename_file(_actual_filename, _filename)) {
+        std::cerr << "Cannot rename file " << _actual_filename << " to "
+                  << _filename << std::endl;
+        abort();
+      }
     }
   }
 }
diff --git a/src/sdf/odata_file.cc b/src/sdf/odata_file.cc
index a38e255..d52ba98 100644
--- a/src/sdf/odata_file.cc
+++ b/src/sdf/odata_file.cc
@@ -27,13 +27,13 @@ template <class number>
 void write_raw_with_endian(std::ofstream &s, const number *data, size_t n)
 {
   s.write((char *)data, n * sizeof(number));
-  if (s.bad()) {
-    std::cerr << "I/O error when writing to SDF stream";
-    abort();
-  }
   // Horrible hack to ensure icc flushes our buffers and does not
   // cause buffer overflow.
   s.flush();
+  if (!s) {
+    std::cerr << "I/O error when writing to SDF stream";
+    abort();
+  }
 }
 
 #else
@@ -100,6 +100,10 @@ OutDataFile::OutDataFile(const std::string &a_filename, int flags) :
 {
   bool existed = file_exists(actual_filename());
   _stream.open(actual_filename().c_str(), std::ofstream::app | std::ofstream::binary);
+  if (!_stream) {
+    std::cerr << "Cannot open file " << actual_filename() << std::endl;
+    abort();
+  }
   if (!existed) {
     write_header();
   }
@@ -116,6 +120,10 @@ OutDataFile::close()
   if (is_open()) {
     _stream.flush();
     _stream.close();
+    if (!_stream) {
+      std::cerr << "I/O error when closing SDF stream " << actual_filename();
+      abort();
+    }
     DataFile::close();
   }
 }
-- 
2.43.0


From 6eaef393a242012ee3e785331b50264793804392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:08 +0000
Subject: [PATCH 32/77] fix: data files that end too early are reported

---
 src/sdf/idata_file.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sdf/idata_file.cc b/src/sdf/idata_file.cc
index b3f02b7..5571802 100644
--- a/src/sdf/idata_file.cc
+++ b/src/sdf/idata_file.cc
@@ -26,7 +26,7 @@ template <class number>
 void read_raw_with_endian(std::ifstream &s, number *data, size_t n)
 {
   s.read((char *)data, n * sizeof(number));
-  if (s.bad()) {
+  if (!s) {
     std::cerr << "I/O error when reading from SDF stream";
     abort();
   }
-- 
2.43.0


From 45eae0ed34e523dab47cbc403206ddadb9ab41d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:08 +0000
Subject: [PATCH 33/77] fix: names without terminator are not read past their
 end

---
 src/sdf/idata_file.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sdf/idata_file.cc b/src/sdf/idata_file.cc
index 5571802..4f575bf 100644
--- a/src/sdf/idata_file.cc
+++ b/src/sdf/idata_file.cc
@@ -17,6 +17,7 @@
     51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 */
 
+#include <algorithm>
 #include <tensor/sdf.h>
 
 using namespace sdf;
@@ -146,7 +147,7 @@ InDataFile::read_variable_name()
 {
   char *buffer = new char[var_name_size];
   read_raw(buffer, var_name_size);
-  std::string output(buffer);
+  std::string output(buffer, std::find(buffer, buffer + var_name_size, '\0'));
   delete[] buffer;
   return output;
 }
-- 
2.43.0


From 18e3f310808edcb2a099353315bd074900d4ff73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:08 +0000
Subject: [PATCH 34/77] fix: invalid tags of data files are not used as
 positions of a list

---
 src/sdf/data_file.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sdf/data_file.cc b/src/sdf/data_file.cc
index fcea478..43aaf02 100644
--- a/src/sdf/data_file.cc
+++ b/src/sdf/data_file.cc
@@ -151,8 +151,9 @@ DataFile::tag_to_name(size_t tag)
 	"RTensor", "CTensor", "Real MPS", "Complex MPS"
     };
 
-    if (tag > 4 /* || tag < 0 */) {
+    if (tag > TAG_CTENSOR_VECTOR /* || tag < 0 */) {
 	std::cerr << "Not a valid tag code, " << tag << " found in " << _filename;
+	abort();
     }
     return names[tag];
 }
-- 
2.43.0


From 444c16ecd07727aed4eeff3e40bed52cfd932813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:08 +0000
Subject: [PATCH 35/77] fix: an empty tensor is not loaded as a number

---
 src/sdf/idata_file.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sdf/idata_file.cc b/src/sdf/idata_file.cc
index 4f575bf..d25e53d 100644
--- a/src/sdf/idata_file.cc
+++ b/src/sdf/idata_file.cc
@@ -224,7 +224,7 @@ InDataFile::load(double *value, const std::string &name)
 {
   RTensor t;
   load(&t, name);
-  if (t.size() > 1) {
+  if (t.size() != 1) {
     std::cerr << "While reading file " << _filename << " found a tensor of size "
 	      << t.size() << " while a single value was expected.";
     abort();
@@ -237,7 +237,7 @@ InDataFile::load(cdouble *value, const std::string &name)
 {
   CTensor t;
   load(&t, name);
-  if (t.size() > 1) {
+  if (t.size() != 1) {
     std::cerr << "While reading file " << _filename << " found a tensor of size "
 	      << t.size() << " while a single value was expected.";
     abort();
-- 
2.43.0


From 36f5862cc58812d668d3ec72dac42f2e5b22142f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:08 +0000
Subject: [PATCH 36/77] fix: reading a data file never deletes or replaces it

---
 include/tensor/sdf.h  | 3 ++-
 src/sdf/data_file.cc  | 9 ++++++++-
 src/sdf/idata_file.cc | 2 +-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/tensor/sdf.h b/include/tensor/sdf.h
index 57b34d4..c7f00ee 100644
--- a/include/tensor/sdf.h
+++ b/include/tensor/sdf.h
@@ -67,7 +67,8 @@ namespace sdf {
     static const enum endianness endian;
     static const unsigned int var_name_size;
 
-    DataFile(const std::string &a_filename, int flags = SDF_SHARED);
+    DataFile(const std::string &a_filename, int flags = SDF_SHARED,
+             bool read_only = false);
     ~DataFile();
     const char *tag_to_name(size_t tag);
     void close();
diff --git a/src/sdf/data_file.cc b/src/sdf/data_file.cc
index 43aaf02..617a74e 100644
--- a/src/sdf/data_file.cc
+++ b/src/sdf/data_file.cc
@@ -87,7 +87,7 @@ static void giveup_lock(int fd, char const *lockName)
 #endif
 }
 
-DataFile::DataFile(const std::string &a_filename, int flags) :
+DataFile::DataFile(const std::string &a_filename, int flags, bool read_only) :
   _flags(flags),
   _actual_filename(a_filename),
   _filename(_actual_filename),
@@ -97,6 +97,8 @@ DataFile::DataFile(const std::string &a_filename, int flags) :
 {
   switch (flags) {
   case SDF_OVERWRITE:
+    if (read_only)
+      break;
     if (file_exists(_actual_filename) && !delete_file(_actual_filename)) {
       std::cerr << "Cannot overwrite file " << _actual_filename << std::endl;
       abort();
@@ -105,6 +107,11 @@ DataFile::DataFile(const std::string &a_filename, int flags) :
   case SDF_SHARED:
     break;
   case SDF_PARANOID:
+    if (read_only) {
+      // There is nothing to replace when closing
+      _flags = SDF_OVERWRITE;
+      break;
+    }
     _actual_filename = _actual_filename + ".tmp";
     if (file_exists(_actual_filename) && !delete_file(_actual_filename)) {
       std::cerr << "Cannot delete file " << _actual_filename << std::endl;
diff --git a/src/sdf/idata_file.cc b/src/sdf/idata_file.cc
index d25e53d..0fe71e9 100644
--- a/src/sdf/idata_file.cc
+++ b/src/sdf/idata_file.cc
@@ -84,7 +84,7 @@ void read_raw_with_endian(std::ifstream &s, number *data, size_t n)
 #endif
 
 InDataFile::InDataFile(const std::string &a_filename, int flags) :
-  DataFile(a_filename, flags),
+  DataFile(a_filename, flags, true),
   _stream(actual_filename().c_str(),
           std::ios_base::in | std::ios_base::binary)
 {
-- 
2.43.0


From 115f175946656b3744d4b1eeeadf64d482ab9232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:08 +0000
Subject: [PATCH 37/77] fix: records with long names can be loaded by name

---
 src/sdf/idata_file.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sdf/idata_file.cc b/src/sdf/idata_file.cc
index 0fe71e9..c42ffa5 100644
--- a/src/sdf/idata_file.cc
+++ b/src/sdf/idata_file.cc
@@ -156,7 +156,8 @@ void
 InDataFile::read_tag(const std::string &name, tensor::index type)
 {
   std::string other_name = read_variable_name();
-  if (name.size() && (name != other_name)) {
+  // Files keep at most var_name_size - 1 characters of a name
+  if (name.size() && (name.substr(0, var_name_size - 1) != other_name)) {
     std::cerr << "While reading file " << _filename << ", variable "
 	      << name << " was expected but found "
 	      << other_name << '\n';
-- 
2.43.0


From def8650bc9e1d6b756a24e98233c2adb6315d224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:41 +0000
Subject: [PATCH 38/77] fix: copies of a shared_ptr share its ownership

---
 include/tensor/refcount.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/tensor/refcount.h b/include/tensor/refcount.h
index 8341d39..5bdcba2 100644
--- a/include/tensor/refcount.h
+++ b/include/tensor/refcount.h
@@ -104,7 +104,14 @@ private:
   class shared_ptr {
   public:
     shared_ptr(T *t) : _value(t), _ref(new int(1)) {}
+    shared_ptr(const shared_ptr &p) : _value(p._value), _ref(p._ref) { ++(*_ref); }
     ~shared_ptr() { --(*_ref); if (!(*_ref)) { delete _value; delete _ref; }}
+    shared_ptr &operator=(const shared_ptr &p) {
+      shared_ptr copy(p);
+      std::swap(_ref, copy._ref);
+      std::swap(_value, copy._value);
+      return *this;
+    }
     T* operator->() const { return _value; }
     T& operator*() const { return *_value; }
   private:
-- 
2.43.0


From 807978c0726ab819e65e467e22c0805b1d5e8baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 39/77] fix: a shared file whose first owner died early gets
 its header

---
 src/sdf/odata_file.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sdf/odata_file.cc b/src/sdf/odata_file.cc
index d52ba98..7bc744c 100644
--- a/src/sdf/odata_file.cc
+++ b/src/sdf/odata_file.cc
@@ -98,13 +98,16 @@ void write_raw_with_endian(std::ofstream &s, const number *data, size_t n)
 OutDataFile::OutDataFile(const std::string &a_filename, int flags) :
   DataFile(a_filename, flags)
 {
-  bool existed = file_exists(actual_filename());
   _stream.open(actual_filename().c_str(), std::ofstream::app | std::ofstream::binary);
   if (!_stream) {
     std::cerr << "Cannot open file " << actual_filename() << std::endl;
     abort();
   }
-  if (!existed) {
+  // The file may exist but be empty, if its previous owner died before it wrote
+  // anything. Pipes and devices have no size and get no header.
+  if (!_stream.seekp(0, std::ios_base::end)) {
+    _stream.clear();
+  } else if (_stream.tellp() == std::streampos(0)) {
     write_header();
   }
 }
-- 
2.43.0


From d61798952bfe23ac11b94596e1953fd128948d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 40/77] fix: --job reads the variables from the file

---
 src/tools/jobs.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index 72b86ff..5f5f3ca 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -25,7 +25,7 @@ using namespace jobs;
 static inline
 bool is_separator(char c)
 {
-  return (c == ' ') || (c == '\t') || (c == '\n') || (c == ',') || (c == ';');
+  return (c == ' ') || (c == '\t') || (c == '\n') || (c == '\r') || (c == ',') || (c == ';');
 }
 
 std::vector<std::string>
@@ -89,15 +89,17 @@ Job::parse_line(const std::string &s)
 int
 Job::parse_file(std::istream &s, var_list &data)
 {
+  // Returns the line of the first error or zero if there was none. Lines without
+  // any data are ignored.
   std::string buffer;
-  int line;
-  for (line = 0; 1; line++) {
+  for (int line = 1; std::getline(s, buffer); line++) {
+    if (split_string(buffer).size() == 0)
+      continue;
     const Variable v = parse_line(buffer);
     if (v.name().size() == 0)
       return line;
-    else
-      data.push_back(v);
-  } while(1);
+    data.push_back(v);
+  }
   return 0;
 }
 
@@ -120,6 +122,10 @@ Job::Job(int argc, const char **argv) :
       }
       filename_ = std::string(argv[i]);
       std::ifstream s(argv[i]);
+      if (!s) {
+	std::cerr << "Cannot open job file " << filename_ << std::endl;
+	abort();
+      }
       int line = parse_file(s, variables_);
       if (line) {
 	std::cerr << "Syntax error in line " << line << " of job file " << filename_
-- 
2.43.0


From 9098bb73d8125d4dd7e1920e6996c147ab4bc1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 41/77] fix: --first-job without --last-job runs all remaining
 jobs

---
 src/tools/jobs.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index 5f5f3ca..127bbe5 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -252,6 +252,8 @@ Job::Job(int argc, const char **argv) :
         std::cerr << "--last-job is smaller than --first-job" << std::endl;
         abort();
       }
+    } else {
+      last_job_ = number_of_jobs_ - 1;
     }
     current_job = first_job_;
   } else if (this_job_found) {
-- 
2.43.0


From d937e0369d72c90e57ce42defc6441fc57164bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 42/77] fix: --job-blocks without --this-job runs the first
 block

---
 src/tools/jobs.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index 127bbe5..c72207e 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -111,8 +111,8 @@ Job::Job(int argc, const char **argv) :
   bool last_job_found = false;
   bool job_blocks_found = false;
   bool this_job_found = false;
-  tensor::index blocks;
-  tensor::index current_job;
+  tensor::index blocks = 1;
+  tensor::index current_job = 0;
   int i;
   for (i = 0; i < argc; i++) {
     if (!strcmp(argv[i], "--job")) {
-- 
2.43.0


From 61471caa594fb60dc36a3d1bd20b730c3e250855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 43/77] fix: variables without steps are rejected

---
 src/tools/jobs.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index c72207e..64714c9 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -81,6 +81,11 @@ Job::parse_line(const std::string &s)
       return no_variable;
     } else {
       nsteps = atoi(data[3].c_str());
+      if (nsteps <= 0) {
+        std::cerr << "The number of steps of variable " << data[0]
+                  << " must be positive" << std::endl;
+        return no_variable;
+      }
     }
   }
   return Variable(data[0], min, max, nsteps);
-- 
2.43.0


From 59eedbe2ff5d4b8f891838d9bb603d6f245ecf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 44/77] fix: malformed numbers in job options are rejected

---
 src/tools/jobs.cc | 56 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 47 insertions(+), 9 deletions(-)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index 64714c9..d4eb7de 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -19,6 +19,8 @@
 
 #include <tensor/jobs.h>
 #include <fstream>
+#include <cerrno>
+#include <cstdlib>
 
 using namespace jobs;
 
@@ -48,6 +50,36 @@ split_string(const std::string &s)
   return output;
 }
 
+// Convert the whole string to a number. Return false if this is not possible.
+static bool
+to_double(const std::string &s, double &value)
+{
+  char *end;
+  value = strtod(s.c_str(), &end);
+  return (end != s.c_str()) && (*end == 0);
+}
+
+static bool
+to_integer(const std::string &s, tensor::index &value)
+{
+  char *end;
+  errno = 0;
+  value = strtol(s.c_str(), &end, 10);
+  return (end != s.c_str()) && (*end == 0) && (errno == 0);
+}
+
+static tensor::index
+integer_argument(const char *option, const char *s)
+{
+  tensor::index value;
+  if (!to_integer(s, value)) {
+    std::cerr << "Argument to " << option << " is not an integer: " << s
+              << std::endl;
+    abort();
+  }
+  return value;
+}
+
 const Job::Variable Job::no_variable;
 
 const Job::Variable
@@ -67,23 +99,29 @@ Job::parse_line(const std::string &s)
     std::cerr << "Missing minimum value for variable " << data[0] << std::endl;
     return no_variable;
   }
-  double max, min = atof(data[1].c_str());
+  double max, min;
   tensor::index nsteps;
+  if (!to_double(data[1], min)) {
+    std::cerr << "Not a number: " << data[1] << std::endl;
+    return no_variable;
+  }
   if (data.size() == 2) {
     max = min;
     nsteps = 1;
   } else {
-    max = atof(data[2].c_str());
+    if (!to_double(data[2], max)) {
+      std::cerr << "Not a number: " << data[2] << std::endl;
+      return no_variable;
+    }
     if (data.size() == 3) {
       nsteps = 10;
     } else if (data.size() > 4) {
       std::cerr << "Too many arguments for variable " << data[0] << std::endl;
       return no_variable;
     } else {
-      nsteps = atoi(data[3].c_str());
-      if (nsteps <= 0) {
+      if (!to_integer(data[3], nsteps) || nsteps <= 0) {
         std::cerr << "The number of steps of variable " << data[0]
-                  << " must be positive" << std::endl;
+                  << " must be a positive integer" << std::endl;
         return no_variable;
       }
     }
@@ -144,14 +182,14 @@ Job::Job(int argc, const char **argv) :
 	std::cerr << "Missing argument to --this-job" << std::endl;
 	abort();
       }
-      current_job = atoi(argv[i]);
+      current_job = integer_argument("--this-job", argv[i]);
       this_job_found = true;
     } else if (!strcmp(argv[i], "--job-blocks")) {
       if (++i == argc) {
 	std::cerr << "Missing argument to --job-blocks" << std::endl;
 	abort();
       }
-      blocks = atoi(argv[i]);
+      blocks = integer_argument("--job-blocks", argv[i]);
       job_blocks_found = true;
     } else if (!strcmp(argv[i], "--first-job")) {
       if (this_job_found) {
@@ -162,7 +200,7 @@ Job::Job(int argc, const char **argv) :
 	std::cerr << "Missing argument to --first-job" << std::endl;
 	abort();
       }
-      first_job_ = atoi(argv[i]);
+      first_job_ = integer_argument("--first-job", argv[i]);
       first_job_found = true;
     } else if (!strcmp(argv[i], "--last-job")) {
       if (!first_job_found) {
@@ -173,7 +211,7 @@ Job::Job(int argc, const char **argv) :
 	std::cerr << "Missing argument to --last-job" << std::endl;
 	abort();
       }
-      last_job_ = atoi(argv[i]);
+      last_job_ = integer_argument("--last-job", argv[i]);
       last_job_found = true;
     } else if (!strcmp(argv[i], "--variable")) {
       if (++i == argc) {
-- 
2.43.0


From 0062f3182280741c619bb51de1c7da5a35f080b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 45/77] fix: --first-job and --this-job are refused in any
 order

---
 src/tools/jobs.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index d4eb7de..a7c398d 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -178,6 +178,10 @@ Job::Job(int argc, const char **argv) :
     } else if (!strcmp(argv[i], "--print-jobs")) { 
       print_jobs = true;
     } else if (!strcmp(argv[i], "--this-job")) {
+      if (first_job_found) {
+        std::cerr << "Cannot use --first-job and --this-job simultaneously." << std::endl;
+        abort();
+      }
       if (++i == argc) {
 	std::cerr << "Missing argument to --this-job" << std::endl;
 	abort();
-- 
2.43.0


From 57c3871bd2a67713f8ae9b4c1e27c11d387f0054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 46/77] fix: rand<long> of a positive range is never negative

---
 include/tensor/rand.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tensor/rand.h b/include/tensor/rand.h
index 2d77084..e230b86 100644
--- a/include/tensor/rand.h
+++ b/include/tensor/rand.h
@@ -72,7 +72,7 @@ template<> inline int rand<int>(int lower, int upper) {
 
 template<> inline long rand<long>(long upper) {
   if (upper)
-    return (long)rand<unsigned long>() % upper;
+    return rand<unsigned long>() % upper;
   return 0;
 }
 
-- 
2.43.0


From 589cfbae42e18a95abe31c7caae061e70acdcc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 47/77] fix: default tolerance of solve_with_svd is relative to
 the matrix

---
 src/linalg/solve_with_svd_d.cc | 4 +++-
 src/linalg/solve_with_svd_z.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/linalg/solve_with_svd_d.cc b/src/linalg/solve_with_svd_d.cc
index d95c7df..780effc 100644
--- a/src/linalg/solve_with_svd_d.cc
+++ b/src/linalg/solve_with_svd_d.cc
@@ -18,6 +18,7 @@
 */
 
 #include <cfloat>
+#include <algorithm>
 #include <tensor/tensor.h>
 #include <tensor/linalg.h>
 
@@ -30,6 +31,7 @@ namespace linalg {
      This function solves the system of equations A * X = B using the SVD
      of the matrix A = U * S * VT, through the formula X = V * (S^-1) * UT * B.
      When computing (S^-1), singular values below the tolerance are discarded.
+     By default, these are the values that are zero up to rounding errors.
      
      \ingroup Linalg
   */
@@ -39,7 +41,7 @@ namespace linalg {
     RTensor U, VT;
     RTensor s = svd(A, &U, &VT, SVD_ECONOMIC);
     if (tol <= 0) {
-      tol = DBL_EPSILON;
+      tol = DBL_EPSILON * std::max(A.rows(), A.columns()) * s[0];
     }
     // Singular values below the tolerance do not contribute to the solution.
     RTensor inv_s(s.size());
diff --git a/src/linalg/solve_with_svd_z.cc b/src/linalg/solve_with_svd_z.cc
index 6d364e1..2f4cbe6 100644
--- a/src/linalg/solve_with_svd_z.cc
+++ b/src/linalg/solve_with_svd_z.cc
@@ -18,6 +18,7 @@
 */
 
 #include <cfloat>
+#include <algorithm>
 #include <tensor/tensor.h>
 #include <tensor/linalg.h>
 
@@ -30,6 +31,7 @@ namespace linalg {
      This function solves the system of equations A * X = B using the SVD
      of the matrix A = U * S * VT, through the formula X = V * (S^-1) * UT * B.
      When computing (S^-1), singular values below the tolerance are discarded.
+     By default, these are the values that are zero up to rounding errors.
      
      \ingroup Linalg
   */
@@ -39,7 +41,7 @@ namespace linalg {
     CTensor U, VT;
     RTensor s = svd(A, &U, &VT, SVD_ECONOMIC);
     if (tol <= 0) {
-      tol = DBL_EPSILON;
+      tol = DBL_EPSILON * std::max(A.rows(), A.columns()) * s[0];
     }
     // Singular values below the tolerance do not contribute to the solution.
     RTensor inv_s(s.size());
-- 
2.43.0


From 234471134941b9c80638111cb79e8c4a37e5762d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 48/77] fix: solve rejects tensors that are not matrices

---
 src/linalg/solve_d.cc | 2 +-
 src/linalg/solve_z.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linalg/solve_d.cc b/src/linalg/solve_d.cc
index a164dae..4446c30 100644
--- a/src/linalg/solve_d.cc
+++ b/src/linalg/solve_d.cc
@@ -43,7 +43,7 @@ namespace linalg {
     blas::integer nrhs;
 
     // Currently, we only solve square systems
-    if ((size_t)n != A.columns()) {
+    if (A.rank() != 2 || (size_t)n != A.columns()) {
       std::cerr << "Routine solve() can only operate on square systems of equations, i.e\n"
                 << "when the number of unknowns is equal to the number of equations.\n"
                 << "However, you have passed a matrix of size " << A.columns() << " by " << A.rows();
diff --git a/src/linalg/solve_z.cc b/src/linalg/solve_z.cc
index 0688578..3bdc4e3 100644
--- a/src/linalg/solve_z.cc
+++ b/src/linalg/solve_z.cc
@@ -37,7 +37,7 @@ namespace linalg {
     blas::integer nrhs;
 
     // Currently, we only solve square systems
-    if (n != (blas::integer)A.columns()) {
+    if (A.rank() != 2 || n != (blas::integer)A.columns()) {
       std::cerr << "Routine solve() can only operate on square systems of equations, i.e\n"
 		<< "when the number of unknowns is equal to the number of equations.\n"
 		<< "However, you have passed a matrix of size " << A.columns() << " by " << A.rows();
-- 
2.43.0


From cd320996dccd1fa6de5153cf101c630e86a03a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 49/77] fix: declare the conjugate gradient method for complex
 sparse matrices

---
 include/tensor/linalg.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tensor/linalg.h b/include/tensor/linalg.h
index a2194f6..fa6e832 100644
--- a/include/tensor/linalg.h
+++ b/include/tensor/linalg.h
@@ -55,8 +55,8 @@ namespace linalg {
   /**Solve a real linear system of equations by the conjugate gradient method.*/
   const RTensor cgs(const RSparse &A, const RTensor &b, const RTensor *x_start = 0,
                     int maxiter = 0, double tol = 0);
-  /**Solve a real linear system of equations by the conjugate gradient method.*/
-  const CTensor cgs(const RSparse &A, const CTensor &b, const CTensor *x_start = 0,
+  /**Solve a complex linear system of equations by the conjugate gradient method.*/
+  const CTensor cgs(const CSparse &A, const CTensor &b, const CTensor *x_start = 0,
                     int maxiter = 0, double tol = 0);
 
   /**Solve a real linear system of equations by the conjugate gradient
-- 
2.43.0


From ffa886decadca16067e7b0d85ed9ad6d70a21001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:30 +0000
Subject: [PATCH 50/77] fix: block_svd of rank-deficient block matrices returns
 all singular vectors

---
 src/linalg/block_svd.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/linalg/block_svd.hpp b/src/linalg/block_svd.hpp
index 1183b45..1bf3bfb 100644
--- a/src/linalg/block_svd.hpp
+++ b/src/linalg/block_svd.hpp
@@ -51,6 +51,19 @@ namespace linalg {
       return s;
     }
 
+    // If some rows or columns are left without a partner in the blocks, these do
+    // not provide all singular vectors.
+    index nvectors = 0;
+    for (index b = 0; b < nblocks; b++) {
+      nvectors += std::min(block_rows[b].size(), block_cols[b].size());
+    }
+    if (nvectors < minrc) {
+      RTensor s = svd(A, pU, pVT, economic);
+      delete[] block_rows;
+      delete[] block_cols;
+      return s;
+    }
+
     RTensor s(minrc);
     s.fill_with_zeros();
     if (pU) {
-- 
2.43.0


From 0240a22663cf9784135c999f9c2bf0e105327d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:04 +0000
Subject: [PATCH 51/77] fix: eig_power returned the complex conjugate of the
 eigenvalue

---
 src/linalg/eig_power.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/eig_power.hpp b/src/linalg/eig_power.hpp
index 224d965..0c8247f 100644
--- a/src/linalg/eig_power.hpp
+++ b/src/linalg/eig_power.hpp
@@ -52,7 +52,7 @@ namespace linalg {
     //
     for (size_t i = 0; i <= iter; i++) {
       Tensor<elt_t> v_new = (*A)(v);
-      eig = scprod(v, v_new);
+      eig = scprod(v_new, v);
       double err = norm0(v_new - eig * v);
       v = (v_new /= norm2(v_new));
       // Stop if the vector is sufficiently close to an eigenstate
-- 
2.43.0


From c1a84aba984a009e36099a3f7574867a35a2235d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:04 +0000
Subject: [PATCH 52/77] fix: eigs returned the left eigenvectors of small
 matrices

---
 src/arpack/eigs_d.cc     | 2 +-
 src/arpack/eigs_map_d.cc | 2 +-
 src/arpack/eigs_map_z.cc | 2 +-
 src/arpack/eigs_z.cc     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arpack/eigs_d.cc b/src/arpack/eigs_d.cc
index a9abd54..0d76025 100644
--- a/src/arpack/eigs_d.cc
+++ b/src/arpack/eigs_d.cc
@@ -49,7 +49,7 @@ namespace linalg {
        * using the full routine.
        */
       CTensor vectors;
-      CTensor values = eig(A, NULL, eigenvectors? &vectors : 0);
+      CTensor values = eig(A, eigenvectors? &vectors : 0);
       Indices ndx = RArpack::sort_values(values, t);
       Indices ndx_out(neig);
       std::copy(ndx.begin(), ndx.begin() + neig, ndx_out.begin());
diff --git a/src/arpack/eigs_map_d.cc b/src/arpack/eigs_map_d.cc
index 2019e6b..5ff4b8e 100644
--- a/src/arpack/eigs_map_d.cc
+++ b/src/arpack/eigs_map_d.cc
@@ -49,7 +49,7 @@ namespace linalg {
         M.at(range(),range(i)) = (*A)(v);
       }
       CTensor vectors;
-      CTensor values = eig(M, NULL, eigenvectors? &vectors : 0);
+      CTensor values = eig(M, eigenvectors? &vectors : 0);
       Indices ndx = RArpack::sort_values(values, t);
       Indices ndx_out(neig);
       std::copy(ndx.begin(), ndx.begin() + neig, ndx_out.begin());
diff --git a/src/arpack/eigs_map_z.cc b/src/arpack/eigs_map_z.cc
index aa7a178..d4e8cca 100644
--- a/src/arpack/eigs_map_z.cc
+++ b/src/arpack/eigs_map_z.cc
@@ -48,7 +48,7 @@ namespace linalg {
         M.at(range(),range(i)) = (*A)(v);
       }
       CTensor vectors;
-      CTensor values = eig(M, NULL, eigenvectors? &vectors : 0);
+      CTensor values = eig(M, eigenvectors? &vectors : 0);
       Indices ndx = CArpack::sort_values(values, t);
       Indices ndx_out(neig);
       std::copy(ndx.begin(), ndx.begin() + neig, ndx_out.begin());
diff --git a/src/arpack/eigs_z.cc b/src/arpack/eigs_z.cc
index b53d49c..0d278e8 100644
--- a/src/arpack/eigs_z.cc
+++ b/src/arpack/eigs_z.cc
@@ -53,7 +53,7 @@ namespace linalg {
        * using the full routine.
        */
       CTensor vectors;
-      CTensor values = eig(A, NULL, eigenvectors? &vectors : 0);
+      CTensor values = eig(A, eigenvectors? &vectors : 0);
       Indices ndx = CArpack::sort_values(values, t);
       Indices ndx_out(neig);
       std::copy(ndx.begin(), ndx.begin() + neig, ndx_out.begin());
-- 
2.43.0


From 415cf9e856d855ea5bacb2b7953ba58e0c24fd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:15 +0000
Subject: [PATCH 53/77] fix: eigs rejects sparse matrices that are not square

---
 src/arpack/eigs_sp_d.cc | 4 ++++
 src/arpack/eigs_sp_z.cc | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/arpack/eigs_sp_d.cc b/src/arpack/eigs_sp_d.cc
index ce3f849..19b43c3 100644
--- a/src/arpack/eigs_sp_d.cc
+++ b/src/arpack/eigs_sp_d.cc
@@ -29,6 +29,10 @@ namespace linalg {
   eigs(const RSparse &A, int eig_type, size_t neig, RTensor *eigenvectors,
        bool *converged)
   {
+    if (A.rows() != A.columns()) {
+      std::cerr << "In eigs(): Can only compute eigenvalues of square matrices.";
+      abort();
+    }
     return do_eigs(new tensor::MatrixMap<RSparse>(A), A.columns(), eig_type, neig,
                    eigenvectors, converged);
   }
diff --git a/src/arpack/eigs_sp_z.cc b/src/arpack/eigs_sp_z.cc
index c8b39e2..aab1a65 100644
--- a/src/arpack/eigs_sp_z.cc
+++ b/src/arpack/eigs_sp_z.cc
@@ -29,6 +29,10 @@ namespace linalg {
   eigs(const CSparse &A, int eig_type, size_t neig, CTensor *eigenvectors,
        bool *converged)
   {
+    if (A.rows() != A.columns()) {
+      std::cerr << "In eigs(): Can only compute eigenvalues of square matrices.";
+      abort();
+    }
     return do_eigs(new tensor::MatrixMap<CSparse>(A), A.columns(), eig_type, neig,
                    eigenvectors, converged);
   }
-- 
2.43.0


From f4aa697e343575e79df7ade3cc47619eec7bfddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:51 +0000
Subject: [PATCH 54/77] fix: Fourier transforms of tensors without elements
 crashed

---
 src/fftw/fftw_common.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/fftw/fftw_common.cc b/src/fftw/fftw_common.cc
index d614b22..b33628b 100644
--- a/src/fftw/fftw_common.cc
+++ b/src/fftw/fftw_common.cc
@@ -25,6 +25,10 @@ namespace tensor {
 // basic FFTW along all degrees of freedom
 void
 do_fftw(fftw_complex* pin, fftw_complex* pout, const Indices& dims, int direction) {
+  // There is nothing to plan nor to transform without elements
+  if (dims.total_size() == 0)
+    return;
+
   fftw_plan plan;
   int d = dims.size();
 
@@ -44,6 +48,10 @@ do_fftw(fftw_complex* pin, fftw_complex* pout, const Indices& dims, int directio
 
 void
 do_fftw(fftw_complex* pin, fftw_complex* pout, index dim, const Indices& dims, int direction) {
+  // There is nothing to plan nor to transform without elements
+  if (dims.total_size() == 0)
+    return;
+
   // Collect the dimensions for the transform
   fftw_iodim fft_dim;
   fftw_iodim loop_dims[dims.size()-1];
@@ -77,6 +85,10 @@ do_fftw(fftw_complex* pin, fftw_complex* pout, index dim, const Indices& dims, i
 
 void
 do_fftw(fftw_complex* pin, fftw_complex* pout, const Booleans& convert, const Indices& dims, int direction) {
+  // There is nothing to plan nor to transform without elements
+  if (dims.total_size() == 0)
+    return;
+
   // Collect the dimensions for the transform
   fftw_iodim fft_dims[dims.size()];
   fftw_iodim loop_dims[dims.size()];
-- 
2.43.0


From 61fe27530850394afad6b9d479c119ed26be1934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:02 +0000
Subject: [PATCH 55/77] fix: random floats never reach their limit

---
 include/tensor/rand.h | 4 ++++
 src/rand/rand.cc      | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/tensor/rand.h b/include/tensor/rand.h
index e230b86..08fb716 100644
--- a/include/tensor/rand.h
+++ b/include/tensor/rand.h
@@ -60,6 +60,10 @@ template<class real_number> inline real_number rand(real_number lower_limit,
   return rand<real_number>(upper_limit - lower_limit) + lower_limit;
 }
 
+template<> inline float rand<float>(float upper) {
+  return upper * rand<float>();
+}
+
 template<> inline int rand<int>(int upper) {
   if (upper)
     return rand<unsigned int>() % upper;
diff --git a/src/rand/rand.cc b/src/rand/rand.cc
index 49616fa..f00f72d 100644
--- a/src/rand/rand.cc
+++ b/src/rand/rand.cc
@@ -113,7 +113,8 @@ template<> unsigned long rand<unsigned long>() { return genrand_int32(); }
 #endif
 
 template<> float rand<float>() {
-  return (float)genrand_res53();
+  // Only the 24 bits that a float can hold: more would be rounded up to 1.
+  return (float)((int32_t)(genrand_res53() * 16777216.0) * (1.0/16777216.0));
 }
 
 template<> double rand<double>() {
-- 
2.43.0


From cbdd1645d18c7ee01e9cc44cd5094489336f0e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:51 +0000
Subject: [PATCH 56/77] fix: do_eigs releases the map it is given, as do_cgs
 and do_eig_power do

---
 src/arpack/eigs_map_d.cc | 2 ++
 src/arpack/eigs_map_z.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/arpack/eigs_map_d.cc b/src/arpack/eigs_map_d.cc
index 5ff4b8e..40fa052 100644
--- a/src/arpack/eigs_map_d.cc
+++ b/src/arpack/eigs_map_d.cc
@@ -48,6 +48,7 @@ namespace linalg {
         v.at(i) = 1.0;
         M.at(range(),range(i)) = (*A)(v);
       }
+      delete A;
       CTensor vectors;
       CTensor values = eig(M, eigenvectors? &vectors : 0);
       Indices ndx = RArpack::sort_values(values, t);
@@ -70,6 +71,7 @@ namespace linalg {
     while (data.update() < RArpack::Finished) {
       data.set_y((*A)(data.get_x()));
     }
+    delete A;
     if (data.get_status() == RArpack::Finished) {
       if (converged)
         *converged = true;
diff --git a/src/arpack/eigs_map_z.cc b/src/arpack/eigs_map_z.cc
index d4e8cca..43564ca 100644
--- a/src/arpack/eigs_map_z.cc
+++ b/src/arpack/eigs_map_z.cc
@@ -47,6 +47,7 @@ namespace linalg {
         v.at(i) = 1.0;
         M.at(range(),range(i)) = (*A)(v);
       }
+      delete A;
       CTensor vectors;
       CTensor values = eig(M, eigenvectors? &vectors : 0);
       Indices ndx = CArpack::sort_values(values, t);
@@ -69,6 +70,7 @@ namespace linalg {
     while (data.update() < CArpack::Finished) {
       data.set_y((*A)(data.get_x()));
     }
+    delete A;
     if (data.get_status() == CArpack::Finished) {
       if (converged)
         *converged = true;
-- 
2.43.0


From 6adcaafeb0eec9b36d9d2b8ab1dfaea6e0a20e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:21 +0000
Subject: [PATCH 57/77] fix: the Python reader returns the tensors of a list

---
 python/sdf.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/sdf.py b/python/sdf.py
index 1e7a8a8..62dc59f 100644
--- a/python/sdf.py
+++ b/python/sdf.py
@@ -89,8 +89,7 @@ class SDF:
 
     def load_mp(self, iscomplex):
         L = self.read_longs(1)[0]
-        [self.load_record()[0] for i in range(L)]
-        return []
+        return [self.load_record()[0] for i in range(L)]
 
     def load_tensor(self, iscomplex):
         rank = self.read_longs(1)[0]
-- 
2.43.0


From 0888de576913776e018e485eb72c0e40d5a47ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:21 +0000
Subject: [PATCH 58/77] fix: the Python reader accepts tensors without
 dimensions

---
 python/sdf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/sdf.py b/python/sdf.py
index 62dc59f..41bb3fd 100644
--- a/python/sdf.py
+++ b/python/sdf.py
@@ -95,6 +95,9 @@ class SDF:
         rank = self.read_longs(1)[0]
         dims = self.read_longs(rank)
         L = self.read_longs(1)[0]
+        if rank == 0:
+            # A tensor without dimensions has no elements
+            dims = [L]
         if iscomplex:
             data = self.read_complex(L)
         else:
-- 
2.43.0


From 11533b4f77139dc9cc8ad78855022d9f9da38ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:21 +0000
Subject: [PATCH 59/77] fix: the Python reader goes on after a record without a
 name

---
 python/sdf.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/python/sdf.py b/python/sdf.py
index 41bb3fd..fa3e606 100644
--- a/python/sdf.py
+++ b/python/sdf.py
@@ -57,10 +57,9 @@ class SDF:
         output = {}
         while self.f.readable():
             obj, name = self.load_record()
-            if len(name):
-                output[name] = obj
-            else:
+            if name is None:
                 break
+            output[name] = obj
         self.f.close()
         f = []
         return output
@@ -72,8 +71,7 @@ class SDF:
     def load_record(self):
         name, code = self.load_tag()
         obj = []
-        if code == -1:
-            name = '';
+        if name is None:
             obj = [];
         elif code == 0:
             obj = self.load_tensor(False)
@@ -145,5 +143,6 @@ class SDF:
             name = str(name,'utf-8')
             code = self.read_longs(1)[0]
         else:
+            name = None
             code = -1
         return name, code
-- 
2.43.0


From 6fd9eaefdaa2c701c0e1f2b885249ef8e58533b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:21 +0000
Subject: [PATCH 60/77] fix: the Python reader swaps the bytes of files of the
 other byte order

---
 python/sdf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/sdf.py b/python/sdf.py
index fa3e606..4d73492 100644
--- a/python/sdf.py
+++ b/python/sdf.py
@@ -106,21 +106,21 @@ class SDF:
         output = np.ndarray(shape=(n,),dtype=self.long_type)
         self.f.readinto(output)
         if self.interpret:
-            output.byteswwap()
+            output.byteswap(True)
         return output
 
     def read_doubles(self, n):
         output = np.ndarray(shape=(n,),dtype=self.double)
         self.f.readinto(output)
         if self.interpret:
-            output.byteswwap()
+            output.byteswap(True)
         return output
     
     def read_complex(self, n):
         output = np.ndarray(shape=(n,),dtype=self.cdouble)
         self.f.readinto(output)
         if self.interpret:
-            output.byteswwap()
+            output.byteswap(True)
         return output
 
     def load_tag(self):
-- 
2.43.0


From 1efa7772b7c16ebaf093370d7980f7e6e3c7cf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:21 +0000
Subject: [PATCH 61/77] fix: the Python reader reports files that end early

---
 python/sdf.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/python/sdf.py b/python/sdf.py
index 4d73492..3345f55 100644
--- a/python/sdf.py
+++ b/python/sdf.py
@@ -102,23 +102,27 @@ class SDF:
             data = self.read_doubles(L)
         return np.ndarray(shape=dims,buffer=data,dtype=data.dtype,order='F')
 
+    def read_into(self, output):
+        if output.size and self.f.readinto(output) != output.nbytes:
+            raise EOFError('SDF file ends early')
+
     def read_longs(self, n):
         output = np.ndarray(shape=(n,),dtype=self.long_type)
-        self.f.readinto(output)
+        self.read_into(output)
         if self.interpret:
             output.byteswap(True)
         return output
 
     def read_doubles(self, n):
         output = np.ndarray(shape=(n,),dtype=self.double)
-        self.f.readinto(output)
+        self.read_into(output)
         if self.interpret:
             output.byteswap(True)
         return output
     
     def read_complex(self, n):
         output = np.ndarray(shape=(n,),dtype=self.cdouble)
-        self.f.readinto(output)
+        self.read_into(output)
         if self.interpret:
             output.byteswap(True)
         return output
-- 
2.43.0


From 8fa7c1b38a8d61c48550ffac7e76fde1d0524acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:21 +0000
Subject: [PATCH 62/77] fix: the Python reader looks for a header only at the
 beginning of a file

---
 python/sdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/sdf.py b/python/sdf.py
index 3345f55..8679394 100644
--- a/python/sdf.py
+++ b/python/sdf.py
@@ -131,7 +131,7 @@ class SDF:
         name = self.f.read(64)
         code = []
         if len(name):
-            if name[0] == 115 and name[1] == 100 and name[2] == 102:
+            if self.f.tell() == len(name) and name[:3] == b'sdf':
                 if name[4] == ord('4'):
                     self.long_type = self.int32
                 elif name[4] == ord('8'):
-- 
2.43.0


From 9b0b9a39af7f120f863b6dd5692353fea8785829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:26 +0000
Subject: [PATCH 63/77] fix: the Python reader accepts files without records

---
 python/sdf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/sdf.py b/python/sdf.py
index 8679394..12c7b6c 100644
--- a/python/sdf.py
+++ b/python/sdf.py
@@ -143,6 +143,7 @@ class SDF:
                 else:
                     self.set_endian('big')
                 name = self.f.read(64)
+        if len(name):
             name, sep, rest = name.partition(b'\x00')
             name = str(name,'utf-8')
             code = self.read_longs(1)[0]
-- 
2.43.0


From 043b81e6f8906a9d17b31afa3142ad7b5d220f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:58 +0000
Subject: [PATCH 64/77] fix: the Python reader reports lists that end early

---
 python/sdf.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/sdf.py b/python/sdf.py
index 12c7b6c..3f37f58 100644
--- a/python/sdf.py
+++ b/python/sdf.py
@@ -87,7 +87,13 @@ class SDF:
 
     def load_mp(self, iscomplex):
         L = self.read_longs(1)[0]
-        return [self.load_record()[0] for i in range(L)]
+        output = []
+        for i in range(L):
+            obj, name = self.load_record()
+            if name is None:
+                raise EOFError('SDF file ends early')
+            output.append(obj)
+        return output
 
     def load_tensor(self, iscomplex):
         rank = self.read_longs(1)[0]
-- 
2.43.0


From 80b53c2492ce838d56e168d7df7ec2e7eb194cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:01 +0000
Subject: [PATCH 65/77] fix: matrix_form prints the opening bracket of tensors
 without rows or elements

---
 src/views/matrix_form.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/views/matrix_form.cc b/src/views/matrix_form.cc
index 6e2bd0c..12bc1d1 100644
--- a/src/views/matrix_form.cc
+++ b/src/views/matrix_form.cc
@@ -31,10 +31,9 @@ namespace tensor {
     } else if (data.rank() == 2) {
       index rows = data.rows();
       index cols = data.columns();
+      s << "[";
       for (index i = 0; i < rows; i++) {
-	if (i == 0)
-	  s << "[";
-	else
+	if (i)
 	  s << "\n ";
 	for (index j = 0; j < cols; j++) {
 	  if (j) s << ", ";
@@ -43,11 +42,10 @@ namespace tensor {
       }
       s << "]";
     } else if (data.rank() == 1) {
+      s << "[";
       for (index i = 0; i < data.size(); i++) {
 	if (i)
 	  s << ", ";
-	else
-	  s << "[";
 	s << data[i];
       }
       s << "]";
-- 
2.43.0


From 6014b272483cf69e5711b69575984908a37f22f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:01 +0000
Subject: [PATCH 66/77] fix: Flags::get refuses a code that was not created, as
 set does

---
 src/tools/flags.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tools/flags.cc b/src/tools/flags.cc
index df09757..dc30fbe 100644
--- a/src/tools/flags.cc
+++ b/src/tools/flags.cc
@@ -33,7 +33,11 @@ namespace tensor {
 
   double Flags::get(unsigned int code) const
   {
-    return _values[code];  
+    if (code >= _values.size()) {
+      std::cerr << "Invalid flag code " << code << " into Flags array\n";
+      abort();
+    }
+    return _values[code];
   }
 
   class Flags &Flags::set(unsigned int code, double value)
-- 
2.43.0


From 32ac69d879447aa0a5112f6404ff017b14aa5af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:01 +0000
Subject: [PATCH 67/77] fix: the ARPACK constructor refuses criteria behind the
 last one

---
 src/arpack/arpack_t.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpack/arpack_t.cc b/src/arpack/arpack_t.cc
index 83f6507..63c092f 100644
--- a/src/arpack/arpack_t.cc
+++ b/src/arpack/arpack_t.cc
@@ -39,7 +39,7 @@ ARPACK::ARPACK(size_t _n, enum EigType _t, size_t _nev)
     abort();
   }
 #endif
-  if (_t < 0 || _t > 6) {
+  if (_t < 0 || _t > SmallestImaginary) {
     std::cerr << "Invalid argument EigType passed to Arpack constructor"
               << std::endl;
     abort();
-- 
2.43.0


From fa5641385e0d547c77485ddafb9cd229ac5631f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:01 +0000
Subject: [PATCH 68/77] fix: error_message() of a new ARPACK driver read an
 uninitialised pointer

---
 src/arpack/arpack_t.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/arpack/arpack_t.cc b/src/arpack/arpack_t.cc
index 63c092f..86e53e5 100644
--- a/src/arpack/arpack_t.cc
+++ b/src/arpack/arpack_t.cc
@@ -112,6 +112,7 @@ ARPACK::ARPACK(size_t _n, enum EigType _t, size_t _nev)
     ipntr[i] = 0;
 
   // We have initialized this structure
+  error = "";
   status = Initialized;
 }
 
-- 
2.43.0


From 1ece1dfb400dfbb7b4e709416ae463f2efcf0544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:01 +0000
Subject: [PATCH 69/77] fix: ARPACK set_y() read beyond the end of a shorter
 vector

---
 src/arpack/arpack_t.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arpack/arpack_t.cc b/src/arpack/arpack_t.cc
index 86e53e5..c155905 100644
--- a/src/arpack/arpack_t.cc
+++ b/src/arpack/arpack_t.cc
@@ -303,6 +303,10 @@ Tensor<ELT_T> ARPACK::get_y()
 
 void ARPACK::set_y(const Tensor<ELT_T> &y)
 {
+  if (y.size() != n) {
+    std::cerr << "ARPACK:: set_y() given a vector of another size\n";
+    abort();
+  }
   memcpy(get_y_vector(), y.begin(), sizeof(Tensor<ELT_T>::elt_t)*n);
 }
 
-- 
2.43.0


From d0349715f41e94d9c9bd775c96f6e6667a34b775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:17 +0000
Subject: [PATCH 70/77] fix: job blocks and numbers of jobs near the ends of
 the integers

---
 src/tools/jobs.cc | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index a7c398d..9432a1d 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -21,6 +21,7 @@
 #include <fstream>
 #include <cerrno>
 #include <cstdlib>
+#include <limits>
 
 using namespace jobs;
 
@@ -276,9 +277,20 @@ Job::Job(int argc, const char **argv) :
       std::cerr << "The number of job blocks cannot be zero or negative.";
       abort();
     }
-    tensor::index delta = (number_of_jobs_ + blocks - 1) / blocks;
-    first_job_ = current_job = std::min(current_job * delta, number_of_jobs_);
-    last_job_ = std::min(number_of_jobs_ - 1, first_job_ + delta - 1);
+    tensor::index delta = number_of_jobs_ / blocks + (number_of_jobs_ % blocks != 0);
+    if (current_job < 0) {
+      std::cerr << "The number of the job block cannot be negative." << std::endl;
+      abort();
+    } else if (current_job >= blocks) {
+      // There are no jobs beyond the last block
+      current_job = number_of_jobs_;
+    } else {
+      // Some of the last blocks may be empty
+      current_job = (current_job > number_of_jobs_ / delta) ?
+        number_of_jobs_ : (current_job * delta);
+    }
+    first_job_ = current_job;
+    last_job_ = first_job_ + std::min(number_of_jobs_ - first_job_, delta) - 1;
   } else if (first_job_found) {
     /*
      * --first-job and --last-job combined
@@ -325,6 +337,10 @@ Job::compute_number_of_jobs() const
   for (var_list::const_iterator it = variables_.begin();
        it != variables_.end();
        it++) {
+    if (it->size() > std::numeric_limits<tensor::index>::max() / n) {
+      std::cerr << "Too many combinations of the values of the variables" << std::endl;
+      abort();
+    }
     n *= it->size();
   }
   return n;
-- 
2.43.0


From 38171b73079f996c29a8b2f10c1dfaa3fbd7b137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:17 +0000
Subject: [PATCH 71/77] fix: steps of strided ranges near the ends of the
 integers overflowed

---
 src/views/range.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/views/range.cc b/src/views/range.cc
index 88c80e7..66a9b7b 100644
--- a/src/views/range.cc
+++ b/src/views/range.cc
@@ -173,7 +173,12 @@ namespace tensor {
       return nomore();
     } else {
       index output = ndx_ * get_factor();
-      ndx_ += step_;
+      // The index after the last one might not fit in a machine word
+      if (step_ > 0? end_ - ndx_ < step_ : end_ - ndx_ > step_) {
+        ndx_ = (step_ > 0)? end_ + 1 : end_ - 1;
+      } else {
+        ndx_ += step_;
+      }
       return output;
     }
   }
@@ -192,7 +197,7 @@ namespace tensor {
       start_ += limit;
     if (end_ < 0)
       end_ += limit;
-    if (StepRange::size() > 0) {
+    if (step_ > 0? start_ <= end_ : start_ >= end_) {
       assert(start_ >= 0 && start_ < limit);
       assert(end_ >= 0 && end_ < limit);
     }
-- 
2.43.0


From 2dffb8733f36e801dcba6bcb044ca8eebba7e90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:17 +0000
Subject: [PATCH 72/77] fix: sparse matrices refuse negative sizes and
 positions that overflow them

---
 include/tensor/detail/sparse_base.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/tensor/detail/sparse_base.hpp b/include/tensor/detail/sparse_base.hpp
index 6995f68..813f0d5 100644
--- a/include/tensor/detail/sparse_base.hpp
+++ b/include/tensor/detail/sparse_base.hpp
@@ -24,6 +24,7 @@
 
 #include <cassert>
 #include <algorithm>
+#include <limits>
 #include <tensor/rand.h>
 #include <tensor/detail/common.h>
 
@@ -36,6 +37,7 @@ namespace tensor {
   static inline index
   safe_size(index nonzero, index rows, index cols)
   {
+    assert(nonzero >= 0 && rows >= 0 && cols >= 0);
     /* The product rows*cols might overflow the word size of this machine */
     if (rows == 0 || cols == 0) {
       return 0;
@@ -93,6 +95,8 @@ namespace tensor {
     dims_(2), row_start_(), column_(), data_()
   {
     index i, j, last_row, last_col, l = rows.size();
+    const index limit = std::numeric_limits<index>::max();
+    assert(nrows >= 0 && ncols >= 0);
     assert(cols.size() == l);
     assert(data.size() == l);
 
@@ -104,7 +108,7 @@ namespace tensor {
     for (i = 0; i < l; i++) {
       index r = rows[i];
       index c = cols[i];
-      assert(r >= 0 && c >= 0);
+      assert(r >= 0 && c >= 0 && r < limit && c < limit);
       nrows = std::max(nrows, r+1);
       ncols = std::max(ncols, c+1);
       if (data[i] != number_zero<elt_t>()) {
-- 
2.43.0


From a8fd76a0be5e1b97e638ef5da5986f296acdc3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:17 +0000
Subject: [PATCH 73/77] fix: Kronecker products of sparse matrices refuse sizes
 that overflow

---
 src/sparse/sparse_kron.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sparse/sparse_kron.hpp b/src/sparse/sparse_kron.hpp
index a8df34b..5bd1c0f 100644
--- a/src/sparse/sparse_kron.hpp
+++ b/src/sparse/sparse_kron.hpp
@@ -31,8 +31,8 @@ namespace tensor {
     index rows2 = s2.rows();
     index cols2 = s2.columns();
     index number_nonzero = s1.length() * s2.length();
-    index total_rows = rows1 * rows2;
-    index total_cols = cols1 * cols2;
+    index total_rows = Indices(igen << rows1 << rows2).total_size();
+    index total_cols = Indices(igen << cols1 << cols2).total_size();
 
     if (number_nonzero == 0)
       return Sparse<elt_t>(total_rows, total_cols);
-- 
2.43.0


From fc9de53734bfd482ec99ccae8859a0cdf3bf36fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:17 +0000
Subject: [PATCH 74/77] fix: contractions with sizes beyond the integers of
 BLAS gave wrong results

---
 src/tensor/gemm.cc          | 39 +++++++++++++++++++++++++++++++++++++
 src/tensor/tensor_fold.cc   | 22 ++++++++++-----------
 src/tensor/tensor_foldin.cc |  6 +++---
 3 files changed, 53 insertions(+), 14 deletions(-)

diff --git a/src/tensor/gemm.cc b/src/tensor/gemm.cc
index bfbe8e2..98ce388 100644
--- a/src/tensor/gemm.cc
+++ b/src/tensor/gemm.cc
@@ -23,6 +23,7 @@
 #ifdef TENSOR_USE_ESSL
 #include <essl.h>
 #endif
+#include <limits>
 #include <tensor/tensor_blas.h>
 
 namespace blas {
@@ -78,6 +79,44 @@ namespace blas {
 #endif
   }
 
+  inline double gemm_element(char, const double &x) {
+    return x;
+  }
+
+  inline tensor::cdouble gemm_element(char op, const tensor::cdouble &x) {
+    return (op == 'C')? tensor::conj(x) : x;
+  }
+
+  // Matrix product with sizes that may not fit in the integers of the library.
+  template<typename elt_t>
+  inline void long_gemm(char op1, char op2, tensor::index m, tensor::index n,
+                        tensor::index k, const elt_t &alpha, const elt_t *A,
+                        tensor::index lda, const elt_t *B, tensor::index ldb,
+                        const elt_t &beta, elt_t *C, tensor::index ldc)
+  {
+    const tensor::index limit = std::numeric_limits<integer>::max();
+    if (m <= limit && n <= limit && k <= limit &&
+        lda <= limit && ldb <= limit && ldc <= limit) {
+      gemm(op1, op2, m, n, k, alpha, A, lda, B, ldb, beta, C, ldc);
+      return;
+    }
+    // op(A)(i,l) = A[i*ia+l*la], op(B)(l,j) = B[j*jb+l*lb]
+    const tensor::index ia = (op1 == 'N')? 1 : lda;
+    const tensor::index la = (op1 == 'N')? lda : 1;
+    const tensor::index jb = (op2 == 'N')? ldb : 1;
+    const tensor::index lb = (op2 == 'N')? 1 : ldb;
+    for (tensor::index j = 0; j < n; j++) {
+      for (tensor::index i = 0; i < m; i++) {
+        elt_t x = tensor::number_zero<elt_t>();
+        for (tensor::index l = 0; l < k; l++) {
+          x += gemm_element(op1, A[i*ia+l*la]) * gemm_element(op2, B[j*jb+l*lb]);
+        }
+        elt_t &c = C[i+j*ldc];
+        c = (beta == tensor::number_zero<elt_t>())? alpha * x : (alpha * x + beta * c);
+      }
+    }
+  }
+
 }
 
 #endif
diff --git a/src/tensor/tensor_fold.cc b/src/tensor/tensor_fold.cc
index f77e665..623d43c 100644
--- a/src/tensor/tensor_fold.cc
+++ b/src/tensor/tensor_fold.cc
@@ -109,16 +109,16 @@ namespace tensor {
         // C(j_len,m_len) = A(l_len,j_len)*B(l_len,m_len);
         char transa = do_conj? 'C' : 'T';
         char transb = 'N';
-        gemm(transa, transb, j_len, m_len, l_len, one,
-             pA, l_len, pB, l_len, zero, pC, j_len);
+        long_gemm(transa, transb, j_len, m_len, l_len, one,
+                  pA, l_len, pB, l_len, zero, pC, j_len);
         return;
       }
       if (m_len == 1) {
         // C(j_len,k_len) = A(l_len,j_len)*B(k_len,l_len);
         char transa = do_conj? 'C' : 'T';
         char transb = 'T';
-        gemm(transa, transb, j_len, k_len, l_len, one,
-             pA, l_len, pB, k_len, zero, pC, j_len);
+        long_gemm(transa, transb, j_len, k_len, l_len, one,
+                  pA, l_len, pB, k_len, zero, pC, j_len);
         return;
       }
     } else if (j_len == 1 && !do_conj) {
@@ -126,16 +126,16 @@ namespace tensor {
         // C(i_len,m_len) = A(i_len,l_len)*B(l_len,m_len);
         char transa = 'N';
         char transb = 'N';
-        gemm(transa, transb, i_len, m_len, l_len, one,
-             pA, i_len, pB, l_len, zero, pC, i_len);
+        long_gemm(transa, transb, i_len, m_len, l_len, one,
+                  pA, i_len, pB, l_len, zero, pC, i_len);
         return;
       }
       if (m_len == 1) {
         // C(i_len,k_len) = A(i_len,l_len)*B(k_len,l_len);
         char transa = 'N';
         char transb = 'T';
-        gemm(transa, transb, i_len, k_len, l_len, one,
-             pA, i_len, pB, k_len, zero, pC, i_len);
+        long_gemm(transa, transb, i_len, k_len, l_len, one,
+                  pA, i_len, pB, k_len, zero, pC, i_len);
         return;
       }
     }
@@ -150,9 +150,9 @@ namespace tensor {
      */
     for (index m = 0; m < m_len; m++) {
       for (index j = 0; j < j_len; j++) {
-        gemm(op1, op2, i_len, k_len, l_len, one,
-             pA + il_len*j, i_len, pB + kl_len*m, k_len,
-             zero, pC + i_len*(j + jk_len*m), ij_len);
+        long_gemm(op1, op2, i_len, k_len, l_len, one,
+                  pA + il_len*j, i_len, pB + kl_len*m, k_len,
+                  zero, pC + i_len*(j + jk_len*m), ij_len);
       }
     }
     if (do_conj) {
diff --git a/src/tensor/tensor_foldin.cc b/src/tensor/tensor_foldin.cc
index 578bad9..b3a8b74 100644
--- a/src/tensor/tensor_foldin.cc
+++ b/src/tensor/tensor_foldin.cc
@@ -103,9 +103,9 @@ namespace tensor {
     index ki_len = k_len*i_len;
     for (index m = 0; m < m_len; m++) {
       for (index j = 0; j < j_len; j++) {
-        gemm(op1, op2, k_len, i_len, l_len, one,
-             pB + kl_len*m, k_len, pA + il_len*j, i_len,
-             zero, pC + ki_len*(j + j_len*m), k_len);
+        long_gemm(op1, op2, k_len, i_len, l_len, one,
+                  pB + kl_len*m, k_len, pA + il_len*j, i_len,
+                  zero, pC + ki_len*(j + j_len*m), k_len);
       }
     }
   }
-- 
2.43.0


From c002cf516a1233140bfc6788f87da5bc9a8dede6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:17 +0000
Subject: [PATCH 75/77] fix: tensors refuse dimensions whose product overflows

---
 include/tensor/detail/refcount.hpp    |  2 +-
 include/tensor/detail/tensor_base.hpp | 10 +++++-----
 src/indices/indices.cc                | 17 ++++++++++++++++-
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/include/tensor/detail/refcount.hpp b/include/tensor/detail/refcount.hpp
index e427430..1ed111c 100644
--- a/include/tensor/detail/refcount.hpp
+++ b/include/tensor/detail/refcount.hpp
@@ -87,7 +87,7 @@ RefPointer<elt_t>::RefPointer(size_t new_size) {
  * started uninitialized. */
 template<>
 inline RefPointer<cdouble>::RefPointer(size_t new_size) {
-  ref_ = new pointer(reinterpret_cast<cdouble*>(new double[2*new_size]), new_size);
+  ref_ = new pointer(reinterpret_cast<cdouble*>(new double[new_size][2]), new_size);
 }
 
 template<>
diff --git a/include/tensor/detail/tensor_base.hpp b/include/tensor/detail/tensor_base.hpp
index ee9836d..db5e633 100644
--- a/include/tensor/detail/tensor_base.hpp
+++ b/include/tensor/detail/tensor_base.hpp
@@ -68,7 +68,7 @@ Tensor<elt_t>::Tensor(index length) :
 
 template<typename elt_t>
 Tensor<elt_t>::Tensor(index rows, index cols) :
-  data_(rows * cols), dims_(2)
+  data_(Indices(igen << rows << cols).total_size()), dims_(2)
 {
   dims_.at(0) = rows;
   dims_.at(1) = cols;
@@ -76,7 +76,7 @@ Tensor<elt_t>::Tensor(index rows, index cols) :
 
 template<typename elt_t>
 Tensor<elt_t>::Tensor(index d1, index d2, index d3) :
-  data_(d1 * d2 * d3), dims_(3)
+  data_(Indices(igen << d1 << d2 << d3).total_size()), dims_(3)
 {
   dims_.at(0) = d1;
   dims_.at(1) = d2;
@@ -85,7 +85,7 @@ Tensor<elt_t>::Tensor(index d1, index d2, index d3) :
 
 template<typename elt_t>
 Tensor<elt_t>::Tensor(index d1, index d2, index d3, index d4) :
-  data_(d1 * d2 * d3 * d4), dims_(4)
+  data_(Indices(igen << d1 << d2 << d3 << d4).total_size()), dims_(4)
 {
   dims_.at(0) = d1;
   dims_.at(1) = d2;
@@ -95,7 +95,7 @@ Tensor<elt_t>::Tensor(index d1, index d2, index d3, index d4) :
 
 template<typename elt_t>
 Tensor<elt_t>::Tensor(index d1, index d2, index d3, index d4, index d5) :
-  data_(d1 * d2 * d3 * d4 * d5), dims_(5)
+  data_(Indices(igen << d1 << d2 << d3 << d4 << d5).total_size()), dims_(5)
 {
   dims_.at(0) = d1;
   dims_.at(1) = d2;
@@ -107,7 +107,7 @@ Tensor<elt_t>::Tensor(index d1, index d2, index d3, index d4, index d5) :
 template<typename elt_t>
 Tensor<elt_t>::Tensor(index d1, index d2, index d3, index d4, index d5,
                       index d6) :
-  data_(d1 * d2 * d3 * d4 * d5 * d6), dims_(6)
+  data_(Indices(igen << d1 << d2 << d3 << d4 << d5 << d6).total_size()), dims_(6)
 {
   dims_.at(0) = d1;
   dims_.at(1) = d2;
diff --git a/src/indices/indices.cc b/src/indices/indices.cc
index 33806a5..657243b 100644
--- a/src/indices/indices.cc
+++ b/src/indices/indices.cc
@@ -17,6 +17,7 @@
     51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 */
 
+#include <limits>
 #include <numeric>
 #include <functional>
 #include <tensor/io.h>
@@ -38,6 +39,7 @@ namespace tensor {
   index Indices::total_size() const {
     if (size()) {
       index aux = 1;
+      bool overflow = false;
       for (const_iterator it = begin_const(); it != end_const(); ++it) {
         if (*it < 0) {
           std::cerr << "Negative dimension in tensor's dimension #"
@@ -46,7 +48,20 @@ namespace tensor {
                     << *this << std::endl;
           abort();
         }
-        aux *= *it;
+        if (*it == 0) {
+          aux = 0;
+          overflow = false;
+        } else if (aux > std::numeric_limits<index>::max() / *it) {
+          overflow = true;
+        } else {
+          aux *= *it;
+        }
+      }
+      if (overflow) {
+        std::cerr << "The number of elements of a tensor is too large." << std::endl
+                  << "All dimensions:" << std::endl
+                  << *this << std::endl;
+        abort();
       }
       return aux;
     } else {
-- 
2.43.0


From ca3612e386dbbcb623d42ffbcfe6b0940f14746e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:17 +0000
Subject: [PATCH 76/77] fix: Indices::range overflowed near the ends of the
 integers

---
 src/indices/indices.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/indices/indices.cc b/src/indices/indices.cc
index 657243b..dd6ac22 100644
--- a/src/indices/indices.cc
+++ b/src/indices/indices.cc
@@ -73,11 +73,17 @@ namespace tensor {
     if (max < min) {
       return Indices();
     } else {
-      index size = (max - min) / step + 1;
+      index size = 1;
+      if (max > min) {
+        assert(step > 0);
+        // The distance between the end points might not fit in an index
+        size += ((size_t)max - (size_t)min) / step;
+        assert(size > 0);
+      }
       Indices output(size);
       for (Indices::iterator it = output.begin(); it != output.end(); it ++) {
         *it = min;
-        min += step;
+        min = (size_t)min + (size_t)step;
       }
       return output;
     }
-- 
2.43.0


From 95f83e9957d51c1a0e50c61b18c76e77807ff047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:38 +0000
Subject: [PATCH 77/77] fix: the records of jobs beyond 2^31 have the numbers
 of their jobs

The number was truncated to an int, so that job 2^32 took the record of job 0
for its own and was never carried out.
---
 src/tools/jobs_dataset.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/jobs_dataset.cc b/src/tools/jobs_dataset.cc
index 1d2029e..4af1477 100644
--- a/src/tools/jobs_dataset.cc
+++ b/src/tools/jobs_dataset.cc
@@ -42,7 +42,7 @@ namespace jobs {
   }
 
   static std::string
-  dataset_name(const std::string &base, int jobid)
+  dataset_name(const std::string &base, tensor::index jobid)
   {
     return base + "/" + NumberToString(jobid);
   }
-- 
2.43.0

