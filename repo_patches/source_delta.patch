From 573ac58ca1973d8bae3c9ad943251db272b0b151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:44 +0000
Subject: [PATCH 01/23] fix: define Tensor::dim(), which was declared but had
 no definition

---
 src/INNC/tensor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/INNC/tensor.cpp b/src/INNC/tensor.cpp
index 4784581..7565425 100644
--- a/src/INNC/tensor.cpp
+++ b/src/INNC/tensor.cpp
@@ -37,6 +37,8 @@ std::string Tensor::to_string() const {
   return fptr->to_string();
 }
 
+size_t Tensor::dim() const noexcept { return fptr->dim(); }
+
 const SizeVec Tensor::size() const { return fptr->size(); }
 
 const SignedVec Tensor::stride() const { return fptr->stride(); }
-- 
2.43.0


From 1441189e9ad9afff78e3d4a9240cac05ed0aa925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:44 +0000
Subject: [PATCH 02/23] fix: randn of f64 allocated an f32 tensor and wrote
 past its storage

---
 src/INNC/tensorImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 9ca8418..f93959d 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -790,7 +790,7 @@ std::shared_ptr<TensorImpl> TensorImpl::randn(const SizeVec &sizes,
     return ret;
   } else {
     std::normal_distribution<double> gen_norm{};
-    auto ret = create(INNC::f32, StridedLayout{sizes});
+    auto ret = create(INNC::f64, StridedLayout{sizes});
     auto dptr = reinterpret_cast<double *>(ret->data_->get_blob());
     for (size_t i = 0; i < ret->numel(); ++i) {
       *(dptr + i) = gen_norm(rng);
-- 
2.43.0


From ff1caa1d3379b864e11a7eb4cbd520bd6c796659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:44 +0000
Subject: [PATCH 03/23] fix: stride() threw for every tensor

---
 src/INNC/tensorImpl.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index f93959d..9d4fc87 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -56,8 +56,9 @@ size_t TensorImpl::size(int d) const {
 }
 
 SignedVec TensorImpl::stride() const {
-  if (typeid(view) == typeid(std::shared_ptr<StridedLayout>)) {
-    return dynamic_cast<StridedLayout *>(view.get())->strides;
+  if (auto view_s = dynamic_cast<StridedLayout *>(view.get());
+      view_s != nullptr && dim() != 0) {
+    return view_s->strides;
   } else {
     throw std::runtime_error("Scalar do not have stride");
   }
-- 
2.43.0


From 3a6f6bdc259b30b9937f40aea0ef958791adcd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:44 +0000
Subject: [PATCH 04/23] fix: all() read single bytes whatever the element type

---
 src/INNC/tensorImpl.cpp | 36 ++++++------------------------------
 1 file changed, 6 insertions(+), 30 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 9d4fc87..d8f2715 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -10,6 +10,7 @@
 #include "INNC/utils/rand.hpp"
 #include "INNC/utils/traits.hpp"
 #include "INNC/utils/utils.hpp"
+#include <algorithm>
 #include <cstring>
 #include <queue>
 
@@ -744,36 +745,11 @@ std::shared_ptr<TensorImpl> TensorImpl::detach() {
 }
 
 bool TensorImpl::all() const {
-  if (dlayout == layouts::strided) {
-    for (auto r : view->sizes) {
-      if (r == 0)
-        return true;
-    }
-    if (__LIKELY(dim() != 0)) {
-      SizeVec sv;
-      auto last_idx = dim() - 1;
-      sv.resize(last_idx + 1, 0);
-      while (true) {
-        size_t ptr = last_idx;
-        while (sv[ptr] == view->sizes[ptr]) {
-          if (ptr == 0)
-            return true;
-          sv[ptr] = 0;
-          ++sv[--ptr];
-        }
-        if (!*reinterpret_cast<bool *>(
-                (data_->get_blob() + cnt_from_index(sv))))
-          return false;
-        ++sv[last_idx];
-      };
-    } else {
-      return *reinterpret_cast<bool *>(
-          (data_->get_blob() + cnt_from_index(SizeVec{})));
-    }
-  } else {
-    throw std::logic_error(
-        "Layouts except StridedLayout have not been implemented yet.");
-  }
+  auto nonzero = apply_cmp_op<native::tensor_ne_helper>(
+      *this, *create(static_cast<std::int8_t>(0)));
+  auto ptr = nonzero->data_->get_blob();
+  return std::all_of(ptr, ptr + nonzero->numel(),
+                     [](std::uint8_t v) { return v != 0; });
 }
 
 std::shared_ptr<TensorImpl> TensorImpl::randn(const SizeVec &sizes,
-- 
2.43.0


From 32c6655572526011393024021fb19aeb6604d2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:44 +0000
Subject: [PATCH 05/23] fix: broadcast_range accepted sizes that cannot be
 broadcast

---
 src/INNC/utils/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INNC/utils/utils.cpp b/src/INNC/utils/utils.cpp
index dd3afb6..654a603 100644
--- a/src/INNC/utils/utils.cpp
+++ b/src/INNC/utils/utils.cpp
@@ -28,7 +28,7 @@ SizeVec broadcast_range(const SizeVec *u, const SizeVec *v) {
     if (i <= dim_v) {
       auto su = (*u)[dim_u - i];
       auto sv = (*v)[dim_v - i];
-      run_expect(su != 1 || sv != 1 || su == sv, "Size ", u, " and Size ", v,
+      run_expect(su == 1 || sv == 1 || su == sv, "Size ", *u, " and Size ", *v,
                  " are not broadcastable.");
       ret[dim_u - i] = std::max(su, sv);
     } else {
-- 
2.43.0


From dfa5819e852dabee3d7c8fa3a6fec5020f142fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:44 +0000
Subject: [PATCH 06/23] fix: unary minus promoted i8 and i16 tensors to i32

---
 src/INNC/tensorImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index d8f2715..dd3a2b7 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -147,7 +147,7 @@ std::shared_ptr<TensorImpl> TensorImpl::operator+() {
 }
 
 std::shared_ptr<TensorImpl> TensorImpl::operator-() {
-  return *create(char(0)) - *this;
+  return *create(static_cast<std::int8_t>(0)) - *this;
 }
 
 std::shared_ptr<TensorImpl> operator+(TensorImpl &l, TensorImpl &r) {
-- 
2.43.0


From db87433cd1a6cf8afe1ddcd13ee1297dd962fd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:44 +0000
Subject: [PATCH 07/23] fix: abs() of a view wrote outside its result

---
 src/INNC/tensorImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index dd3a2b7..bb48258 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -394,11 +394,11 @@ std::shared_ptr<TensorImpl> TensorImpl::mean() {
 }
 
 std::shared_ptr<TensorImpl> TensorImpl::abs() {
-  auto ret = create(dtype, view);
+  auto ret = create(dtype, StridedLayout{view->sizes});
   if (!requires_grad) {
     native::tensor_abs_helper::dispatch(dtype, dtype)(ret.get(), this, nullptr);
   } else {
-    auto grad = create(dtype, view);
+    auto grad = create(dtype, StridedLayout{view->sizes});
     native::tensor_abs_helper::dispatch(dtype, dtype)(ret.get(), this,
                                                       grad.get());
     ret->requires_grad = true;
-- 
2.43.0


From bc505c3d93d55ca4979ed3f7eeed986bade00812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:44 +0000
Subject: [PATCH 08/23] fix: max() and min() started from the storage's first
 element, not the tensor's

---
 include/INNC/ops.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/INNC/ops.hpp b/include/INNC/ops.hpp
index 7412be1..b4fbe1e 100644
--- a/include/INNC/ops.hpp
+++ b/include/INNC/ops.hpp
@@ -245,8 +245,11 @@ void tensor_max(TensorImpl *to, const TensorImpl *from,
                 to_string(from->dlayout).c_str()));
   T *to_ptr = reinterpret_cast<T *>(to->data_->get_blob());
   T *from_ptr = reinterpret_cast<T *>(from->data_->get_blob());
-  *to_ptr = *from_ptr;
+  if (from->numel() == 0)
+    return;
   SizeVec max_sv;
+  max_sv.resize(from->dim(), 0);
+  *to_ptr = *(from_ptr + from->cnt_from_index(max_sv));
   for_each_sizevec(from->view->sizes, [=, &max_sv](const SizeVec &sv) {
     T t = *(from_ptr + from->cnt_from_index(sv));
     if (__LIKELY(*to_ptr >= t))
@@ -272,8 +275,11 @@ void tensor_min(TensorImpl *to, const TensorImpl *from,
                 to_string(from->dlayout).c_str()));
   T *to_ptr = reinterpret_cast<T *>(to->data_->get_blob());
   T *from_ptr = reinterpret_cast<T *>(from->data_->get_blob());
-  *to_ptr = *from_ptr;
+  if (from->numel() == 0)
+    return;
   SizeVec min_sv;
+  min_sv.resize(from->dim(), 0);
+  *to_ptr = *(from_ptr + from->cnt_from_index(min_sv));
   for_each_sizevec(from->view->sizes, [=, &min_sv](const SizeVec &sv) {
     T t = *(from_ptr + from->cnt_from_index(sv));
     if (__LIKELY(*to_ptr <= t))
-- 
2.43.0


From 42756133aeb894bbab7cb5dfe33335a22af46b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:44 +0000
Subject: [PATCH 09/23] fix: the gradient of mean() ignored the incoming
 gradient

---
 src/INNC/function.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/INNC/function.cpp b/src/INNC/function.cpp
index f1b2c36..6b60b0f 100644
--- a/src/INNC/function.cpp
+++ b/src/INNC/function.cpp
@@ -98,7 +98,8 @@ void MeanBack::step_back() {
                       TensorImpl::full(input_tfs[0]->view->sizes,
                                        1. / ((double)input_tfs[0]->numel()),
                                        input_tfs[0]->dtype)
-                          .get());
+                          .get(),
+                      &get_out_grad());
 }
 
 void NoBack::step_back() { try_accumulate_grad(input_tfs[0].get(), nullptr); }
-- 
2.43.0


From 89c6f2a2bf1f4e7a5306a52d56a789eb9772f560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:44 +0000
Subject: [PATCH 10/23] fix: backward of division crashed when one side needs
 no gradient or is broadcast

---
 include/INNC/ops.hpp  |  2 +-
 src/INNC/function.cpp | 18 +++++++++++-------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/INNC/ops.hpp b/include/INNC/ops.hpp
index b4fbe1e..2ca2d47 100644
--- a/include/INNC/ops.hpp
+++ b/include/INNC/ops.hpp
@@ -386,7 +386,7 @@ void tensor_div_back_denominator(TensorImpl *dst, const TensorImpl *outgrad,
   auto quot_ptr = reinterpret_cast<Quot *>(quot->data_->get_blob());
   auto den_ptr = reinterpret_cast<Den *>(den->data_->get_blob());
   for_each_sizevec(quot->size(), [=](const SizeVec &sv) {
-    *(dst_ptr + dst->cnt_from_index(sv)) -=
+    *(dst_ptr + dst->cnt_from_aug_index(sv)) -=
         *(outgrad_ptr + outgrad->cnt_from_aug_index(sv)) *
         *(quot_ptr + quot->cnt_from_aug_index(sv)) /
         *(den_ptr + den->cnt_from_aug_index(sv));
diff --git a/src/INNC/function.cpp b/src/INNC/function.cpp
index 6b60b0f..8250d83 100644
--- a/src/INNC/function.cpp
+++ b/src/INNC/function.cpp
@@ -78,13 +78,17 @@ void tensor_div_back_numerator_f(TensorImpl &dst, TensorImpl &tf1,
                                                                     tf2);
 }
 void DivBack::step_back() {
-  try_accumulate_update(input_tfs[0].get());
-  tensor_div_back_numerator_f(*input_tfs[0]->grad, get_out_grad(),
-                              *input_tfs[1]);
-  try_accumulate_update(input_tfs[1].get());
-  native::tensor_div_back_denominator_helper::dispatch(input_tfs[1]->type(),
-                                                       this_tf->type())(
-      input_tfs[1]->grad.get(), &get_out_grad(), this_tf, input_tfs[1].get());
+  if (input_tfs[0]->requires_grad) {
+    try_accumulate_update(input_tfs[0].get());
+    tensor_div_back_numerator_f(*input_tfs[0]->grad, get_out_grad(),
+                                *input_tfs[1]);
+  }
+  if (input_tfs[1]->requires_grad) {
+    try_accumulate_update(input_tfs[1].get());
+    native::tensor_div_back_denominator_helper::dispatch(input_tfs[1]->type(),
+                                                         this_tf->type())(
+        input_tfs[1]->grad.get(), &get_out_grad(), this_tf, input_tfs[1].get());
+  }
 }
 
 void SumBack::step_back() {
-- 
2.43.0


From 82c1f491393e5b6124cbfd78b58ce291660e6331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:51 +0000
Subject: [PATCH 11/23] fix: views shared the gradient storage of the tensor
 they were taken from

---
 src/INNC/function.cpp   | 20 ++++++++++++++------
 src/INNC/tensorImpl.cpp | 16 ----------------
 2 files changed, 14 insertions(+), 22 deletions(-)

diff --git a/src/INNC/function.cpp b/src/INNC/function.cpp
index 8250d83..36b64a1 100644
--- a/src/INNC/function.cpp
+++ b/src/INNC/function.cpp
@@ -44,11 +44,8 @@ void Backward::try_accumulate_update(TensorImpl *tf_prev, bool zero_init) {
   if (tf_prev->grad_fn.get() != nullptr)
     ++tf_prev->grad_fn->accumulated_n_outway;
   if (tf_prev->grad.get() == nullptr) {
-    tf_prev->grad = TensorImpl::create(tf_prev->dtype, tf_prev->view);
-    if (zero_init)
-      tf_prev->grad->data_->zero_();
-  } else if (!tf_prev->grad->data_->is_alloc()) {
-    tf_prev->grad->data_->alloc();
+    tf_prev->grad =
+        TensorImpl::create(tf_prev->dtype, StridedLayout{tf_prev->view->sizes});
     if (zero_init)
       tf_prev->grad->data_->zero_();
   }
@@ -106,7 +103,18 @@ void MeanBack::step_back() {
                       &get_out_grad());
 }
 
-void NoBack::step_back() { try_accumulate_grad(input_tfs[0].get(), nullptr); }
+// this_tf is a view on the storage of its input: scatter its gradient to the
+// elements of the input it refers to.
+void NoBack::step_back() {
+  auto prev = input_tfs[0].get();
+  if (!prev->requires_grad)
+    return;
+  auto buf = std::make_shared<UntypedStorage>(prev->data_->get_size());
+  buf->zero_();
+  *TensorImpl::create(this_tf->dtype, this_tf->view, buf) += get_out_grad();
+  try_accumulate_grad(
+      prev, TensorImpl::create(prev->dtype, prev->view, buf).get());
+}
 
 void CloneBack::step_back() {
   try_accumulate_grad(input_tfs[0].get(), &get_out_grad());
diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index bb48258..e08bf70 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -442,18 +442,6 @@ void TensorImpl::zero_grad() const noexcept {
   grad->data_->zero_();
 }
 
-void share_grad_storage(TensorImpl &to, TensorImpl &from,
-                        const std::shared_ptr<Layout> &view) {
-  if (from.grad == nullptr) {
-    from.grad = TensorImpl::create(from.dtype, from.view, false);
-  }
-  to.grad = TensorImpl::create(to.dtype, view, from.grad->data_);
-}
-
-void share_grad_storage(TensorImpl &to, TensorImpl &from) {
-  share_grad_storage(to, from, to.view);
-}
-
 std::shared_ptr<TensorImpl> TensorImpl::operator[](const std::string &slice) {
   if (dlayout == layouts::strided) {
     std::vector<std::string> each_dim = ssplit(slice, ',');
@@ -559,7 +547,6 @@ std::shared_ptr<TensorImpl> TensorImpl::operator[](const std::string &slice) {
       return ret;
     ret->requires_grad = true;
     ret->grad_fn.reset(new NoBack(ret.get(), {shared_from_this()}));
-    share_grad_storage(*ret, *this);
     return ret;
   } else {
     throw std::runtime_error("Not implemented");
@@ -591,7 +578,6 @@ TensorImpl::transpose(const std::shared_ptr<TensorImpl> &input, size_t dim0,
     return ret;
   ret->requires_grad = true;
   ret->grad_fn.reset(new NoBack(ret.get(), {input}));
-  share_grad_storage(*ret, *input);
   return ret;
 }
 
@@ -656,7 +642,6 @@ TensorImpl::reshape(const std::shared_ptr<TensorImpl> &input,
       return tf;
     tf->requires_grad = true;
     tf->grad_fn.reset(new NoBack(tf.get(), {input}));
-    share_grad_storage(*tf, *input);
   }
 
   bool isometry = true;
@@ -699,7 +684,6 @@ TensorImpl::reshape(const std::shared_ptr<TensorImpl> &input,
     return tf;
   tf->requires_grad = true;
   tf->grad_fn.reset(new NoBack(tf.get(), {last_node}));
-  share_grad_storage(*tf, *last_node);
   return tf;
 }
 
-- 
2.43.0


From af15e82c7c4090b4969f867fb1601c8346a8123e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:51 +0000
Subject: [PATCH 12/23] fix: reshape of a one-element tensor that requires grad
 fell through

---
 src/INNC/tensorImpl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index e08bf70..b5968e7 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -642,6 +642,7 @@ TensorImpl::reshape(const std::shared_ptr<TensorImpl> &input,
       return tf;
     tf->requires_grad = true;
     tf->grad_fn.reset(new NoBack(tf.get(), {input}));
+    return tf;
   }
 
   bool isometry = true;
-- 
2.43.0


From 488757075646b031a5a2517847b52c05e08848e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:51 +0000
Subject: [PATCH 13/23] fix: reshape accepted negative sizes and divided by
 zero inferring -1

---
 src/INNC/tensorImpl.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index b5968e7..9748c44 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -597,14 +597,16 @@ SizeVec regularize_size(const SignedVec &sizes, size_t numel = 0) {
                  "Cannot have more than two minus ones in size.");
       minus_one_exist = true;
       minus_one_index = i;
-    }
+    } else
+      run_expect(sizes_[i] >= 0, "Sizes cannot be negative except for -1.");
   }
   if (minus_one_exist) {
     size_t s = 1;
     for (size_t i = 0; i < sizes_.size(); i++)
       if (i != minus_one_index)
         s *= sizes_[i];
-    run_expect(numel % s == 0, "The input of sizes and numel is illegal.");
+    run_expect(s != 0 && numel % s == 0,
+               "The input of sizes and numel is illegal.");
     sizes_[minus_one_index] = numel / s;
   }
   SizeVec sizes__;
-- 
2.43.0


From f1d1ee0958b7192e5170b645c0a7cf5c665d51b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:51 +0000
Subject: [PATCH 14/23] fix: cat of an empty list read past its end

---
 src/INNC/tensorImpl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 9748c44..e00f25f 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -770,6 +770,7 @@ std::shared_ptr<TensorImpl> TensorImpl::randn_like(const TensorImpl &t) {
 std::shared_ptr<TensorImpl>
 TensorImpl::cat(const std::vector<std::shared_ptr<INNC::TensorImpl>> &input_ts,
                 const size_t dim) {
+  run_expect(!input_ts.empty(), "You can't cat an empty list of tensors.");
   run_expect(dim >= 0 && dim < input_ts[0]->dim(),
              "you give out a illegal dim");
   for (size_t i = 1; i < input_ts.size(); i++) {
-- 
2.43.0


From 3131fe4f7ae5a2ce4f7686e350b33d55e7dab8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:51 +0000
Subject: [PATCH 15/23] fix: malformed parts of an index string were ignored

---
 src/INNC/tensorImpl.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index e00f25f..cd0b68a 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -442,6 +442,13 @@ void TensorImpl::zero_grad() const noexcept {
   grad->data_->zero_();
 }
 
+static long long parse_index(const std::string &s) {
+  size_t n_parsed = 0;
+  long long ret = std::stoll(s, &n_parsed);
+  run_expect(n_parsed == s.size(), "\"", s, "\" is not a valid index");
+  return ret;
+}
+
 std::shared_ptr<TensorImpl> TensorImpl::operator[](const std::string &slice) {
   if (dlayout == layouts::strided) {
     std::vector<std::string> each_dim = ssplit(slice, ',');
@@ -460,10 +467,18 @@ std::shared_ptr<TensorImpl> TensorImpl::operator[](const std::string &slice) {
         split_slice = ssplit(each_dim[dim], ':');
         for (auto &s : split_slice)
           trim_(s);
+        run_expect(split_slice.size() <= 3, "\"", each_dim[dim],
+                   "\" is not a valid slice");
+        if (split_slice.size() != 1)
+          for (size_t i = 0; i < split_slice.size(); ++i)
+            if (split_slice[i].size() != 0) {
+              auto part = parse_index(split_slice[i]);
+              run_expect(i != 2 || part != 0, "slice step cannot be zero");
+            }
       } else
         split_slice = {"", "", ""};
       if (split_slice.size() == 1) { // like a[-2]
-        long long idx = std::stoll(split_slice[0]);
+        long long idx = parse_index(split_slice[0]);
         if (idx < 0)
           idx += sizes[dim];
         run_expect(idx >= 0 && idx < static_cast<long long>(sizes[dim]),
@@ -480,12 +495,11 @@ std::shared_ptr<TensorImpl> TensorImpl::operator[](const std::string &slice) {
           split_slice.push_back("");
         long long step, beg, end;
         if (split_slice[2].size() != 0) {
-          step = stoll(split_slice[2]);
-          run_expect(step != 0, "slice step cannot be zero");
+          step = parse_index(split_slice[2]);
         } else
           step = 1;
         if (split_slice[0].size() != 0) {
-          beg = stoll(split_slice[0]);
+          beg = parse_index(split_slice[0]);
           if (beg < 0)
             beg += sizes[dim];
           if (beg < 0) {
@@ -508,7 +522,7 @@ std::shared_ptr<TensorImpl> TensorImpl::operator[](const std::string &slice) {
         } else
           beg = step > 0 ? 0 : sizes[dim] - 1;
         if (split_slice[1].size() != 0) {
-          end = stoll(split_slice[1]);
+          end = parse_index(split_slice[1]);
           if (end < 0)
             end += sizes[dim];
           if (step > 0) {
-- 
2.43.0


From 3f182ec44ab4aa192aabf141123240eae5eb0ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:51 +0000
Subject: [PATCH 16/23] fix: releasing a deep graph overflowed the stack

---
 src/INNC/function.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/INNC/function.cpp b/src/INNC/function.cpp
index 36b64a1..b461a47 100644
--- a/src/INNC/function.cpp
+++ b/src/INNC/function.cpp
@@ -17,7 +17,20 @@ Backward::Backward(
     : input_tfs(input_tfs), this_tf(this_tf), n_outway(0),
       accumulated_n_outway(0), back_version(0) {}
 
-Backward::~Backward() = default;
+// Unlinks the graph iteratively so that releasing a long chain of operations
+// does not overflow the stack.
+Backward::~Backward() {
+  auto pending = std::move(input_tfs);
+  while (!pending.empty()) {
+    auto tf = std::move(pending.back());
+    pending.pop_back();
+    if (tf.use_count() != 1 || tf->grad_fn == nullptr)
+      continue;
+    for (auto &input : tf->grad_fn->input_tfs)
+      pending.push_back(std::move(input));
+    tf->grad_fn->input_tfs.clear();
+  }
+}
 
 void tensor_mul_add_f(TensorImpl &dst, TensorImpl &tf1, TensorImpl &tf2) {
   apply_no_grad_binary_op<native::tensor_mul_acc_f_helper>(dst, tf1, tf2);
-- 
2.43.0


From 6c29c20e13bbb9bf883c87cf4c2f5d7a98196abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:35 +0000
Subject: [PATCH 17/23] fix: sformat lost its buffer when building the result
 string failed

---
 include/INNC/utils/utils.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/INNC/utils/utils.hpp b/include/INNC/utils/utils.hpp
index aa8ff65..db7821f 100644
--- a/include/INNC/utils/utils.hpp
+++ b/include/INNC/utils/utils.hpp
@@ -19,11 +19,9 @@ std::string sformat(const std::string &format, Args... args) {
     throw std::runtime_error("Error during formatting.");
   }
   auto size = static_cast<size_t>(size_s);
-  char *buf = new char[size];
-  std::snprintf(buf, size, format.c_str(), args...);
-  auto ret = std::string(buf, buf + size - 1);
-  delete[] buf;
-  return ret;
+  auto buf = std::make_unique<char[]>(size);
+  std::snprintf(buf.get(), size, format.c_str(), args...);
+  return std::string(buf.get(), buf.get() + size - 1);
 }
 
 static const char *ws = " \t\n\r\f\v";
-- 
2.43.0


From bceca229e0e604518bdb8d3d5bd055a1193668b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:55 +0000
Subject: [PATCH 18/23] fix: SizeVec::to_string allocates, so it must not be
 noexcept

---
 include/INNC/types.hpp | 8 ++++----
 src/INNC/types.cpp     | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/INNC/types.hpp b/include/INNC/types.hpp
index a9dcb74..bf70fc9 100644
--- a/include/INNC/types.hpp
+++ b/include/INNC/types.hpp
@@ -135,8 +135,8 @@ public:
   SizeVec();
   SizeVec(const std::initializer_list<size_t> &init_list);
   SizeVec(is_same_wo_cvref<std::vector<int>> auto &&vec);
-  friend std::ostream &operator<<(std::ostream &o, const SizeVec &sv) noexcept;
-  std::string to_string() const noexcept;
+  friend std::ostream &operator<<(std::ostream &o, const SizeVec &sv);
+  std::string to_string() const;
 };
 
 class SignedVec : public std::vector<long long> {
@@ -145,8 +145,8 @@ public:
   SignedVec(const std::initializer_list<long long> &init_list);
   SignedVec(is_same_wo_cvref<std::vector<int>> auto &&vec);
   friend std::ostream &operator<<(std::ostream &o,
-                                  const SignedVec &sv) noexcept;
-  std::string to_string() const noexcept;
+                                  const SignedVec &sv);
+  std::string to_string() const;
 };
 
 }; // namespace INNC
diff --git a/src/INNC/types.cpp b/src/INNC/types.cpp
index 0217700..aa26a64 100644
--- a/src/INNC/types.cpp
+++ b/src/INNC/types.cpp
@@ -60,19 +60,19 @@ std::string iter_to_string(const auto &it) {
   return s + "]";
 }
 
-std::string SizeVec::to_string() const noexcept {
+std::string SizeVec::to_string() const {
   return iter_to_string(*this);
 }
 
-std::string SignedVec::to_string() const noexcept {
+std::string SignedVec::to_string() const {
   return iter_to_string(*this);
 }
 
-std::ostream &operator<<(std::ostream &o, const SizeVec &sv) noexcept {
+std::ostream &operator<<(std::ostream &o, const SizeVec &sv) {
   return o << sv.to_string();
 }
 
-std::ostream &operator<<(std::ostream &o, const SignedVec &sv) noexcept {
+std::ostream &operator<<(std::ostream &o, const SignedVec &sv) {
   return o << sv.to_string();
 }
 
-- 
2.43.0


From 9060df715c2837546db8a8e3a0c3473018c2926a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:22 +0000
Subject: [PATCH 19/23] fix: switching requires_grad off on a result lost the
 gradient of other paths

backward() waited for a contribution through the switched-off result that never
came, so tensors it shares with other paths received no gradient at all.
---
 src/INNC/tensorImpl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index cd0b68a..9d5367a 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -309,7 +309,7 @@ void refresh_n_outway(TensorImpl *tf) {
     auto t = q.front();
     q.pop();
     for (const auto &it : t->grad_fn->input_tfs) {
-      if (__LIKELY(it->grad_fn.get() != nullptr &&
+      if (__LIKELY(it->requires_grad && it->grad_fn.get() != nullptr &&
                    it->grad_fn->back_version < Backward::global_back_version)) {
         it->grad_fn->back_version = Backward::global_back_version;
         it->grad_fn->n_outway = 0;
@@ -323,7 +323,7 @@ void refresh_n_outway(TensorImpl *tf) {
     auto t = q.front();
     q.pop();
     for (const auto &it : t->grad_fn->input_tfs) {
-      if (it->grad_fn.get() == nullptr)
+      if (!it->requires_grad || it->grad_fn.get() == nullptr)
         continue;
       ++it->grad_fn->n_outway;
       if (__LIKELY(it->grad_fn->back_version < Backward::global_back_version)) {
@@ -353,7 +353,7 @@ void TensorImpl::backward() {
     if (!t->retain_grad)
       t->grad.reset();
     for (const auto &it : t->grad_fn->input_tfs) {
-      if (it->grad_fn.get() != nullptr &&
+      if (it->requires_grad && it->grad_fn.get() != nullptr &&
           it->grad_fn->back_version < Backward::global_back_version &&
           it->grad_fn->is_ready()) {
         it->grad_fn->back_version = Backward::global_back_version;
-- 
2.43.0


From b862b915ef3961f3007daa891255f575536bbc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:15 +0000
Subject: [PATCH 20/23] fix: concurrent backward passes on separate graphs
 disturbed each other

---
 include/INNC/function.hpp |  3 ++-
 src/INNC/function.cpp     |  2 +-
 src/INNC/tensorImpl.cpp   | 21 ++++++++++++---------
 3 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/include/INNC/function.hpp b/include/INNC/function.hpp
index 3201c52..509688d 100644
--- a/include/INNC/function.hpp
+++ b/include/INNC/function.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "tensor.hpp"
+#include <atomic>
 #include <memory>
 
 namespace INNC {
@@ -12,7 +13,7 @@ public:
   TensorImpl *this_tf;
   size_t n_outway;
   size_t accumulated_n_outway; // TODO partial graph
-  static size_t global_back_version;
+  static std::atomic<size_t> global_back_version;
   size_t back_version;
 
   Backward(TensorImpl *this_tf,
diff --git a/src/INNC/function.cpp b/src/INNC/function.cpp
index b461a47..aee0b20 100644
--- a/src/INNC/function.cpp
+++ b/src/INNC/function.cpp
@@ -9,7 +9,7 @@
 
 namespace INNC {
 
-size_t Backward::global_back_version = 0;
+std::atomic<size_t> Backward::global_back_version = 0;
 
 Backward::Backward(
     TensorImpl *this_tf,
diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 9d5367a..4d1fdb2 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -303,21 +303,23 @@ std::shared_ptr<TensorImpl> TensorImpl::type(types t) {
 void refresh_n_outway(TensorImpl *tf) {
   std::queue<TensorImpl *> q;
   tf->grad_fn->n_outway = 0;
-  tf->grad_fn->back_version = ++Backward::global_back_version;
+  auto version = ++Backward::global_back_version;
+  tf->grad_fn->back_version = version;
   q.push(tf);
   while (!q.empty()) {
     auto t = q.front();
     q.pop();
     for (const auto &it : t->grad_fn->input_tfs) {
       if (__LIKELY(it->requires_grad && it->grad_fn.get() != nullptr &&
-                   it->grad_fn->back_version < Backward::global_back_version)) {
-        it->grad_fn->back_version = Backward::global_back_version;
+                   it->grad_fn->back_version < version)) {
+        it->grad_fn->back_version = version;
         it->grad_fn->n_outway = 0;
         q.push(it.get());
       }
     }
   }
-  tf->grad_fn->back_version = ++Backward::global_back_version;
+  version = ++Backward::global_back_version;
+  tf->grad_fn->back_version = version;
   q.push(tf);
   while (!q.empty()) {
     auto t = q.front();
@@ -326,8 +328,8 @@ void refresh_n_outway(TensorImpl *tf) {
       if (!it->requires_grad || it->grad_fn.get() == nullptr)
         continue;
       ++it->grad_fn->n_outway;
-      if (__LIKELY(it->grad_fn->back_version < Backward::global_back_version)) {
-        it->grad_fn->back_version = Backward::global_back_version;
+      if (__LIKELY(it->grad_fn->back_version < version)) {
+        it->grad_fn->back_version = version;
         q.push(it.get());
       }
     }
@@ -345,7 +347,8 @@ void TensorImpl::backward() {
   std::queue<TensorImpl *> q; // TODO 3 multiprocessing
   q.push(this);
   grad = ones_like(*this);
-  grad_fn->back_version = ++Backward::global_back_version;
+  const auto version = ++Backward::global_back_version;
+  grad_fn->back_version = version;
   while (!q.empty()) {
     auto t = q.front();
     q.pop();
@@ -354,9 +357,9 @@ void TensorImpl::backward() {
       t->grad.reset();
     for (const auto &it : t->grad_fn->input_tfs) {
       if (it->requires_grad && it->grad_fn.get() != nullptr &&
-          it->grad_fn->back_version < Backward::global_back_version &&
+          it->grad_fn->back_version < version &&
           it->grad_fn->is_ready()) {
-        it->grad_fn->back_version = Backward::global_back_version;
+        it->grad_fn->back_version = version;
         q.push(it.get());
       }
     }
-- 
2.43.0


From 1a76bcf4b82c091594c423a9a1bfc7dd3adc05dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:15 +0000
Subject: [PATCH 21/23] fix: concurrent randn calls raced on the generator

---
 include/INNC/utils/rand.hpp | 2 +-
 src/INNC/utils/rand.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/INNC/utils/rand.hpp b/include/INNC/utils/rand.hpp
index 5dc766d..8cbf8fb 100644
--- a/include/INNC/utils/rand.hpp
+++ b/include/INNC/utils/rand.hpp
@@ -1,5 +1,5 @@
 #include <random>
 
 namespace INNC {
-extern std::mt19937 rng;
+extern thread_local std::mt19937 rng;
 }
diff --git a/src/INNC/utils/rand.cpp b/src/INNC/utils/rand.cpp
index c8bdea5..251d76d 100644
--- a/src/INNC/utils/rand.cpp
+++ b/src/INNC/utils/rand.cpp
@@ -1,5 +1,5 @@
 #include "INNC/utils/rand.hpp"
 
 namespace INNC {
-std::mt19937 rng{std::random_device{}()};
+thread_local std::mt19937 rng{std::random_device{}()};
 }
-- 
2.43.0


From b142bf9e27924278c8aed6f3a4e6a50361204e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:50 +0000
Subject: [PATCH 22/23] fix: shapes whose element or byte count overflows were
 accepted

---
 include/INNC/layouts.hpp |  4 ++++
 src/INNC/layouts.cpp     | 14 ++++++++++++++
 src/INNC/tensorImpl.cpp  | 17 ++++++++++-------
 3 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/include/INNC/layouts.hpp b/include/INNC/layouts.hpp
index bcec5ab..125062f 100644
--- a/include/INNC/layouts.hpp
+++ b/include/INNC/layouts.hpp
@@ -12,6 +12,10 @@ const char *const layout_to_string_aux_arr[] = {"strided", "sparse"};
 
 std::string to_string(layouts l);
 
+// The number of elements of a tensor of these sizes. Throws if it is too large
+// to be represented.
+size_t checked_numel(const SizeVec &sizes);
+
 class Layout {
 public:
   SizeVec sizes;
diff --git a/src/INNC/layouts.cpp b/src/INNC/layouts.cpp
index fd9677c..ac612a1 100644
--- a/src/INNC/layouts.cpp
+++ b/src/INNC/layouts.cpp
@@ -3,11 +3,25 @@
 #include "INNC/storage.hpp"
 #include "INNC/tensorImpl.hpp"
 #include "INNC/types.hpp"
+#include <limits>
 
 namespace INNC {
 
 std::string to_string(layouts l) { return layout_to_string_aux_arr[l]; }
 
+size_t checked_numel(const SizeVec &sizes) {
+  size_t num = 1;
+  bool fits = true;
+  for (auto s : sizes) {
+    if (s == 0)
+      return 0;
+    fits = fits && num <= std::numeric_limits<size_t>::max() / s;
+    num *= s;
+  }
+  run_expect(fits, "A tensor of size ", sizes, " is too large.");
+  return num;
+}
+
 Layout::Layout() : sizes{} {}
 
 Layout::Layout(const SizeVec &sizes) : sizes(sizes) {}
diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 4d1fdb2..5eee08b 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -12,6 +12,7 @@
 #include "INNC/utils/utils.hpp"
 #include <algorithm>
 #include <cstring>
+#include <limits>
 #include <queue>
 
 namespace INNC {
@@ -90,9 +91,12 @@ TensorImpl::create(types dtype, const std::shared_ptr<Layout> &view,
 std::shared_ptr<TensorImpl>
 TensorImpl::create(types dtype, const std::shared_ptr<Layout> &view,
                    bool prealloc, layouts dlayout) {
+  auto numel = checked_numel(view->sizes);
+  run_expect(numel <= std::numeric_limits<size_t>::max() / size_of(dtype),
+             "A tensor of size ", view->sizes, " is too large.");
   auto ptr = create(dtype, view,
-                    std::make_unique<UntypedStorage>(
-                        size_of(dtype) * view->numel(), prealloc),
+                    std::make_unique<UntypedStorage>(size_of(dtype) * numel,
+                                                     prealloc),
                     dlayout);
   if (prealloc)
     ptr->data_->alloc();
@@ -618,10 +622,11 @@ SizeVec regularize_size(const SignedVec &sizes, size_t numel = 0) {
       run_expect(sizes_[i] >= 0, "Sizes cannot be negative except for -1.");
   }
   if (minus_one_exist) {
-    size_t s = 1;
+    SizeVec known;
     for (size_t i = 0; i < sizes_.size(); i++)
       if (i != minus_one_index)
-        s *= sizes_[i];
+        known.push_back(sizes_[i]);
+    size_t s = checked_numel(known);
     run_expect(s != 0 && numel % s == 0,
                "The input of sizes and numel is illegal.");
     sizes_[minus_one_index] = numel / s;
@@ -636,9 +641,7 @@ SizeVec regularize_size(const SignedVec &sizes, size_t numel = 0) {
 std::shared_ptr<TensorImpl>
 TensorImpl::reshape(const std::shared_ptr<TensorImpl> &input,
                     const SizeVec &sizes) {
-  size_t numel = 1;
-  for (auto i : sizes)
-    numel *= i;
+  size_t numel = checked_numel(sizes);
   if (input->dlayout != layouts::strided)
     throw std::logic_error(
         sformat("This layout %s has not been implemented", layouts::sparse));
-- 
2.43.0


From 516d59d9e7068e0efa152bebf191ac61ec1bd5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:50 +0000
Subject: [PATCH 23/23] fix: += of another view of the same elements read
 elements it had already updated

---
 src/INNC/tensorImpl.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 5eee08b..4dc55ca 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -202,8 +202,14 @@ TensorImpl &TensorImpl::operator+=(const TensorImpl &rhs) {
   run_expect(
       !requires_grad,
       "This inplace operation cannot perform on a tensor that requires grad.");
-  native::tensor_add_helper::dispatch(dtype, rhs.dtype)(
-      this, this, const_cast<TensorImpl *>(&rhs));
+  auto rhs_p = const_cast<TensorImpl *>(&rhs);
+  std::shared_ptr<TensorImpl> rhs_copy;
+  if (rhs.data_ == data_ && rhs.view != view) {
+    // rhs may refer to elements that are updated before they are read
+    rhs_copy = rhs_p->detach()->clone();
+    rhs_p = rhs_copy.get();
+  }
+  native::tensor_add_helper::dispatch(dtype, rhs.dtype)(this, this, rhs_p);
   return *this;
 }
 
-- 
2.43.0

