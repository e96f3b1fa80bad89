From 81b87893033b6195d8d9384448714e8e7fc76b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:20 +0000
Subject: [PATCH 01/42] fix: relocating elements larger than 8192 bytes divided
 by zero

---
 include/parlay/relocation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/relocation.h b/include/parlay/relocation.h
index 0803827..dfd72d1 100644
--- a/include/parlay/relocation.h
+++ b/include/parlay/relocation.h
@@ -94,7 +94,7 @@ inline std::pair<InputIterator, NoThrowForwardIterator> uninitialized_relocate_n
   // The most efficient scenario -- The objects are trivially relocatable and the iterators
   // point to contiguous memory so, we can memcpy chunks of more than one T object at a time.
   if constexpr (contiguous && trivially_relocatable) {
-    constexpr size_t chunk_size = 1024 * sizeof(size_t) / sizeof(T);
+    constexpr size_t chunk_size = 1 + (1024 * sizeof(size_t)) / sizeof(T);
     const size_t n_chunks = (n + chunk_size - 1) / chunk_size;
     parallel_for(0, n_chunks, [&](size_t i) {
       size_t n_objects = (std::min)(chunk_size, n - i * chunk_size);
-- 
2.43.0


From 8f580d12d32849004ae94836f2651c98fde31272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:20 +0000
Subject: [PATCH 02/42] fix: comparing sequences of elements larger than 8192
 bytes never terminated

---
 include/parlay/sequence.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/sequence.h b/include/parlay/sequence.h
index 4970214..086bdf4 100644
--- a/include/parlay/sequence.h
+++ b/include/parlay/sequence.h
@@ -662,7 +662,7 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
   template<typename Iterator_>
   bool compare_equal(Iterator_ other, size_t granularity = 0) const {
     if (granularity == 0) {
-      granularity = 1024 * sizeof(size_t) / sizeof(value_type);
+      granularity = 1 + (1024 * sizeof(size_t) / sizeof(value_type));
     }
     auto n = size();
     auto self = begin();
-- 
2.43.0


From 3eac76e4415391d4cd4755a46e99fab31568dacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:20 +0000
Subject: [PATCH 03/42] fix: data race on the result of comparing unequal
 sequences

---
 include/parlay/sequence.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/parlay/sequence.h b/include/parlay/sequence.h
index 086bdf4..e0a008e 100644
--- a/include/parlay/sequence.h
+++ b/include/parlay/sequence.h
@@ -13,6 +13,7 @@
 #include <cassert>
 #include <cstddef>
 
+#include <atomic>
 #include <functional>          // IWYU pragma: keep
 #include <iostream>
 #include <initializer_list>
@@ -672,17 +673,17 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
     if (i == n) return true;
     size_t start = granularity;
     size_t block_size = 2 * granularity;
-    bool matches = true;
+    std::atomic<bool> matches{true};
     while (start < n) {
       size_t last = (std::min)(n, start + block_size);
       parallel_for(start, last, [&](size_t j) {
-        if (!(self[j] == other[j])) matches = false;
+        if (!(self[j] == other[j])) matches.store(false, std::memory_order_relaxed);
       }, granularity);
-      if (!matches) return false;
+      if (!matches.load(std::memory_order_relaxed)) return false;
       start += block_size;
       block_size *= 2;
     }
-    return matches;
+    return true;
   }
 };
 
-- 
2.43.0


From cfe6c3f6fa417e8d267d4e0b2dd187b2021c7e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:20 +0000
Subject: [PATCH 04/42] fix: growing a sequence by one of its own elements read
 freed memory

---
 include/parlay/sequence.h | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/include/parlay/sequence.h b/include/parlay/sequence.h
index e0a008e..ca1c7df 100644
--- a/include/parlay/sequence.h
+++ b/include/parlay/sequence.h
@@ -236,6 +236,10 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
       // p might be invalidated when the capacity is increased,
       // so we need to remember where it occurs in the sequence
       auto pos = p - begin();
+
+      // The arguments might refer to an element of this sequence,
+      // which is about to be relocated, so they must be consumed first
+      value_type v(std::forward<Args>(args)...);
       storage.ensure_capacity(size() + 1);
       p = begin() + pos;
 
@@ -243,7 +247,7 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
       // append since we ensured that there was sufficient capacity already,
       // so a second reallocation will never happen after this point
       auto the_tail = pop_tail(p);
-      auto it = emplace_back(std::forward<Args>(args)...);
+      auto it = emplace_back(std::move(v));
       append(std::move(the_tail));
       return it;
     }
@@ -251,8 +255,16 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
 
   template<typename... Args>
   iterator emplace_back(Args&&... args) {
-    storage.ensure_capacity(size() + 1);
-    storage.initialize(end(), std::forward<Args>(args)...);
+    if (size() == capacity()) {
+      // The arguments might refer to an element of this sequence, which
+      // reallocation would invalidate, so they must be consumed first
+      value_type v(std::forward<Args>(args)...);
+      storage.ensure_capacity(size() + 1);
+      storage.initialize(end(), std::move(v));
+    }
+    else {
+      storage.initialize(end(), std::forward<Args>(args)...);
+    }
     storage.set_size(size() + 1);
     return end() - 1;
   }
@@ -374,7 +386,12 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
         parallel_for(new_size, current, [&](size_t i) { storage.destroy(&buffer[i]); });
       }
     } else {
-      storage.ensure_capacity(new_size);
+      if (new_size > capacity()) {
+        // v might be an element of this sequence, which reallocation would invalidate
+        const value_type copy(v);
+        storage.ensure_capacity(new_size);
+        return resize(new_size, copy);
+      }
       assert(storage.capacity() >= new_size);
       auto buffer = storage.data();
       parallel_for(
@@ -589,7 +606,12 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
   }
 
   iterator append_n(size_t n, const value_type& t) {
-    storage.ensure_capacity(size() + n);
+    if (size() + n > capacity()) {
+      // t might be an element of this sequence, which reallocation would invalidate
+      const value_type copy(t);
+      storage.ensure_capacity(size() + n);
+      return append_n(n, copy);
+    }
     auto it = end();
     parallel_for(0, n, [&](size_t i) {
       storage.initialize_explicit(it + i, t);
@@ -630,7 +652,10 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
     }
   }
 
-  iterator insert_n(iterator p, size_t n, const value_type& v) {
+  iterator insert_n(iterator p, size_t n, const value_type& t) {
+    // t might be an element of this sequence, which is about to be relocated
+    const value_type v(t);
+
     // p might be invalidated when the capacity is increased,
     // so we have to remember where it is in the sequence
     auto pos = p - begin();
-- 
2.43.0


From 7c49e69912d268bf2af486a5b46dd16cd42e0b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:20 +0000
Subject: [PATCH 05/42] fix: adjacent_find read out of bounds on an empty range

---
 include/parlay/primitives.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/parlay/primitives.h b/include/parlay/primitives.h
index 962f557..0b4b6ad 100644
--- a/include/parlay/primitives.h
+++ b/include/parlay/primitives.h
@@ -632,6 +632,7 @@ template <typename R, typename BinaryPred>
 auto adjacent_find(R&& r, BinaryPred&& p) {
   static_assert(is_random_access_range_v<R>);
   static_assert(std::is_invocable_r_v<bool, BinaryPred, range_reference_type_t<R>, range_reference_type_t<R>>);
+  if (parlay::size(r) == 0) return std::end(r);
   auto idx = internal::find_if_index(parlay::size(r) - 1,
                  [&p, it = std::begin(r)](size_t i) {
                    return p(it[i], it[i + 1]); });
-- 
2.43.0


From c57109e8b8a77b9291e8495e834899e0cfdf1ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:20 +0000
Subject: [PATCH 06/42] fix: find_end read out of bounds when the pattern is
 longer than the text

---
 include/parlay/primitives.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/parlay/primitives.h b/include/parlay/primitives.h
index 0b4b6ad..aeba123 100644
--- a/include/parlay/primitives.h
+++ b/include/parlay/primitives.h
@@ -701,7 +701,8 @@ auto find_end(R1&& r1, R2&& r2, BinaryPred&& p) {
   size_t n2 = parlay::size(r2);
 
   // According to the C++ standard, std::find_end should return the end iterator if the pattern is empty
-  if (n2 == 0) return std::end(r1);
+  // and likewise if the pattern is too long to occur
+  if (n2 == 0 || n2 > n1) return std::end(r1);
 
   size_t idx = internal::find_if_index(n1 - n2 + 1, [&](size_t i) {
     size_t j;
-- 
2.43.0


From 2154e5c010bbfdc1b9e9b274bf8a971e78cfe9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 07/42] fix: kth_smallest recursed forever on many equivalent
 but unequal elements

---
 include/parlay/primitives.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/primitives.h b/include/parlay/primitives.h
index aeba123..72fca01 100644
--- a/include/parlay/primitives.h
+++ b/include/parlay/primitives.h
@@ -1288,7 +1288,7 @@ auto kth_smallest_copy(Range&& in, size_t k, Compare&& less = {}) {
   // elements from the bucket when recursing in case there is a massive number of
   // duplicates of the pivot element
   auto filtered_bucket = parlay::pack(in, parlay::tabulate(n, [&] (size_t i) -> bool {
-    return ids[i] == id && (ids[i] == sample_size || it[i] != pivots[ids[i]]);
+    return ids[i] == id && (ids[i] == sample_size || less(it[i], pivots[ids[i]]));
   }));
   assert(filtered_bucket.size() <= bucket_length);
   auto filtered_bucket_length = filtered_bucket.size();
-- 
2.43.0


From e30e368edcbb51331315672e246ba79920fe891d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 08/42] fix: is_sorted and is_sorted_until without a comparator
 did not compile

---
 include/parlay/primitives.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/parlay/primitives.h b/include/parlay/primitives.h
index 72fca01..f81e459 100644
--- a/include/parlay/primitives.h
+++ b/include/parlay/primitives.h
@@ -908,7 +908,7 @@ bool is_sorted(R&& r, Compare&& comp) {
 template <typename R>
 bool is_sorted(R&& r) {
   static_assert(is_random_access_range_v<R>);
-  static_assert(is_less_than_comparable_v<R>);
+  static_assert(is_less_than_comparable_v<range_reference_type_t<R>>);
   return parlay::is_sorted(std::forward<R>(r), std::less<>());
 }
 
@@ -922,9 +922,9 @@ auto is_sorted_until(R&& r, Compare&& comp) {
 }
 
 template <typename R>
-auto is_sorted_until(R& r) {
+auto is_sorted_until(R&& r) {
   static_assert(is_random_access_range_v<R>);
-  static_assert(is_less_than_comparable_v<R>);
+  static_assert(is_less_than_comparable_v<range_reference_type_t<R>>);
   return parlay::is_sorted_until(std::forward<R>(r), std::less<>());
 }
 
-- 
2.43.0


From e89024855732e535f3b8a74e2ffea5457989b93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 09/42] fix: end of a one-block delayed inclusive scan was read
 out of bounds

---
 include/parlay/internal/delayed/scan.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/internal/delayed/scan.h b/include/parlay/internal/delayed/scan.h
index 56bbf0a..733660d 100644
--- a/include/parlay/internal/delayed/scan.h
+++ b/include/parlay/internal/delayed/scan.h
@@ -61,7 +61,7 @@ struct block_delayed_scan_t :
       total = parlay::internal::scan_inplace(make_slice(block_sums), parlay::make_monoid(*(op.get()), identity));
     }
     else {
-      block_sums = sequence<T>(1, identity);
+      block_sums = sequence<T>(2, identity);
     }
 
     // If inclusive, each block needs to initially include its first value
-- 
2.43.0


From bd1e5617576625119d6f0802ecf1bbb8eebf06dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 10/42] fix: delayed flatten read out of bounds when trailing
 blocks of its input start no output block

---
 include/parlay/internal/delayed/flatten.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parlay/internal/delayed/flatten.h b/include/parlay/internal/delayed/flatten.h
index ce4874b..57cca46 100644
--- a/include/parlay/internal/delayed/flatten.h
+++ b/include/parlay/internal/delayed/flatten.h
@@ -201,8 +201,8 @@ struct block_delayed_flatten_t :
         size_t out_block_id = std::distance(std::begin(out_block_offsets),
                                             std::lower_bound(std::begin(out_block_offsets), std::end(out_block_offsets), block_start));
 
-        size_t outer_idx = out_block_offsets[out_block_id];
-        if (outer_idx < block_end) {
+        if (out_block_id < out_block_offsets.size() && out_block_offsets[out_block_id] < block_end) {
+          size_t outer_idx = out_block_offsets[out_block_id];
           auto outer_it = begin_block(base_view(), i);
           std::advance(outer_it, outer_idx - block_start);
 
-- 
2.43.0


From 007061f484e910e1485e9129ad7762a0f5626d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 11/42] fix: copying or moving a delayed flatten of temporaries
 left it referring to the original

---
 include/parlay/internal/delayed/flatten.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/parlay/internal/delayed/flatten.h b/include/parlay/internal/delayed/flatten.h
index 57cca46..4214d74 100644
--- a/include/parlay/internal/delayed/flatten.h
+++ b/include/parlay/internal/delayed/flatten.h
@@ -244,7 +244,7 @@ struct block_delayed_flatten_copy_t : public block_iterable_view_base<void, bloc
   using base = block_iterable_view_base<void, block_delayed_flatten_copy_t<UnderlyingView>>;
 
   using inner_sequence_type = range_value_type_t<UnderlyingView>;
-  using flattener_type = block_delayed_flatten_t<sequence<inner_sequence_type>&>;
+  using flattener_type = block_delayed_flatten_t<sequence<inner_sequence_type>>;
 
  public:
   using value_type = range_value_type_t<range_value_type_t<UnderlyingView>>;
@@ -255,7 +255,7 @@ struct block_delayed_flatten_copy_t : public block_iterable_view_base<void, bloc
 
   template<typename UV>
   block_delayed_flatten_copy_t(UV&& v, int) : base(),
-      data(parlay::internal::delayed::to_sequence(std::forward<UV>(v))), result(data, 0) {
+      result(parlay::internal::delayed::to_sequence(std::forward<UV>(v)), 0) {
 
   }
 
@@ -273,7 +273,6 @@ struct block_delayed_flatten_copy_t : public block_iterable_view_base<void, bloc
   auto get_begin_block(size_t i) const { return result.get_begin_block(i); }
 
  private:
-  sequence<inner_sequence_type> data;
   flattener_type result;
 };
 
-- 
2.43.0


From de4f9c4345f8f951d9726a195165156093f77687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:28 +0000
Subject: [PATCH 12/42] fix: moved or assigned delayed filter and flatten views
 held dangling iterators

Assignment also swapped the contents of the sequences that the views referred to.
---
 include/parlay/internal/delayed/common.h  | 49 +++++++++++++++++++++--
 include/parlay/internal/delayed/filter.h  |  8 ++--
 include/parlay/internal/delayed/flatten.h |  8 ++--
 3 files changed, 56 insertions(+), 9 deletions(-)

diff --git a/include/parlay/internal/delayed/common.h b/include/parlay/internal/delayed/common.h
index fef4623..1030554 100644
--- a/include/parlay/internal/delayed/common.h
+++ b/include/parlay/internal/delayed/common.h
@@ -5,6 +5,7 @@
 
 #include <algorithm>
 #include <functional>
+#include <memory>
 #include <utility>
 #include <type_traits>
 
@@ -154,6 +155,47 @@ struct block_iterable_view_base_data {
 template<>
 struct block_iterable_view_base_data<void> { };
 
+// Views that store iterators into their underlying view must use this storage instead.
+// An underlying view that is owned is kept on the heap, so that iterators into it remain
+// valid when the owner is moved or swapped. Copying still copies the underlying view, so
+// it invalidates iterators.
+template<typename UnderlyingView>
+struct block_iterable_view_base_stable_data {
+  explicit block_iterable_view_base_stable_data(UnderlyingView&& v)
+      : view_m(std::make_unique<UnderlyingView>(std::move(v))) { }
+
+  explicit block_iterable_view_base_stable_data(const UnderlyingView& v)
+      : view_m(std::make_unique<UnderlyingView>(v)) { }
+
+  block_iterable_view_base_stable_data(const block_iterable_view_base_stable_data& other)
+      : view_m(std::make_unique<UnderlyingView>(*other.view_m)) { }
+
+  block_iterable_view_base_stable_data(block_iterable_view_base_stable_data&&) noexcept = default;
+
+  UnderlyingView& base_view() { return *view_m; }
+  const UnderlyingView& base_view() const { return *view_m; }
+
+ protected:
+  void swap_base_view(block_iterable_view_base_stable_data& other) { std::swap(view_m, other.view_m); }
+
+ private:
+  std::unique_ptr<UnderlyingView> view_m;
+};
+
+template<typename UnderlyingView>
+struct block_iterable_view_base_stable_data<UnderlyingView&> {
+  explicit block_iterable_view_base_stable_data(UnderlyingView& v) : view_m(v) { }
+
+  UnderlyingView& base_view() { return view_m; }
+  UnderlyingView& base_view() const { return view_m; }
+
+ protected:
+  void swap_base_view(block_iterable_view_base_stable_data& other) { std::swap(view_m, other.view_m); }
+
+ private:
+  std::reference_wrapper<UnderlyingView> view_m;
+};
+
 // This base class helps to implement block-iterable delayed views.
 //
 // The parent class must implement get_begin_block(size_t), which, given an index i,
@@ -183,8 +225,9 @@ struct block_iterable_view_base_data<void> { };
 // Template arguments:
 //  UnderlyingView: the type of the underlying view that is being transformed
 //  Parent: the type of the parent view class (CRTP)
-template<typename UnderlyingView, typename Parent>
-struct block_iterable_view_base : public block_iterable_view_base_data<UnderlyingView> {
+//  BaseData: the storage used for the underlying view
+template<typename UnderlyingView, typename Parent, typename BaseData = block_iterable_view_base_data<UnderlyingView>>
+struct block_iterable_view_base : public BaseData {
  public:
 
   // Returns an interator pointing to the end of block i
@@ -213,7 +256,7 @@ struct block_iterable_view_base : public block_iterable_view_base_data<Underlyin
 
   template<typename UV>
   explicit block_iterable_view_base(UV&& v, int)
-    : block_iterable_view_base_data<UnderlyingView>(std::forward<UV>(v)) { }
+    : BaseData(std::forward<UV>(v)) { }
 
  private:
   Parent* parent() { return static_cast<Parent*>(this); }
diff --git a/include/parlay/internal/delayed/filter.h b/include/parlay/internal/delayed/filter.h
index f73b50c..bddce61 100644
--- a/include/parlay/internal/delayed/filter.h
+++ b/include/parlay/internal/delayed/filter.h
@@ -22,10 +22,12 @@ namespace delayed {
 
 template<typename UnderlyingView, typename UnaryPredicate>
 struct block_delayed_filter_t :
-    public block_iterable_view_base<UnderlyingView, block_delayed_filter_t<UnderlyingView, UnaryPredicate>> {
+    public block_iterable_view_base<UnderlyingView, block_delayed_filter_t<UnderlyingView, UnaryPredicate>,
+                                    block_iterable_view_base_stable_data<UnderlyingView>> {
 
  private:
-  using base = block_iterable_view_base<UnderlyingView, block_delayed_filter_t<UnderlyingView, UnaryPredicate>>;
+  using base = block_iterable_view_base<UnderlyingView, block_delayed_filter_t<UnderlyingView, UnaryPredicate>,
+                                        block_iterable_view_base_stable_data<UnderlyingView>>;
   using base::base_view;
 
   static_assert(is_block_iterable_range_v<UnderlyingView>);
@@ -55,7 +57,7 @@ struct block_delayed_filter_t :
 
   friend void swap(block_delayed_filter_t& first, block_delayed_filter_t& second) {
     using std::swap;
-    swap(first.base_view(), second.base_view());
+    first.swap_base_view(second);
     swap(first.result, second.result);
     swap(first.p, second.p);
   }
diff --git a/include/parlay/internal/delayed/flatten.h b/include/parlay/internal/delayed/flatten.h
index 4214d74..f007506 100644
--- a/include/parlay/internal/delayed/flatten.h
+++ b/include/parlay/internal/delayed/flatten.h
@@ -28,14 +28,16 @@ namespace delayed {
 
 template<typename UnderlyingView>
 struct block_delayed_flatten_t :
-    public block_iterable_view_base<UnderlyingView, block_delayed_flatten_t<UnderlyingView>> {
+    public block_iterable_view_base<UnderlyingView, block_delayed_flatten_t<UnderlyingView>,
+                                    block_iterable_view_base_stable_data<UnderlyingView>> {
 
  private:
   static_assert(is_block_iterable_range_v<UnderlyingView>);
   static_assert(is_forward_range_v<range_reference_type_t<UnderlyingView>>);
   static_assert(std::is_reference_v<range_reference_type_t<UnderlyingView>>);
 
-  using base = block_iterable_view_base<UnderlyingView, block_delayed_flatten_t<UnderlyingView>>;
+  using base = block_iterable_view_base<UnderlyingView, block_delayed_flatten_t<UnderlyingView>,
+                                        block_iterable_view_base_stable_data<UnderlyingView>>;
   using base::base_view;
 
   using outer_iterator_type = range_iterator_type_t<UnderlyingView>;
@@ -65,7 +67,7 @@ struct block_delayed_flatten_t :
 
   friend void swap(block_delayed_flatten_t& first, block_delayed_flatten_t& second) {
     using std::swap;
-    swap(first.base_view(), second.base_view());
+    first.swap_base_view(second);
     swap(first.n_blocks, second.n_blocks);
     swap(first.n_elements, second.n_elements);
     swap(first.outer_starts, second.outer_starts);
-- 
2.43.0


From 13fc14dc4601dcfc2753f66d3bc2a141dd19191c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:31 +0000
Subject: [PATCH 13/42] fix: the identities of the min and max monoids were not
 neutral for infinities

---
 include/parlay/monoid.h | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/include/parlay/monoid.h b/include/parlay/monoid.h
index 9498847..267f083 100644
--- a/include/parlay/monoid.h
+++ b/include/parlay/monoid.h
@@ -70,6 +70,24 @@ inline constexpr bool is_monoid_for_v = is_monoid_for<Monoid_, T>::value;
 
 // Built-in monoids with sensible default identities
 
+namespace internal {
+
+// The identity of max over T, i.e., its least value, which for floating-point types is -infinity
+template<typename T>
+constexpr T max_identity() {
+  if constexpr (std::numeric_limits<T>::has_infinity) return -std::numeric_limits<T>::infinity();
+  else return std::numeric_limits<T>::lowest();
+}
+
+// The identity of min over T, i.e., its greatest value, which for floating-point types is infinity
+template<typename T>
+constexpr T min_identity() {
+  if constexpr (std::numeric_limits<T>::has_infinity) return std::numeric_limits<T>::infinity();
+  else return (std::numeric_limits<T>::max)();
+}
+
+}  // namespace internal
+
 template<typename T>
 struct plus : public std::plus<> {
   static_assert(is_binary_operator_for_v<std::plus<>, T>);
@@ -129,7 +147,7 @@ struct bit_and : public std::bit_and<> {
 template<typename T>
 struct maximum {
   T identity;
-  maximum() : identity(std::numeric_limits<T>::lowest()) { }
+  maximum() : identity(internal::max_identity<T>()) { }
   explicit maximum(T identity_) : identity(std::move(identity_)) { }
   template<typename T1, typename T2>
   T operator()(T1&& x, T2&& y) const { return std::max<T>(std::forward<T1>(x), std::forward<T2>(y)); }
@@ -138,7 +156,7 @@ struct maximum {
 template<typename T>
 struct minimum {
   T identity;
-  minimum() : identity(std::numeric_limits<T>::max()) { }
+  minimum() : identity(internal::min_identity<T>()) { }
   explicit minimum(T identity_) : identity(std::move(identity_)) { }
   template<typename T1, typename T2>
   T operator()(T1&& x, T2&& y) const { return std::min<T>(std::forward<T1>(x), std::forward<T2>(y)); }
@@ -265,7 +283,7 @@ struct addm {
 template <class TT>
 struct maxm {
   using T = TT;
-  maxm() : identity(std::numeric_limits<T>::lowest()) {}
+  maxm() : identity(internal::max_identity<T>()) {}
   T identity;
   static T f(T a, T b) { return (std::max)(a, b); }
 };
@@ -273,7 +291,7 @@ struct maxm {
 template <class T1, class T2>
 struct maxm<std::pair<T1, T2>> {
   using T = std::pair<T1, T2>;
-  maxm() : identity(std::make_pair(std::numeric_limits<T1>::lowest(), std::numeric_limits<T2>::lowest())) {}
+  maxm() : identity(std::make_pair(internal::max_identity<T1>(), internal::max_identity<T2>())) {}
   T identity;
   static T f(T a, T b) { return (std::max)(a, b); }
 };
@@ -281,7 +299,7 @@ struct maxm<std::pair<T1, T2>> {
 template <class TT>
 struct minm {
   using T = TT;
-  minm() : identity((std::numeric_limits<T>::max)()) {}
+  minm() : identity(internal::min_identity<T>()) {}
   T identity;
   static T f(T a, T b) { return (std::min)(a, b); }
 };
@@ -289,7 +307,7 @@ struct minm {
 template <class T1, class T2>
 struct minm<std::pair<T1, T2>> {
   using T = std::pair<T1, T2>;
-  minm() : identity(std::make_pair((std::numeric_limits<T1>::max)(), (std::numeric_limits<T2>::max)())) {}
+  minm() : identity(std::make_pair(internal::min_identity<T1>(), internal::min_identity<T2>())) {}
   T identity;
   static T f(T a, T b) { return (std::min)(a, b); }
 };
@@ -305,7 +323,7 @@ struct xorm {
 template <class TT>
 struct minmaxm {
   using T = std::pair<TT, TT>;
-  minmaxm() : identity(T((std::numeric_limits<TT>::max)(), (std::numeric_limits<TT>::lowest)())) {}
+  minmaxm() : identity(T(internal::min_identity<TT>(), internal::max_identity<TT>())) {}
   T identity;
   static T f(T a, T b) {
     return T((std::min)(a.first, b.first), (std::max)(a.second, b.second));
-- 
2.43.0


From 342436104cd2537260fcb3728157d070722ea4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:31 +0000
Subject: [PATCH 14/42] fix: group_by_key_ordered ignored the comparator for
 unsigned keys

---
 include/parlay/internal/group_by.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/parlay/internal/group_by.h b/include/parlay/internal/group_by.h
index a859411..b51db49 100644
--- a/include/parlay/internal/group_by.h
+++ b/include/parlay/internal/group_by.h
@@ -61,7 +61,9 @@ auto group_by_key_ordered(Range&& S, Comp&& less) {
 
   sequence<KV> sorted;
   auto comp = internal::compare_pairs_by_key(less);
-  if constexpr(std::is_integral_v<K> && std::is_unsigned_v<K> && sizeof(KV) <= 16) {
+  using less_type = std::remove_cv_t<std::remove_reference_t<Comp>>;
+  constexpr bool is_less = std::is_same_v<less_type, std::less<>> || std::is_same_v<less_type, std::less<K>>;
+  if constexpr(is_less && std::is_integral_v<K> && std::is_unsigned_v<K> && sizeof(KV) <= 16) {
     sorted = internal::integer_sort(make_slice(S), internal::get_key);
   } else {
     sorted = internal::sample_sort(make_slice(S), comp, true);
-- 
2.43.0


From 93445f7185084b0eae63fb7da2642bbe25c708fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:31 +0000
Subject: [PATCH 15/42] fix: group_by_index overflowed when the input is longer
 than the index type can count

---
 include/parlay/internal/group_by.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/internal/group_by.h b/include/parlay/internal/group_by.h
index b51db49..11620f9 100644
--- a/include/parlay/internal/group_by.h
+++ b/include/parlay/internal/group_by.h
@@ -333,7 +333,7 @@ auto group_by_index(R&& A, Integer_t num_buckets) {
     size_t bits = log2_up(num_buckets);
     auto sorted = internal::integer_sort(make_slice(A), internal::get_key, bits);
 
-    auto iota = internal::delayed_tabulate(n, [](Integer_t i) { return i; });
+    auto iota = internal::delayed_tabulate(n, [](size_t i) { return i; });
     auto starts = block_delayed::filter(iota, [&] (size_t i) {
 	return (i==0) || internal::get_key(sorted[i-1]) < internal::get_key(sorted[i]);});
     size_t m = starts.size();
-- 
2.43.0


From 2a1415da0144695c053ad67eb8580beb79679e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:31 +0000
Subject: [PATCH 16/42] fix: keyed reduction by index divided by zero on an
 empty input or zero buckets

---
 include/parlay/internal/collect_reduce.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/parlay/internal/collect_reduce.h b/include/parlay/internal/collect_reduce.h
index 49ea7f9..38aa216 100644
--- a/include/parlay/internal/collect_reduce.h
+++ b/include/parlay/internal/collect_reduce.h
@@ -50,13 +50,16 @@ auto collect_reduce_few(Seq const &A, Helper const &helper, size_t num_buckets)
   using result_type = decltype(helper.init());
   size_t n = A.size();
 
+  // this also ensures that the divisions below are well defined
+  if (n < CR_SEQ_THRESHOLD) return seq_collect_reduce(A, helper, num_buckets);
+
   size_t num_threads = num_workers();
   size_t num_blocks_ = (std::min)(4 * num_threads, n / num_buckets / 64) + 1;
   size_t block_size = ((n - 1) / num_blocks_) + 1;
   size_t num_blocks = (1 + ((n)-1) / (block_size));
 
   // if insufficient parallelism, do sequentially
-  if (n < CR_SEQ_THRESHOLD || num_blocks == 1 || num_threads == 1)
+  if (num_blocks == 1 || num_threads == 1)
     return seq_collect_reduce(A, helper, num_buckets);
 
   // partial results for each block
-- 
2.43.0


From 85f1989b20b9b0c26df5836f2a71a038053541f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:31 +0000
Subject: [PATCH 17/42] fix: upper-case INF and NAN were parsed as zero

---
 include/parlay/io.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/io.h b/include/parlay/io.h
index 82443d1..cdbeee7 100644
--- a/include/parlay/io.h
+++ b/include/parlay/io.h
@@ -181,7 +181,7 @@ Float_ chars_to_float_t(const chars& s, FallbackF&& fallback) {
     }
     
     // Catches inf and nan
-    if (str[i] == 'i' || str[i] == 'n') {
+    if (str[i] == 'i' || str[i] == 'n' || str[i] == 'I' || str[i] == 'N') {
       return fallback(s);
     }
     
-- 
2.43.0


From fa985d9fb3b61946345b6747db312cb99a4da0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:31 +0000
Subject: [PATCH 18/42] fix: chars_from_file with start past the end used a
 negative length

---
 include/parlay/io.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/parlay/io.h b/include/parlay/io.h
index cdbeee7..5e7881b 100644
--- a/include/parlay/io.h
+++ b/include/parlay/io.h
@@ -41,6 +41,7 @@ inline chars chars_from_file(const std::string& filename,
   start = (std::min)(start,length);
   if (end == 0) end = length;
   else end = (std::min)(end,length);
+  end = (std::max)(start,end);
   std::streamsize n = end - start;
   file.seekg (start, std::ios::beg);
   auto chars = chars::uninitialized(static_cast<size_t>(n) + null_terminate);
-- 
2.43.0


From 4cb06779385e42f98d415da63eebc702386116fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:31 +0000
Subject: [PATCH 19/42] fix: file_map of an empty file was an invalid range

---
 include/parlay/internal/posix/file_map_impl_posix.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/parlay/internal/posix/file_map_impl_posix.h b/include/parlay/internal/posix/file_map_impl_posix.h
index a6c15e5..93c36b2 100644
--- a/include/parlay/internal/posix/file_map_impl_posix.h
+++ b/include/parlay/internal/posix/file_map_impl_posix.h
@@ -47,8 +47,12 @@ class file_map {
       assert(fstat_res != -1);
       assert(S_ISREG(sb.st_mode));
     
-      char *p = static_cast<char*>(mmap(nullptr, sb.st_size, PROT_READ, MAP_PRIVATE, fd, 0));
-      assert(p != MAP_FAILED);
+      // mmap does not support empty mappings, so an empty file is represented by nullptr
+      char *p = nullptr;
+      if (sb.st_size > 0) {
+        p = static_cast<char*>(mmap(nullptr, sb.st_size, PROT_READ, MAP_PRIVATE, fd, 0));
+        assert(p != MAP_FAILED);
+      }
       [[maybe_unused]] int close_p = ::close(fd);
       assert(close_p != -1);
       
-- 
2.43.0


From 4fde1818c8bb94d37e48f89ce2fe1a908b74cdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:31 +0000
Subject: [PATCH 20/42] fix: sequences of over-aligned elements were misaligned

---
 include/parlay/internal/sequence_base.h | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/parlay/internal/sequence_base.h b/include/parlay/internal/sequence_base.h
index 1f85a47..95e6070 100644
--- a/include/parlay/internal/sequence_base.h
+++ b/include/parlay/internal/sequence_base.h
@@ -48,7 +48,12 @@ struct alignas(uint64_t) sequence_base {
 
   using allocator_type = Allocator;
   using T_allocator_type = typename std::allocator_traits<allocator_type>::template rebind_alloc<T>;
-  using raw_allocator_type = typename std::allocator_traits<allocator_type>::template rebind_alloc<std::byte>;
+
+  // The unit of raw storage. Allocators only guarantee memory that is suitably aligned for the type that they
+  // allocate, so if value_type is over aligned then the storage must be allocated in units that are too.
+  struct alignas(T) aligned_unit { std::byte bytes[alignof(T)]; };
+  using raw_unit_type = std::conditional_t<(alignof(T) > alignof(std::max_align_t)), aligned_unit, std::byte>;
+  using raw_allocator_type = typename std::allocator_traits<allocator_type>::template rebind_alloc<raw_unit_type>;
 
   using value_type = T;
 
@@ -280,15 +285,20 @@ struct alignas(uint64_t) sequence_base {
         };
 
         static header* create(size_t capacity, raw_allocator_type& a) {
-          auto buffer_size = offsetof(header, data) + capacity * sizeof(value_type);
-          std::byte* bytes = std::allocator_traits<raw_allocator_type>::allocate(a, buffer_size);
-          return new (bytes) header(capacity);
+          void* buffer = std::allocator_traits<raw_allocator_type>::allocate(a, num_units(capacity));
+          return new (buffer) header(capacity);
         }
 
         static void destroy(header* p, raw_allocator_type& a) {
-          auto buffer_size = offsetof(header, data) + p->capacity * sizeof(value_type);
-          std::byte* bytes = reinterpret_cast<std::byte*>(p);
-          std::allocator_traits<raw_allocator_type>::deallocate(a, bytes, buffer_size);
+          auto n_units = num_units(p->capacity);
+          raw_unit_type* buffer = reinterpret_cast<raw_unit_type*>(p);
+          std::allocator_traits<raw_allocator_type>::deallocate(a, buffer, n_units);
+        }
+
+        // The number of units of raw storage required for the given capacity
+        static size_t num_units(size_t capacity) {
+          auto buffer_size = offsetof(header, data) + capacity * sizeof(value_type);
+          return (buffer_size + sizeof(raw_unit_type) - 1) / sizeof(raw_unit_type);
         }
 
         explicit header(size_t _capacity) : capacity(_capacity) {}
-- 
2.43.0


From ec5e40ca6a5ccdacf432ddfee05f4ac4f8e3a25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:06 +0000
Subject: [PATCH 21/42] fix: allocator statistics underflowed after large
 p_malloc blocks were freed

---
 include/parlay/alloc.h                   | 15 ++++++++++++++-
 include/parlay/internal/pool_allocator.h | 11 ++++++++---
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/parlay/alloc.h b/include/parlay/alloc.h
index 7d91981..0ce3f9d 100644
--- a/include/parlay/alloc.h
+++ b/include/parlay/alloc.h
@@ -84,6 +84,12 @@ namespace internal {
 
 // Header used by p_malloc. Stores the requested size of the buffer and
 // the offset of the underlying buffer that we need to free later.
+//
+// Blocks of at least this size might be too large for the pools, in which case
+// they are not rounded up to a power of two. The exact size of these blocks is
+// stored in front of the header, where there are always at least 56 bytes of padding.
+inline constexpr size_t p_malloc_store_size_threshold = 1 << 20;
+
 struct p_malloc_header {
   uint64_t log_size : 8;   // We can store the log of the size because the default
   uint64_t offset : 48;    // allocator uses only powers of two pool sizes
@@ -123,6 +129,9 @@ inline void* p_malloc(size_t size, size_t align = alignof(std::max_align_t)) {
   assert(offset == (size + pad_size) - space);
   new (static_cast<std::byte*>(new_buffer) - sizeof(internal::p_malloc_header))
       internal::p_malloc_header{log2_up(size + pad_size), offset};
+  if (size + pad_size >= internal::p_malloc_store_size_threshold) {
+    new (static_cast<std::byte*>(new_buffer) - sizeof(internal::p_malloc_header) - sizeof(size_t)) size_t{size + pad_size};
+  }
   return static_cast<void*>(new_buffer);
 }
 
@@ -135,7 +144,11 @@ inline void p_free(void* ptr) {
     std::abort();
   }
   auto buffer = static_cast<void*>(static_cast<std::byte*>(ptr) - h.offset);
-  internal::get_default_allocator().deallocate(buffer, size_t{1} << size_t(h.log_size));
+  size_t size = size_t{1} << size_t(h.log_size);
+  if (size > internal::p_malloc_store_size_threshold) {
+    size = *from_bytes<size_t>(static_cast<std::byte*>(ptr) - sizeof(internal::p_malloc_header) - sizeof(size_t));
+  }
+  internal::get_default_allocator().deallocate(buffer, size);
 }
 
 #if defined(__GNUC__) && !defined(__clang__)
diff --git a/include/parlay/internal/pool_allocator.h b/include/parlay/internal/pool_allocator.h
index 2b8c2ac..75a9359 100644
--- a/include/parlay/internal/pool_allocator.h
+++ b/include/parlay/internal/pool_allocator.h
@@ -62,14 +62,18 @@ struct pool_allocator {
 
     size_t bucket = num_small;
     size_t alloc_size;
-    large_used += n;
 
     if (n <= max_size) {
       while (n > sizes[bucket]) bucket++;
+      n = sizes[bucket];        // blocks from a bucket always count with the full size of the block
+      large_used += n;
       std::optional<void*> r = large_buckets[bucket-num_small].pop();
       if (r) return *r;
       alloc_size = sizes[bucket];
-    } else alloc_size = n;
+    } else {
+      alloc_size = n;
+      large_used += n;
+    }
 
     // Alloc size must be a multiple of the alignment
     // Round up to the next multiple.
@@ -84,13 +88,14 @@ struct pool_allocator {
   }
 
   void deallocate_large(void* ptr, size_t n) {
-    large_used -= n;
     if (n > max_size) {
       ::operator delete(ptr, std::align_val_t{max_alignment});
+      large_used -= n;
       large_allocated -= n;
     } else {
       size_t bucket = num_small;
       while (n > sizes[bucket]) bucket++;
+      large_used -= sizes[bucket];
       large_buckets[bucket-num_small].push(ptr);
     }
   }
-- 
2.43.0


From 5cb640555b0135634ed4ae9da61e9330a0bd3f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:06 +0000
Subject: [PATCH 22/42] fix: data race between popping and retiring a node of
 hazptr_stack

---
 .../parlay/internal/concurrency/hazptr_stack.h  | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/parlay/internal/concurrency/hazptr_stack.h b/include/parlay/internal/concurrency/hazptr_stack.h
index 3799748..fd4d82e 100644
--- a/include/parlay/internal/concurrency/hazptr_stack.h
+++ b/include/parlay/internal/concurrency/hazptr_stack.h
@@ -25,17 +25,17 @@ class hazptr_stack {
 
   struct Node {
     T t;
-    Node* next;
+    std::atomic<Node*> next;  // atomic since a slow pop can read it while the node is being retired
     size_t length;
 
     // Allow the intrusive garbage collector to use the node's own next pointer
     // instead of having to allocate its own memory to store the retired nodes
     friend Node* intrusive_get_next(Node* node) {
-      return node->next;
+      return node->next.load(std::memory_order_relaxed);
     }
 
     friend void intrusive_set_next(Node* node, Node* next_) {
-      node->next = next_;
+      node->next.store(next_, std::memory_order_relaxed);
     }
 
     explicit Node(T t_) noexcept(std::is_nothrow_move_constructible_v<T>)
@@ -57,11 +57,12 @@ class hazptr_stack {
   // This operation is safe to perform concurrently with other operations
   void push(T t) {
     auto p = new Node(std::move(t));
+    Node* h;
     do {
-      auto h = hazptr_instance().acquire(head);
-      p->next = h;
+      h = hazptr_instance().acquire(head);
+      p->next.store(h, std::memory_order_relaxed);
       p->length = h ? h->length + 1 : 1;
-    } while (!head.compare_exchange_weak(p->next, p));
+    } while (!head.compare_exchange_weak(h, p));
     hazptr_instance().release();
   }
 
@@ -74,7 +75,7 @@ class hazptr_stack {
     do {
       p = hazptr_instance().acquire(head);
       if (p == nullptr) return {};
-    } while (!head.compare_exchange_weak(p, p->next));
+    } while (!head.compare_exchange_weak(p, p->next.load(std::memory_order_relaxed)));
     auto val = std::make_optional(std::move(p->t));
     hazptr_instance().retire(p);
     hazptr_instance().release();
@@ -102,7 +103,7 @@ class hazptr_stack {
     Node* prev = nullptr;
     while (p) {
       prev = p;
-      p = p->next;
+      p = p->next.load(std::memory_order_relaxed);
       delete prev;
     }
   }
-- 
2.43.0


From 7d94c41ade4a62f956756a284c350a4a0e0ca008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:06 +0000
Subject: [PATCH 23/42] fix: data race between relinquishing and acquiring a
 thread id

---
 include/parlay/internal/thread_id_pool.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parlay/internal/thread_id_pool.h b/include/parlay/internal/thread_id_pool.h
index 5d86196..7e450b5 100644
--- a/include/parlay/internal/thread_id_pool.h
+++ b/include/parlay/internal/thread_id_pool.h
@@ -106,9 +106,9 @@ class ThreadIdPool : public std::enable_shared_from_this<ThreadIdPool> {
       static std::mutex m_;
       std::lock_guard<std::mutex> g_{m_};
 
-      ThreadId* current = available_ids.load(std::memory_order_relaxed);
+      ThreadId* current = available_ids.load(std::memory_order_acquire);
       while (current && !available_ids.compare_exchange_weak(current, current->next,
-               std::memory_order_acquire, std::memory_order_relaxed)) {}
+               std::memory_order_acquire, std::memory_order_acquire)) {}
       if (current) { return current; }
     }
     return new ThreadId(num_thread_ids.fetch_add(1));
-- 
2.43.0


From 742235745c698931a48cbe38794bb393ac39ffc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:47 +0000
Subject: [PATCH 24/42] fix: block_allocator never returned blocks to the
 global pool when its lists hold one block

---
 include/parlay/internal/block_allocator.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/parlay/internal/block_allocator.h b/include/parlay/internal/block_allocator.h
index eedbb57..a938072 100644
--- a/include/parlay/internal/block_allocator.h
+++ b/include/parlay/internal/block_allocator.h
@@ -184,7 +184,9 @@ struct block_allocator {
 
     if (my_local_list->sz == list_length+1) {
       my_local_list->mid = my_local_list->head;
-    } else if (my_local_list->sz == 2*list_length) {
+    }
+    // Not an else branch, since the two sizes coincide if list_length == 1
+    if (my_local_list->sz == 2*list_length) {
       global_stack.push(my_local_list->mid->next);
       my_local_list->mid->next = nullptr;
       my_local_list->sz = list_length;
-- 
2.43.0


From 8f0a5539012ec18dba8563881edffd4d2d66e822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:47 +0000
Subject: [PATCH 25/42] fix: allocating an empty array of an
 over-16-byte-aligned type gave a misaligned pointer

---
 include/parlay/alloc.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/parlay/alloc.h b/include/parlay/alloc.h
index 0ce3f9d..a08648f 100644
--- a/include/parlay/alloc.h
+++ b/include/parlay/alloc.h
@@ -177,7 +177,7 @@ struct allocator {
     }
     else {
       // Should be suitably aligned for alignments up to pool_allocator::max_alignment
-      void* buffer = internal::get_default_allocator().allocate(n * sizeof(T));
+      void* buffer = internal::get_default_allocator().allocate(buffer_size(n));
       assert(reinterpret_cast<uintptr_t>(buffer) % alignof(T) == 0);
       return static_cast<T*>(buffer);
     }
@@ -188,12 +188,17 @@ struct allocator {
       p_free(static_cast<void*>(ptr));
     }
     else {
-      internal::get_default_allocator().deallocate(static_cast<void*>(ptr), n * sizeof(T));
+      internal::get_default_allocator().deallocate(static_cast<void*>(ptr), buffer_size(n));
     }
   }
 
   constexpr allocator() { internal::get_default_allocator(); }
   template <class U> /* implicit */ constexpr allocator(const allocator<U>&) noexcept { }
+
+ private:
+
+  // At least alignof(T), so that an empty array also gets a suitably aligned buffer
+  static constexpr size_t buffer_size(size_t n) { return n == 0 ? alignof(T) : n * sizeof(T); }
 };
 
 // Allocator should be trivially copyable since it is stateless and has no user-provided copy
-- 
2.43.0


From c7983eece013e253640fc962611e7a17073d613c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:58 +0000
Subject: [PATCH 26/42] fix: inserting zero copies at the front of a full
 sequence returned a dangling iterator

---
 include/parlay/sequence.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/parlay/sequence.h b/include/parlay/sequence.h
index ca1c7df..26e54e4 100644
--- a/include/parlay/sequence.h
+++ b/include/parlay/sequence.h
@@ -662,13 +662,10 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
     storage.ensure_capacity(size() + n);
     p = begin() + pos;
 
-    // Note that "it" is guaranteed to remain valid even after the call to
-    // append since we ensured that there was sufficient capacity already,
-    // so a second reallocation will never happen after this point
     auto the_tail = pop_tail(p);
-    auto it = append_n(n, v);
+    append_n(n, v);
     append(std::move(the_tail));
-    return it;
+    return begin() + pos;   // appending the tail to an empty sequence may take over its buffer
   }
 
   template<typename Iterator_>
-- 
2.43.0


From bec6229f64c7d31008fea1ae88668a4fe8bc68e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:11 +0000
Subject: [PATCH 27/42] fix: erasing a range from a sequence required a
 copyable, default constructible type

---
 include/parlay/sequence.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/parlay/sequence.h b/include/parlay/sequence.h
index 26e54e4..8eeebbe 100644
--- a/include/parlay/sequence.h
+++ b/include/parlay/sequence.h
@@ -358,7 +358,7 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
   iterator erase(iterator q1, iterator q2) {
     auto pos = q1 - begin();
     auto the_tail = pop_tail(q2);
-    resize(size() - (q2 - q1));
+    truncate(pos);
     append(std::move(the_tail));
     return begin() + pos;
   }
@@ -381,10 +381,7 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
   void resize(size_t new_size, const value_type& v = value_type()) {
     auto current = size();
     if (new_size < current) {
-      if constexpr (!std::is_trivially_destructible_v<value_type>) {
-        auto buffer = storage.data();
-        parallel_for(new_size, current, [&](size_t i) { storage.destroy(&buffer[i]); });
-      }
+      truncate(new_size);
     } else {
       if (new_size > capacity()) {
         // v might be an element of this sequence, which reallocation would invalidate
@@ -605,6 +602,15 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
     }
   }
 
+  // Destroy all elements except the first new_size
+  void truncate(size_t new_size) {
+    if constexpr (!std::is_trivially_destructible_v<value_type>) {
+      auto buffer = storage.data();
+      parallel_for(new_size, size(), [&](size_t i) { storage.destroy(&buffer[i]); });
+    }
+    storage.set_size(new_size);
+  }
+
   iterator append_n(size_t n, const value_type& t) {
     if (size() + n > capacity()) {
       // t might be an element of this sequence, which reallocation would invalidate
-- 
2.43.0


From 954b9ebbed2ba1204f061708689ce8d5cdad40ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:33 +0000
Subject: [PATCH 28/42] fix: counting_sort_by_keys did not compile

---
 include/parlay/primitives.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parlay/primitives.h b/include/parlay/primitives.h
index f81e459..14acb2f 100644
--- a/include/parlay/primitives.h
+++ b/include/parlay/primitives.h
@@ -488,8 +488,8 @@ template<typename Range>
 [[nodiscard]] auto counting_sort_by_keys(Range&& in, size_t num_buckets) {
   static_assert(is_random_access_range_v<Range>);
   static_assert(is_pair_v<range_reference_type_t<Range>>);
-  static_assert(std::is_integral_v<std::tuple_element_t<0, range_reference_type_t<Range>>>);
-  static_assert(std::is_unsigned_v<std::tuple_element_t<0, range_reference_type_t<Range>>>);
+  static_assert(std::is_integral_v<std::tuple_element_t<0, range_value_type_t<Range>>>);
+  static_assert(std::is_unsigned_v<std::tuple_element_t<0, range_value_type_t<Range>>>);
   auto values = delayed::values_view(in);
   return internal::count_sort(make_slice(values), delayed::keys_view(in), num_buckets);
 }
-- 
2.43.0


From db160a6f2949b2f50df2a083cd1c5b8d0bb5e0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:40 +0000
Subject: [PATCH 29/42] fix: in-place integer sort destroyed elements that are
 not trivially relocatable

---
 include/parlay/internal/integer_sort.h | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/parlay/internal/integer_sort.h b/include/parlay/internal/integer_sort.h
index f2fd452..1a0b4bb 100644
--- a/include/parlay/internal/integer_sort.h
+++ b/include/parlay/internal/integer_sort.h
@@ -104,13 +104,9 @@ void seq_radix_sort(slice<InIterator, InIterator> In,
     bool odd = ((key_bits - 1) / radix) & 1;
     size_t n = In.size();
     if (odd) {
-      // We could just use assign_dispatch(Tmp[i], In[i]) for each i, but we
-      // can optimize better by calling uninitialized_relocate, since this
-      // has the ability to memcpy multiple elements at once
-      if constexpr (std::is_same_v<assignment_tag, uninitialized_relocate_tag>) {
-        parlay::uninitialized_relocate(In.begin(), In.end(), Tmp.begin());
-      }
-      else {
+      // If the elements are to be relocated, Tmp points to the same range as In,
+      // so they are already there
+      if constexpr (!std::is_same_v<assignment_tag, uninitialized_relocate_tag>) {
         for (size_t i = 0; i < n; i++)
           assign_uninitialized(Tmp[i], In[i]);
       }
-- 
2.43.0


From 87b8582c83981b5550fdad91f046247eca3c9b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:40 +0000
Subject: [PATCH 30/42] fix: find_first_of passed its predicate's arguments in
 the wrong order

---
 include/parlay/primitives.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/primitives.h b/include/parlay/primitives.h
index 14acb2f..d75bd35 100644
--- a/include/parlay/primitives.h
+++ b/include/parlay/primitives.h
@@ -614,7 +614,7 @@ auto find_first_of(R1&& r1, R2&& r2, BinaryPredicate&& p) {
   static_assert(is_random_access_range_v<R2>);
   static_assert(std::is_invocable_r_v<bool, BinaryPredicate, range_reference_type_t<R1>, range_reference_type_t<R2>>);
   return std::begin(r1) + internal::find_if_index(parlay::size(r1), [&, it = std::begin(r1)] (size_t i) {
-    return find_if(r2, [&, it](auto&& x) { return p(std::forward<decltype(x)>(x), it[i]); }) != std::end(r2);
+    return find_if(r2, [&, it](auto&& x) { return p(it[i], std::forward<decltype(x)>(x)); }) != std::end(r2);
   });
 }
 
-- 
2.43.0


From 3cac7dc3951343fe62e34533f4b827b40d6bc975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:45 +0000
Subject: [PATCH 31/42] fix: remove_duplicate_integers reported absent integers
 when it combined several blocks

---
 include/parlay/internal/group_by.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/internal/group_by.h b/include/parlay/internal/group_by.h
index 11620f9..0dbbb32 100644
--- a/include/parlay/internal/group_by.h
+++ b/include/parlay/internal/group_by.h
@@ -279,7 +279,7 @@ auto remove_duplicate_integers(R&& A, Integer_t max_value) {
     static key_type get_key(const key_type& a) { return a; }
     static val_type get_val(const key_type&) { return true; }
     static val_type init() { return false; }
-    static void update(val_type& d, val_type) { d = true; }
+    static void update(val_type& d, val_type a) { d = d || a; }
     static void combine(val_type& d, slice<key_type*,key_type*>) {
       d = true; }
   };
-- 
2.43.0


From 61c0ef5c9272cb16ae8c8ad9b0e5474d61dbba29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:38 +0000
Subject: [PATCH 32/42] fix: group_by_index of nothing into no buckets took the
 logarithm of zero

---
 include/parlay/internal/group_by.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/parlay/internal/group_by.h b/include/parlay/internal/group_by.h
index 0dbbb32..13bed35 100644
--- a/include/parlay/internal/group_by.h
+++ b/include/parlay/internal/group_by.h
@@ -330,6 +330,7 @@ auto group_by_index(R&& A, Integer_t num_buckets) {
     return internal::group_by_small_int(make_slice(vals), make_slice(keys), num_buckets);
   }
   else {
+    if (num_buckets == 0) return sequence<sequence<V>>();
     size_t bits = log2_up(num_buckets);
     auto sorted = internal::integer_sort(make_slice(A), internal::get_key, bits);
 
-- 
2.43.0


From 88b79a5ba974f4671a4b32c26d46855dd122916f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:05 +0000
Subject: [PATCH 33/42] fix: a value-initialised iterator of a delayed zip had
 an indeterminate position

---
 include/parlay/internal/delayed/zip.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/internal/delayed/zip.h b/include/parlay/internal/delayed/zip.h
index cf2fc62..4321d7d 100644
--- a/include/parlay/internal/delayed/zip.h
+++ b/include/parlay/internal/delayed/zip.h
@@ -75,7 +75,7 @@ struct block_delayed_zip_t : public block_iterable_view_base<void, block_delayed
     // Conversion from non-const iterator to const iterator
     /* implicit */ iterator_t(const iterator_t<false>& other) : index(other.index), its(other.its) {}
 
-    iterator_t() : its{} {}
+    iterator_t() : index(0), its{} {}
 
    private:
     friend parent_type;
-- 
2.43.0


From 3c3fe22417c2982954a968ce9fe2d50a16407ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:31 +0000
Subject: [PATCH 34/42] fix: hashtable::count and get_index did not compile

---
 include/parlay/hash_table.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parlay/hash_table.h b/include/parlay/hash_table.h
index 9452bf4..e0088da 100644
--- a/include/parlay/hash_table.h
+++ b/include/parlay/hash_table.h
@@ -226,7 +226,7 @@ class hashtable {
   // returns the number of entries
   size_t count() {
     auto is_full = [&](size_t i) -> size_t { return (TA[i] == empty) ? 0 : 1; };
-    return internal::reduce(delayed_seq<size_t>(m, is_full), addm<size_t>());
+    return internal::reduce(delayed_seq<size_t>(m, is_full), plus<size_t>());
   }
 
   // returns all the current entries compacted into a sequence
@@ -260,7 +260,7 @@ class hashtable {
         return 0;
     };
     auto x = sequence<index>::from_function(m, is_full);
-    internal::scan_inplace(make_slice(x), addm<index>());
+    internal::scan_inplace(make_slice(x), plus<index>());
     return x;
   }
 
-- 
2.43.0


From 52cac0d1206c2869dbc7f84a146bb54298720f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:44 +0000
Subject: [PATCH 35/42] fix: self-assignment of a delayed range destroyed its
 function object

---
 include/parlay/utilities.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parlay/utilities.h b/include/parlay/utilities.h
index 319d1b4..e9eee16 100644
--- a/include/parlay/utilities.h
+++ b/include/parlay/utilities.h
@@ -303,7 +303,7 @@ struct copyable_function_wrapper {
     if constexpr (std::is_copy_assignable_v<F>) {
       f = other.f;
     }
-    else {
+    else if (this != std::addressof(other)) {
       f.~F();
       new (std::addressof(f)) F(other.f);
     }
@@ -315,7 +315,7 @@ struct copyable_function_wrapper {
     if constexpr (std::is_move_assignable_v<F>) {
       f = std::move(other.f);
     }
-    else {
+    else if (this != std::addressof(other)) {
       f.~F();
       new (std::addressof(f)) F(std::move(other.f));
     }
-- 
2.43.0


From ed4660e442c11f1b46f563a96ecb172112c91176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:07 +0000
Subject: [PATCH 36/42] fix: hashtable deletion lost elements of clusters
 longer than half of the table

---
 include/parlay/hash_table.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/parlay/hash_table.h b/include/parlay/hash_table.h
index e0088da..e69e44b 100644
--- a/include/parlay/hash_table.h
+++ b/include/parlay/hash_table.h
@@ -54,10 +54,13 @@ class hashtable {
   index firstIndex(kType v) { return hashToRange(hashStruct.hash(v)); }
   index incrementIndex(index h) { return (h + 1 == m) ? 0 : h + 1; }
   index decrementIndex(index h) { return (h == 0) ? m - 1 : h - 1; }
-  bool lessIndex(index a, index b) {
-    return (a < b) ? (2 * (b - a) < m) : (2 * (a - b) > m);
+  // number of steps from index a forward to index b
+  index distance(index a, index b) { return (a <= b) ? b - a : b + m - a; }
+  // true if the element v, stored at index jj, may not be moved back to index j
+  // because the search for it starts after j
+  bool startsAfter(index j, index jj, eType v) {
+    return distance(firstIndex(hashStruct.getKey(v)), jj) < distance(j, jj);
   }
-  bool lessEqIndex(index a, index b) { return a == b || lessIndex(a, b); }
 
  public:
   // Size is the maximum number of values the hash table will hold.
@@ -169,14 +172,14 @@ class hashtable {
         // during a delete phase as elements are moved from the right to left.
         index jj = incrementIndex(j);
         eType x = TA[jj];
-        while (x != empty && lessIndex(j, firstIndex(hashStruct.getKey(x)))) {
+        while (x != empty && startsAfter(j, jj, x)) {
           jj = incrementIndex(jj);
           x = TA[jj];
         }
         index jjj = decrementIndex(jj);
         while (jjj != j) {
           eType y = TA[jjj];
-          if (y == empty || !lessIndex(j, firstIndex(hashStruct.getKey(y)))) {
+          if (y == empty || !startsAfter(j, jjj, y)) {
             x = y;
             jj = jjj;
           }
-- 
2.43.0


From d91919fbc784adcaf349c74dd3237c5a518bd564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:22 +0000
Subject: [PATCH 37/42] fix: hashtable read slots non-atomically while other
 threads updated them

---
 include/parlay/hash_table.h | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/include/parlay/hash_table.h b/include/parlay/hash_table.h
index e69e44b..e3d049d 100644
--- a/include/parlay/hash_table.h
+++ b/include/parlay/hash_table.h
@@ -6,6 +6,7 @@
 
 #include <atomic>
 #include <iostream>
+#include <type_traits>
 
 #include "delayed_sequence.h"
 #include "parallel.h"
@@ -54,6 +55,16 @@ class hashtable {
   index firstIndex(kType v) { return hashToRange(hashStruct.hash(v)); }
   index incrementIndex(index h) { return (h + 1 == m) ? 0 : h + 1; }
   index decrementIndex(index h) { return (h == 0) ? m - 1 : h - 1; }
+  // read a slot that others may be updating with cas
+  eType read(index i) {
+    if constexpr (std::is_trivially_copyable_v<eType>) {
+      using slot = std::atomic<eType>;
+      if constexpr (slot::is_always_lock_free && sizeof(slot) == sizeof(eType) && alignof(slot) == alignof(eType)) {
+        return reinterpret_cast<slot*>(&TA[i])->load(std::memory_order_acquire);
+      }
+    }
+    return TA[i];
+  }
   // number of steps from index a forward to index b
   index distance(index a, index b) { return (a <= b) ? b - a : b + m - a; }
   // true if the element v, stored at index jj, may not be moved back to index j
@@ -81,7 +92,7 @@ class hashtable {
   bool insert(eType v) {
     index i = firstIndex(hashStruct.getKey(v));
     while (true) {
-      eType c = TA[i];
+      eType c = read(i);
       if (c == empty) {
         if (hashStruct.cas(&TA[i], c, v)) return true;
       } else {
@@ -108,7 +119,7 @@ class hashtable {
   bool update(eType v) {
     index i = firstIndex(hashStruct.getKey(v));
     while (true) {
-      eType c = TA[i];
+      eType c = read(i);
       if (c == empty) {
         if (hashStruct.cas(&TA[i], c, v)) return true;
       } else {
@@ -136,7 +147,7 @@ class hashtable {
 
     // find first element less than or equal to v in priority order
     index j = i;
-    eType c = TA[j];
+    eType c = read(j);
 
     if (c == empty) return true;
 
@@ -144,7 +155,7 @@ class hashtable {
     while ((cmp = (c == empty) ? 1 : hashStruct.cmp(v, hashStruct.getKey(c))) <
            0) {
       j = incrementIndex(j);
-      c = TA[j];
+      c = read(j);
     }
     while (true) {
       // Invariants:
@@ -160,7 +171,7 @@ class hashtable {
         // moving before h(v)
         if (j == i) return true;
         j = decrementIndex(j);
-        c = TA[j];
+        c = read(j);
         cmp = (c == empty) ? 1 : hashStruct.cmp(v, hashStruct.getKey(c));
       } else {  // found v at location j (at least at some prior time)
 
@@ -171,14 +182,14 @@ class hashtable {
         // Makes use of the fact that values in a cell can only decrease
         // during a delete phase as elements are moved from the right to left.
         index jj = incrementIndex(j);
-        eType x = TA[jj];
+        eType x = read(jj);
         while (x != empty && startsAfter(j, jj, x)) {
           jj = incrementIndex(jj);
-          x = TA[jj];
+          x = read(jj);
         }
         index jjj = decrementIndex(jj);
         while (jjj != j) {
-          eType y = TA[jjj];
+          eType y = read(jjj);
           if (y == empty || !startsAfter(j, jjj, y)) {
             x = y;
             jj = jjj;
@@ -200,7 +211,7 @@ class hashtable {
           j = jj;
           i = firstIndex(v);
         }
-        c = TA[j];
+        c = read(j);
         cmp = (c == empty) ? 1 : hashStruct.cmp(v, hashStruct.getKey(c));
       }
     }
-- 
2.43.0


From 51f72d1835eed38acf22491670e12306026f3c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 38/42] fix: begin and end of an empty unique_array
 dereferenced a null pointer

---
 include/parlay/utilities.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/parlay/utilities.h b/include/parlay/utilities.h
index e9eee16..be6cce1 100644
--- a/include/parlay/utilities.h
+++ b/include/parlay/utilities.h
@@ -446,22 +446,22 @@ std::size_t size(const unique_array<T>& arr) {
 
 template<typename T>
 T* begin(unique_array<T>& arr) {
-  return &arr[0];
+  return arr.get();
 }
 
 template<typename T>
 T* end(unique_array<T>& arr) {
-  return &arr[0] + size(arr);
+  return arr.get() + size(arr);
 }
 
 template<typename T>
 T const* begin(const unique_array<T>& arr) {
-  return &arr[0];
+  return arr.get();
 }
 
 template<typename T>
 T const* end(const unique_array<T>& arr) {
-  return &arr[0] + size(arr);
+  return arr.get() + size(arr);
 }
 
 // Creates a unique_ptr<T[], *custom_deleter*> consisting of n objects of
-- 
2.43.0


From 95fb16dfd69d8802f79179596e6de9d90d1202ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:31 +0000
Subject: [PATCH 39/42] fix: relocating into a different type constructed an
 object of the source type in place

---
 include/parlay/relocation.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parlay/relocation.h b/include/parlay/relocation.h
index dfd72d1..0fabe8f 100644
--- a/include/parlay/relocation.h
+++ b/include/parlay/relocation.h
@@ -54,7 +54,7 @@ namespace parlay {
 // Relocate from source to dest, which may be of different
 // (but compatible) types, which is equivalent to
 //
-//   ::new (voidify(dest)) T(std::move(source));
+//   ::new (voidify(dest)) U(std::move(source));
 //   std::destroy_at(std::addressof(source));
 //
 template<typename T, typename U>
@@ -67,7 +67,7 @@ inline void relocate_or_move_and_destroy(T& source, U& dest) {
   }
   else {
     PARLAY_ASSERT_UNINITIALIZED(dest);
-    ::new (voidify(dest)) T(std::move(source));
+    ::new (voidify(dest)) U(std::move(source));
     std::destroy_at(std::addressof(source));
     PARLAY_ASSERT_UNINITIALIZED(source);
   }
-- 
2.43.0


From bb5ce91db273ce91332af2254bdc1c2ae8a12d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:39 +0000
Subject: [PATCH 40/42] fix: blocked_for lost its range when start + block_size
 exceeds the largest index

---
 include/parlay/parallel.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parlay/parallel.h b/include/parlay/parallel.h
index 5f32807..1e24813 100644
--- a/include/parlay/parallel.h
+++ b/include/parlay/parallel.h
@@ -66,10 +66,10 @@ inline void blocked_for(size_t start, size_t end, size_t block_size, F&& f, bool
   static_assert(std::is_invocable_v<F&, size_t, size_t, size_t>);
   assert(block_size > 0);
   if (start < end) {
-    size_t n_blocks = (end - start + block_size - 1) / block_size;
+    size_t n_blocks = 1 + (end - start - 1) / block_size;
     parallel_for(0, n_blocks, [&](size_t i) {
       size_t s = start + i * block_size;
-      size_t e = (std::min)(s + block_size, end);
+      size_t e = s + (std::min)(block_size, end - s);
       f(i, s, e);
     }, 0, conservative);
   }
-- 
2.43.0


From 98a2317a47650367175454da041a4d42f8d72219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:40 +0000
Subject: [PATCH 41/42] fix: an iterator into an unused part of a
 ThreadSpecific dereferenced a null chunk

---
 include/parlay/thread_specific.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/thread_specific.h b/include/parlay/thread_specific.h
index 0215b12..5d9d36e 100644
--- a/include/parlay/thread_specific.h
+++ b/include/parlay/thread_specific.h
@@ -251,7 +251,7 @@ class ThreadSpecific {
     /* implicit */ iterator_t(const iterator_t<false>& other)  // cppcheck-suppress noExplicitConstructor    // NOLINT
         : chunk_id(other.chunk_id), position(other.position), parent(other.parent) { }
 
-    reference operator*() const { return parent->get_by_index_nocheck(chunk_id, position); }
+    reference operator*() const { return parent->get_by_index(chunk_id, position); }
 
     reference operator[](std::size_t p) const {
       auto tmp = *this;
-- 
2.43.0


From 9b7916201e819c9a677ab6a602d4405ed20ca966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:27 +0000
Subject: [PATCH 42/42] fix: a sequence with an allocator that has construct
 could not grow

---
 include/parlay/internal/sequence_base.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parlay/internal/sequence_base.h b/include/parlay/internal/sequence_base.h
index 95e6070..149ba9e 100644
--- a/include/parlay/internal/sequence_base.h
+++ b/include/parlay/internal/sequence_base.h
@@ -577,8 +577,8 @@ struct alignas(uint64_t) sequence_base {
         }
         else {
           parallel_for(0, n, [&](size_t i){
-            std::allocator_traits<T_allocator_type>::construct(alloc, std::addressof(dest_buffer[i]), std::move(current_buffer[i]));
-            std::allocator_traits<T_allocator_type>::destroy(alloc, std::addressof(current_buffer[i]));
+            std::allocator_traits<T_allocator_type>::construct(*this, std::addressof(dest_buffer[i]), std::move(current_buffer[i]));
+            std::allocator_traits<T_allocator_type>::destroy(*this, std::addressof(current_buffer[i]));
           });
         }
 
-- 
2.43.0

