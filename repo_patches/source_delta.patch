From f3858b5bbbbfed64c00139d1137267f4f5c8e472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 01/19] fix: LimitedVector destroys every element exactly once
 and supports arguments that alias its elements

erase() destroyed elements and then move-assigned into them (heap-use-after-free
with std::string), emplace() move-assigned into the uninitialized end slot,
insert() constructed over live elements, and moves and swap() never destroyed the
moved-from elements. Self move assignment dropped all elements. The arguments of
emplace() and insert() were read after the elements they may refer to had moved.
---
 mbo/container/limited_vector.h | 90 +++++++++++++++++++++-------------
 1 file changed, 55 insertions(+), 35 deletions(-)

diff --git a/mbo/container/limited_vector.h b/mbo/container/limited_vector.h
index 5efcb89..706b3d5 100644
--- a/mbo/container/limited_vector.h
+++ b/mbo/container/limited_vector.h
@@ -157,16 +157,18 @@ class LimitedVector final {
       std::construct_at(
           const_cast<std::remove_const_t<T>*>(&values_[size_].data), std::move(other.values_[size_].data));
     }
-    other.size_ = 0;
+    other.clear();
   }
 
   constexpr LimitedVector& operator=(LimitedVector&& other) noexcept {
-    clear();
-    for (; size_ < other.size_; ++size_) {
-      std::construct_at(
-          const_cast<std::remove_const_t<T>*>(&values_[size_].data), std::move(other.values_[size_].data));
+    if (this != &other) {
+      clear();
+      for (; size_ < other.size_; ++size_) {
+        std::construct_at(
+            const_cast<std::remove_const_t<T>*>(&values_[size_].data), std::move(other.values_[size_].data));
+      }
+      other.clear();
     }
-    other.size_ = 0;
     return *this;
   }
 
@@ -228,7 +230,7 @@ class LimitedVector final {
     for (; size_ < other.size(); ++size_) {
       std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[size_].data), std::move(other.at(size_)));
     }
-    other.size_ = 0;
+    other.clear();
   }
 
   template<types::ConstructibleInto<T> U, auto OtherN>
@@ -240,7 +242,7 @@ class LimitedVector final {
     for (; size_ < other.size(); ++size_) {
       std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[size_].data), std::move(other.at(size_)));
     }
-    other.size_ = 0;
+    other.clear();
     return *this;
   }
 
@@ -278,39 +280,39 @@ class LimitedVector final {
     }
     const std::size_t other_size = other.size_;
     const std::size_t this_size = size_;
-    for (; pos < size_; ++pos) {
+    for (; pos < this_size; ++pos) {
       other.emplace_back(std::move(values_[pos].data));
     }
-    for (; pos < other.size(); ++pos) {
+    for (; pos < other_size; ++pos) {
       emplace_back(std::move(other.at(pos)));
     }
-    size_ = other_size;
-    other.size_ = this_size;
+    // The moved-from elements are still alive and must be destroyed.
+    while (size_ > other_size) {
+      pop_back();
+    }
+    while (other.size_ > this_size) {
+      other.pop_back();
+    }
   }
 
   template<typename... Args>
   constexpr iterator emplace(const_iterator pos, Args&&... args) noexcept(!kRequireThrows) {
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `emplace` at capacity.");
     MBO_CONFIG_REQUIRE(&values_[0].data <= pos && pos <= &values_[size_].data, "Invalid `pos`.");
-    iterator dst = end();
-    for (; dst > pos; --dst) {
-      *dst = std::move(*std::prev(dst));
-    }
-    std::construct_at(const_cast<std::remove_const_t<T>*>(dst), std::forward<Args>(args)...);
-    ++size_;
+    // Must be constructed first: `args` may refer to an element of this vector.
+    auto value = std::remove_const_t<T>(std::forward<Args>(args)...);
+    const auto dst = const_cast<iterator>(pos);  // NOLINT(cppcoreguidelines-pro-type-const-cast)
+    move_backward(dst, 1);
+    std::construct_at(const_cast<std::remove_const_t<T>*>(dst), std::move(value));
     return dst;
   }
 
   constexpr iterator erase(const_iterator pos) noexcept(!kRequireThrows) {
     // NOLINTBEGIN(cppcoreguidelines-pro-type-const-cast)
     MBO_CONFIG_REQUIRE(&values_[0].data <= pos && pos < &values_[size_].data, "Invalid `pos`.");
-    auto dst = const_cast<iterator>(pos);
-    --size_;
-    std::destroy_at(dst);
-    for (; dst < end(); ++dst) {
-      *dst = std::move(*std::next(dst));
-    }
-    return pos > end() ? end() : const_cast<iterator>(pos);
+    const auto dst = const_cast<iterator>(pos);
+    move_forward(dst, 1);
+    return dst;
     // NOLINTEND(cppcoreguidelines-pro-type-const-cast)
   }
 
@@ -320,16 +322,11 @@ class LimitedVector final {
         &values_[0].data <= first && first <= last && last <= &values_[size_].data, "Invalid `first` or `last`.");
     std::size_t deleted = 0;
     for (const_iterator it = first; it < last; ++it) {
-      std::destroy_at(it);
       ++deleted;
     }
-    auto dst = const_cast<iterator>(first);
-    auto src = const_cast<iterator>(last);
-    for (; src < end(); ++src, ++dst) {
-      *dst = std::move(*src);
-    }
-    size_ -= deleted;
-    return const_cast<iterator>(first);
+    const auto dst = const_cast<iterator>(first);
+    move_forward(dst, deleted);
+    return dst;
     // NOLINTEND(cppcoreguidelines-pro-type-const-cast)
   }
 
@@ -391,8 +388,10 @@ class LimitedVector final {
     // Clang does not like `std::distance`. The issue is that the iterators point into the union.
     // That makes them technically not point into an array AND that is indeed not allowed by C++.
     const auto dst = const_cast<iterator>(pos);  // NOLINT(cppcoreguidelines-pro-type-const-cast)
+    // Must be constructed first: `value` may refer to an element of this vector.
+    auto new_value = std::remove_const_t<T>(std::forward<U>(value));
     move_backward(dst, 1);
-    std::construct_at(const_cast<std::remove_const_t<T>*>(&*dst), std::forward<U>(value));
+    std::construct_at(const_cast<std::remove_const_t<T>*>(&*dst), std::move(new_value));
     return dst;
   }
 
@@ -403,9 +402,10 @@ class LimitedVector final {
     if (count == 0) {
       return dst;
     }
+    const T new_value(value);  // Must be copied first: `value` may refer to an element of this vector.
     std::size_t index = move_backward(dst, count);
     while (count > 0) {
-      std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[index].data), value);
+      std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[index].data), new_value);
       ++index;
       --count;
     }
@@ -505,16 +505,36 @@ class LimitedVector final {
   constexpr const_pointer data() const noexcept { return &values_[0].data; }
 
  private:
+  // Makes room for `count` elements at `dst`. The resulting gap is uninitialized.
   constexpr std::size_t move_backward(iterator dst, std::size_t count) {
     std::size_t pos = size_;
     while (dst < &values_[pos].data) {
       --pos;
       std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[pos + count].data), std::move(values_[pos].data));
+      std::destroy_at(&values_[pos].data);
     }
     size_ += count;
     return pos;
   }
 
+  // Removes `count` elements at `dst`.
+  constexpr void move_forward(iterator dst, std::size_t count) {
+    if (count == 0) {
+      return;
+    }
+    std::size_t pos = size_;
+    while (dst < &values_[pos].data) {
+      --pos;
+    }
+    for (; pos + count < size_; ++pos) {
+      std::destroy_at(&values_[pos].data);
+      std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[pos].data), std::move(values_[pos + count].data));
+    }
+    for (; count > 0; --count) {
+      pop_back();
+    }
+  }
+
   std::size_t size_{0};
   // Array would be better but that does not work with ASAN builds.
   // std::array<Data, Capacity == 0 ? 1 : Capacity> values_;
-- 
2.43.0


From cb4c7b75c0fad6980fa288a0a19c7dbc96bcab35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 02/19] fix: LimitedVector::insert of count copies no longer
 overflows its capacity check

---
 mbo/container/limited_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/container/limited_vector.h b/mbo/container/limited_vector.h
index 706b3d5..54fe39c 100644
--- a/mbo/container/limited_vector.h
+++ b/mbo/container/limited_vector.h
@@ -396,7 +396,7 @@ class LimitedVector final {
   }
 
   constexpr iterator insert(const_iterator pos, size_type count, const T& value) {
-    MBO_CONFIG_REQUIRE(size_ + count <= Capacity, "Called `insert` at capacity.");
+    MBO_CONFIG_REQUIRE(count <= Capacity - size_, "Called `insert` at capacity.");
     MBO_CONFIG_REQUIRE(begin() <= pos && pos <= end(), "Invalid `pos`.");
     const auto dst = const_cast<iterator>(pos);  // NOLINT(cppcoreguidelines-pro-type-const-cast)
     if (count == 0) {
-- 
2.43.0


From 5dd240bbad9c3d491a005221ed740961ee4793d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 03/19] fix: LimitedVector can be copy assigned (arrays are not
 assignable)

---
 mbo/container/limited_vector.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mbo/container/limited_vector.h b/mbo/container/limited_vector.h
index 54fe39c..71f45a9 100644
--- a/mbo/container/limited_vector.h
+++ b/mbo/container/limited_vector.h
@@ -146,8 +146,9 @@ class LimitedVector final {
   constexpr LimitedVector& operator=(const LimitedVector& other) noexcept {
     if (this != &other) {
       clear();
-      size_ = other.size_;
-      values_ = other.values_;
+      for (; size_ < other.size_; ++size_) {
+        std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[size_].data), other.values_[size_].data);
+      }
     }
     return *this;
   }
-- 
2.43.0


From dd3240cf16615b06cc7c87994521afcf10de26ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 04/19] fix: LimitedVector::assign and MakeLimitedVector no
 longer move from lvalue sources

---
 mbo/container/limited_vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbo/container/limited_vector.h b/mbo/container/limited_vector.h
index 71f45a9..b9953be 100644
--- a/mbo/container/limited_vector.h
+++ b/mbo/container/limited_vector.h
@@ -369,7 +369,7 @@ class LimitedVector final {
   constexpr void assign(It begin, It end) noexcept {
     clear();
     while (begin < end) {
-      emplace_back(std::forward<mbo::types::ForwardIteratorValueType<It>>(*begin++));
+      emplace_back(*begin++);
     }
   }
 
@@ -623,7 +623,7 @@ requires((types::NotInitializerList<Args> && !std::forward_iterator<Args> && !ty
 inline constexpr auto MakeLimitedVector(Args&&... args) noexcept {
   using T = std::common_type_t<Args...>;
   auto result = LimitedVector<T, sizeof...(Args)>();
-  (result.emplace_back(std::forward<T>(args)), ...);
+  (result.emplace_back(std::forward<Args>(args)), ...);
   return result;
 }
 
-- 
2.43.0


From 1191f43aff2a63592c9b473587214142fd0cfeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 05/19] fix: LimitedMap::try_emplace leaves an existing element
 unchanged

It assigned a new value, so operator[] reset the value of every key it found.
---
 mbo/container/internal/limited_ordered.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index 7c3b545..891a6d3 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -1031,7 +1031,6 @@ class [[nodiscard]] LimitedOrdered {
   constexpr std::pair<iterator, bool> try_emplace(const Key& key, Args&&... args) {
     const iterator dst = lower_bound(key);
     if (dst != end() && !key_comp_(dst->first, key) && !key_comp_(key, dst->first)) {
-      dst->second = Mapped(args...);
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `try_emplace` at capacity.");
@@ -1050,7 +1049,6 @@ class [[nodiscard]] LimitedOrdered {
   constexpr std::pair<iterator, bool> try_emplace(Key&& key, Args&&... args) {
     const iterator dst = lower_bound(key);
     if (dst != end() && !key_comp_(dst->first, key) && !key_comp_(key, dst->first)) {
-      dst->second = Mapped(args...);
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `try_emplace` at capacity.");
-- 
2.43.0


From d6ef68eae364a9611a4f9a707f734e21612c52e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 06/19] fix: LimitedSet and LimitedMap can be copy assigned
 (arrays are not assignable)

---
 mbo/container/internal/limited_ordered.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index 891a6d3..cf90931 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -426,8 +426,9 @@ class [[nodiscard]] LimitedOrdered {
   constexpr LimitedOrdered& operator=(const LimitedOrdered& other) noexcept {
     if (this != &other) {
       clear();
-      size_ = other.size_;
-      values_ = other.values_;
+      for (; size_ < other.size_; ++size_) {
+        std::construct_at(const_cast<RawValue*>(&values_[size_].data), other.values_[size_].data);
+      }
     }
     return *this;
   }
-- 
2.43.0


From e4220b847f1034799a7fc6b6166711762c175af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 07/19] fix: LimitedSet and LimitedMap erase(const_iterator),
 erase(first, last) and key_comp() can be instantiated

---
 mbo/container/internal/limited_ordered.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index cf90931..a06fcdf 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -920,27 +920,27 @@ class [[nodiscard]] LimitedOrdered {
   template<typename It>
   requires IsIterator<It>::value
   constexpr iterator erase(It pos) noexcept(!kRequireThrows) {
-    MBO_CONFIG_REQUIRE(begin() <= pos && pos < end(), "Invalid `pos`.");
     auto dst = to_iterator(pos);
+    MBO_CONFIG_REQUIRE(begin() <= dst && dst < end(), "Invalid `pos`.");
     --size_;
     std::destroy_at(&*dst);
     for (; dst < end(); ++dst) {
       std::construct_at(const_cast<RawValue*>(&*dst), std::move(*std::next(dst)));
     }
-    return pos > end() ? end() : to_iterator(pos);
+    return to_iterator(pos);
   }
 
   constexpr iterator erase(const_iterator first, const_iterator last) noexcept(!kRequireThrows) {
-    MBO_CONFIG_REQUIRE(begin() <= first && first <= last && last <= end(), "Invalid `first` or `last`.");
+    MBO_CONFIG_REQUIRE(cbegin() <= first && first <= last && last <= cend(), "Invalid `first` or `last`.");
     std::size_t deleted = 0;
     for (const_iterator it = first; it < last; ++it) {
-      std::destroy_at(it);
+      std::destroy_at(&*it);
       ++deleted;
     }
     auto dst = to_iterator(first);
     auto src = to_iterator(last);
     for (; src < end(); ++src, ++dst) {
-      *dst = std::move(*src);
+      std::construct_at(const_cast<RawValue*>(&*dst), std::move(*src));
     }
     size_ -= deleted;
     return to_iterator(first);
@@ -1145,14 +1145,14 @@ class [[nodiscard]] LimitedOrdered {
 
   // Observers
 
-  constexpr key_compare key_comp() const noexcept { return key_comp; }
+  constexpr key_compare key_comp() const noexcept { return key_comp_; }
 
   constexpr value_compare value_comp() const noexcept { return val_comp_; }
 
  protected:
-  static constexpr iterator to_iterator(iterator pos) noexcept { return pos; }
+  constexpr iterator to_iterator(iterator pos) noexcept { return pos; }
 
-  static constexpr iterator to_iterator(const const_iterator& pos) noexcept { return iterator(pos.pos); }
+  constexpr iterator to_iterator(const const_iterator& pos) noexcept { return begin() + (pos - cbegin()); }
 
   // NOLINTNEXTLINE(bugprone-return-const-ref-from-parameter)
   static constexpr const Key& GetKey(const Key& key) noexcept { return key; }
-- 
2.43.0


From dd6c5053bf23855f19ffbd8dcb988baa55fa50df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 08/19] fix: LimitedSet and LimitedMap destroy every element
 exactly once

Insertion constructed over live (moved-from) elements, erase never destroyed the
last element, moves and swap() never destroyed the moved-from elements, self move
assignment dropped all elements, and values that refer to elements of the
container were read after those elements had moved.
---
 mbo/container/internal/limited_ordered.h | 113 ++++++++++++-----------
 1 file changed, 57 insertions(+), 56 deletions(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index a06fcdf..d913034 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -437,15 +437,17 @@ class [[nodiscard]] LimitedOrdered {
     for (; size_ < other.size_; ++size_) {
       std::construct_at(const_cast<RawValue*>(&values_[size_].data), std::move(other.values_[size_].data));
     }
-    other.size_ = 0;
+    other.clear();
   }
 
   constexpr LimitedOrdered& operator=(LimitedOrdered&& other) noexcept {
-    clear();
-    for (; size_ < other.size_; ++size_) {
-      std::construct_at(const_cast<RawValue*>(&values_[size_].data), std::move(other.values_[size_].data));
+    if (this != &other) {
+      clear();
+      for (; size_ < other.size_; ++size_) {
+        std::construct_at(const_cast<RawValue*>(&values_[size_].data), std::move(other.values_[size_].data));
+      }
+      other.clear();
     }
-    other.size_ = 0;
     return *this;
   }
 
@@ -891,59 +893,47 @@ class [[nodiscard]] LimitedOrdered {
     }
     const std::size_t other_size = other.size_;
     const std::size_t this_size = size_;
-    for (; pos < size_; ++pos) {
+    for (; pos < this_size; ++pos) {
       other.emplace(std::move(values_[pos].data));
     }
-    for (; pos < other.size(); ++pos) {
+    for (; pos < other_size; ++pos) {
       emplace(std::move(other.values_[pos].data));
     }
-    size_ = other_size;
-    other.size_ = this_size;
+    // The moved-from elements are still alive and must be destroyed.
+    while (size_ > other_size) {
+      std::destroy_at(&values_[--size_].data);
+    }
+    while (other.size_ > this_size) {
+      std::destroy_at(&other.values_[--other.size_].data);
+    }
   }
 
   template<typename... Args>
   constexpr std::pair<iterator, bool> emplace(Args&&... args) noexcept(!kRequireThrows) {
-    const RawValue new_val(std::forward<Args>(args)...);
+    RawValue new_val(std::forward<Args>(args)...);
     const iterator dst = lower_bound(GetKey(new_val));
     if (dst != end() && !key_comp_(GetKey(*dst), GetKey(new_val)) && !key_comp_(GetKey(new_val), GetKey(*dst))) {
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `emplace` at capacity.");
-    for (iterator next = end(); next > dst; --next) {
-      std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
-    }
-    std::construct_at(const_cast<RawValue*>(&*dst), std::move(new_val));
-    ++size_;
+    insert_at(dst, std::move(new_val));
     return std::make_pair(dst, true);
   }
 
   template<typename It>
   requires IsIterator<It>::value
   constexpr iterator erase(It pos) noexcept(!kRequireThrows) {
-    auto dst = to_iterator(pos);
+    const iterator dst = to_iterator(pos);
     MBO_CONFIG_REQUIRE(begin() <= dst && dst < end(), "Invalid `pos`.");
-    --size_;
-    std::destroy_at(&*dst);
-    for (; dst < end(); ++dst) {
-      std::construct_at(const_cast<RawValue*>(&*dst), std::move(*std::next(dst)));
-    }
-    return to_iterator(pos);
+    erase_at(dst, 1);
+    return dst;
   }
 
   constexpr iterator erase(const_iterator first, const_iterator last) noexcept(!kRequireThrows) {
     MBO_CONFIG_REQUIRE(cbegin() <= first && first <= last && last <= cend(), "Invalid `first` or `last`.");
-    std::size_t deleted = 0;
-    for (const_iterator it = first; it < last; ++it) {
-      std::destroy_at(&*it);
-      ++deleted;
-    }
-    auto dst = to_iterator(first);
-    auto src = to_iterator(last);
-    for (; src < end(); ++src, ++dst) {
-      std::construct_at(const_cast<RawValue*>(&*dst), std::move(*src));
-    }
-    size_ -= deleted;
-    return to_iterator(first);
+    const iterator dst = to_iterator(first);
+    erase_at(dst, last - first);
+    return dst;
   }
 
   constexpr size_type erase(const Key& key) {
@@ -1035,13 +1025,10 @@ class [[nodiscard]] LimitedOrdered {
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `try_emplace` at capacity.");
-    for (iterator next = end(); next > dst; --next) {
-      std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
-    }
-    std::construct_at(
-        const_cast<RawValue*>(&*dst), std::piecewise_construct, std::forward_as_tuple(key),
-        std::forward_as_tuple(std::forward<Args>(args)...));
-    ++size_;
+    insert_at(
+        dst, RawValue(
+                 std::piecewise_construct, std::forward_as_tuple(key),
+                 std::forward_as_tuple(std::forward<Args>(args)...)));
     return std::make_pair(dst, true);
   }
 
@@ -1053,13 +1040,9 @@ class [[nodiscard]] LimitedOrdered {
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `try_emplace` at capacity.");
-    for (iterator next = end(); next > dst; --next) {
-      std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
-    }
     // Should possibly use: std::piecewise_construct, std::move(key), std::forward_as_tuple(std::forward<Args>(args)...)
     // But that creates issues with conversion. However, we know the two types, so we do not need piecewise.
-    std::construct_at(const_cast<RawValue*>(&*dst), std::move(key), Mapped(std::forward<Args>(args)...));
-    ++size_;
+    insert_at(dst, RawValue(std::move(key), Mapped(std::forward<Args>(args)...)));
     return std::make_pair(dst, true);
   }
 
@@ -1072,11 +1055,7 @@ class [[nodiscard]] LimitedOrdered {
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `insert_or_assign` at capacity.");
-    for (iterator next = end(); next > dst; --next) {
-      std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
-    }
-    std::construct_at(const_cast<RawValue*>(&*dst), key, std::forward<V>(value));
-    ++size_;
+    insert_at(dst, RawValue(key, std::forward<V>(value)));
     return std::make_pair(dst, true);
   }
 
@@ -1089,11 +1068,7 @@ class [[nodiscard]] LimitedOrdered {
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `emplace` at capacity.");
-    for (iterator next = end(); next > dst; --next) {
-      std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
-    }
-    std::construct_at(const_cast<RawValue*>(&*dst), std::move(key), std::forward<V>(value));
-    ++size_;
+    insert_at(dst, RawValue(std::move(key), std::forward<V>(value)));
     return std::make_pair(dst, true);
   }
 
@@ -1172,6 +1147,32 @@ class [[nodiscard]] LimitedOrdered {
   }
 
  private:
+  // Relocates all elements from `dst` on and moves `value` there. The caller constructs `value` first, as its arguments
+  // may refer to elements of this container.
+  constexpr void insert_at(iterator dst, RawValue&& value) {
+    for (iterator next = end(); next > dst; --next) {
+      const iterator prev = std::prev(next);
+      std::construct_at(const_cast<RawValue*>(&*next), std::move(*prev));
+      std::destroy_at(&*prev);
+    }
+    std::construct_at(const_cast<RawValue*>(&*dst), std::move(value));
+    ++size_;
+  }
+
+  // Removes `count` elements at `dst`.
+  constexpr void erase_at(iterator dst, difference_type count) {
+    if (count == 0) {
+      return;
+    }
+    for (; dst + count < end(); ++dst) {
+      std::destroy_at(&*dst);
+      std::construct_at(const_cast<RawValue*>(&*dst), std::move(*(dst + count)));
+    }
+    for (; count > 0; --count) {
+      std::destroy_at(&values_[--size_].data);
+    }
+  }
+
   std::size_t size_{0};
 
   // Array would be better but that does not work with ASAN builds.
-- 
2.43.0


From 019ffc6d0877395a7a807b602a5a245bc1375724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 09/19] fix: copies of a LimitedSet or LimitedMap keep its
 comparator

---
 mbo/container/internal/limited_ordered.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index d913034..43f63a2 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -417,7 +417,7 @@ class [[nodiscard]] LimitedOrdered {
 
   // NOLINTBEGIN(cppcoreguidelines-pro-type-const-cast)
 
-  constexpr LimitedOrdered(const LimitedOrdered& other) noexcept {
+  constexpr LimitedOrdered(const LimitedOrdered& other) noexcept : key_comp_(other.key_comp_) {
     for (; size_ < other.size_; ++size_) {
       std::construct_at(const_cast<RawValue*>(&values_[size_].data), other.values_[size_].data);
     }
@@ -433,7 +433,7 @@ class [[nodiscard]] LimitedOrdered {
     return *this;
   }
 
-  constexpr LimitedOrdered(LimitedOrdered&& other) noexcept {
+  constexpr LimitedOrdered(LimitedOrdered&& other) noexcept : key_comp_(other.key_comp_) {
     for (; size_ < other.size_; ++size_) {
       std::construct_at(const_cast<RawValue*>(&values_[size_].data), std::move(other.values_[size_].data));
     }
-- 
2.43.0


From adf9b9a67cfce76b303af5ed42e876cc8d9b447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:50 +0000
Subject: [PATCH 10/19] fix: LimitedMap constructors accept kRequireSortedInput

std::is_sorted was called with the key comparator on pairs, so the range and
initializer list constructors of a LimitedMap with that flag did not compile.
---
 mbo/container/internal/limited_ordered.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index 43f63a2..11e6995 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -458,7 +458,14 @@ class [[nodiscard]] LimitedOrdered {
   constexpr LimitedOrdered(It first, It last, const Compare& key_comp = Compare()) noexcept(!kRequireThrows)
       : key_comp_(key_comp) {
     if constexpr (Options::Has(LimitedOptionsFlag::kRequireSortedInput)) {
-      MBO_CONFIG_REQUIRE(std::is_sorted(first, last, key_comp_), "Flag `kRequireSortedInput` violated.");
+      const auto less = [this](const auto& lhs, const auto& rhs) {
+        if constexpr (kKeyOnly) {
+          return key_comp_(lhs, rhs);
+        } else {
+          return key_comp_(lhs.first, rhs.first);
+        }
+      };
+      MBO_CONFIG_REQUIRE(std::is_sorted(first, last, less), "Flag `kRequireSortedInput` violated.");
     }
     while (first < last) {
       if constexpr (Options::Has(LimitedOptionsFlag::kRequireSortedInput)) {
-- 
2.43.0


From 708eee613a99b2884793567f95b260650fa7f4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:50 +0000
Subject: [PATCH 11/19] fix: sorted input beyond the capacity of
 LimitedSet/LimitedMap is rejected

With kRequireSortedInput the constructors wrote past the storage.
---
 mbo/container/internal/limited_ordered.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index 11e6995..a06070d 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -469,6 +469,7 @@ class [[nodiscard]] LimitedOrdered {
     }
     while (first < last) {
       if constexpr (Options::Has(LimitedOptionsFlag::kRequireSortedInput)) {
+        MBO_CONFIG_REQUIRE(size_ < Capacity, "Called constructor at capacity.");
         std::construct_at(const_cast<RawValue*>(&values_[size_++].data), *first);
       } else {
         emplace(*first);
-- 
2.43.0


From 029714665dbb591c645b40b72381867eb0d43f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 12/19] fix: MakeLimitedSet does not move from its lvalue
 arguments

---
 mbo/container/limited_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/container/limited_set.h b/mbo/container/limited_set.h
index 3f48364..4934284 100644
--- a/mbo/container/limited_set.h
+++ b/mbo/container/limited_set.h
@@ -266,7 +266,7 @@ requires((types::NotInitializerList<Args> && !std::forward_iterator<Args> && !ty
 inline constexpr auto MakeLimitedSet(Args&&... args) noexcept {
   using T = std::common_type_t<Args...>;
   auto result = LimitedSet<T, sizeof...(Args)>();
-  (result.emplace(std::forward<T>(args)), ...);
+  (result.emplace(std::forward<Args>(args)), ...);
   return result;
 }
 
-- 
2.43.0


From 853cd3cb69eb6182614f4536989f05ead803f904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 13/19] fix: OptionalDataOrRef destroys the value it moved from
 and survives self-move

The move constructor and move assignment marked the source as empty without
running the destructor of its moved-from value, and move-assigning an object
to itself destroyed its value before moving from it.
---
 mbo/types/optional_data_or_ref.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mbo/types/optional_data_or_ref.h b/mbo/types/optional_data_or_ref.h
index e5c21ea..cb9d42b 100644
--- a/mbo/types/optional_data_or_ref.h
+++ b/mbo/types/optional_data_or_ref.h
@@ -103,8 +103,7 @@ class OptionalDataOrRef {
   {
     if (other.is_val_) {
       emplace(std::move(other.union_.val));
-      other.is_val_ = false;
-      other.union_.ptr = nullptr;
+      other.Destruct();
     } else {
       Destruct(other.union_.ptr);
     }
@@ -113,10 +112,12 @@ class OptionalDataOrRef {
   constexpr OptionalDataOrRef& operator=(OptionalDataOrRef&& other)
   requires std::move_constructible<T>
   {
+    if (this == &other) {
+      return *this;
+    }
     if (other.is_val_) {
       emplace(std::move(other.union_.val));
-      other.is_val_ = false;
-      other.union_.ptr = nullptr;
+      other.Destruct();
     } else {
       Destruct(other.union_.ptr);
     }
-- 
2.43.0


From 780af750b47dc5b4946bc480ac8dbddd27707eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 14/19] fix: OptionalDataOrRef assignment from std::nullopt
 returns the object

---
 mbo/types/optional_data_or_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/types/optional_data_or_ref.h b/mbo/types/optional_data_or_ref.h
index cb9d42b..4e889df 100644
--- a/mbo/types/optional_data_or_ref.h
+++ b/mbo/types/optional_data_or_ref.h
@@ -124,7 +124,7 @@ class OptionalDataOrRef {
     return *this;
   }
 
-  constexpr OptionalDataOrRef& operator=(std::nullopt_t /* unused */) { reset(); }
+  constexpr OptionalDataOrRef& operator=(std::nullopt_t /* unused */) { return reset(); }
 
   constexpr OptionalDataOrRef& operator=(value_type&& v) {
     emplace(std::move(v));
-- 
2.43.0


From ff10999193aa60a460dea705c591339fd757cda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 15/19] fix: OptionalRef < std::nullopt compiles (nothing is
 less than nullopt)

---
 mbo/types/optional_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/types/optional_ref.h b/mbo/types/optional_ref.h
index 1e8ae60..ee1cee8 100644
--- a/mbo/types/optional_ref.h
+++ b/mbo/types/optional_ref.h
@@ -134,7 +134,7 @@ class OptionalRef {
 
   constexpr bool operator==(std::nullopt_t /*unused*/) const noexcept { return v_ == nullptr; }
 
-  constexpr bool operator<(std::nullopt_t /*unused*/) const noexcept { return v_ < nullptr; }
+  constexpr bool operator<(std::nullopt_t /*unused*/) const noexcept { return false; }
 
   constexpr std::strong_ordering operator<=>(std::nullopt_t /*unused*/) const noexcept {
     if (!has_value()) {
-- 
2.43.0


From f8bb456d1eb26bb00ed27c2dd84ff43032559725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 16/19] fix: Required and NoDestruct hash and format the value
 they hold

---
 mbo/types/no_destruct.h | 4 ++--
 mbo/types/required.h    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mbo/types/no_destruct.h b/mbo/types/no_destruct.h
index 6624c59..10fabe5 100644
--- a/mbo/types/no_destruct.h
+++ b/mbo/types/no_destruct.h
@@ -102,12 +102,12 @@ class NoDestruct final {
 
   template<typename H>
   friend H AbslHashValue(H hash, const NoDestruct<T>& v) {
-    return H::combine(std::move(hash), absl::HashOf<>(*v.data_));
+    return H::combine(std::move(hash), absl::HashOf<>(v.Get()));
   }
 
   template<typename Sink>
   friend void AbslStringify(Sink& sink, const NoDestruct<T>& v) {
-    absl::Format(&sink, "%v", v.data_);
+    absl::Format(&sink, "%v", v.Get());
   }
 
  private:
diff --git a/mbo/types/required.h b/mbo/types/required.h
index 93f4b42..b6ab3a4 100644
--- a/mbo/types/required.h
+++ b/mbo/types/required.h
@@ -134,7 +134,7 @@ class Required {
 
   template<typename H>
   friend H AbslHashValue(H hash, const Required<T>& v) {
-    return H::combine(std::move(hash), absl::HashOf<>(*v.value_));
+    return H::combine(std::move(hash), absl::HashOf<>(v.value_));
   }
 
   template<typename Sink>
-- 
2.43.0


From 54ed93c92ec8e43e15424eaa9152f9f029b44e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:24 +0000
Subject: [PATCH 17/19] fix: OpaqueValue can be copied from a non const lvalue

---
 mbo/types/opaque.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mbo/types/opaque.h b/mbo/types/opaque.h
index 3315c71..86e35b0 100644
--- a/mbo/types/opaque.h
+++ b/mbo/types/opaque.h
@@ -21,6 +21,7 @@
 #include <cstddef>
 #include <memory>
 #include <type_traits>
+#include <utility>
 
 #include "absl/hash/hash.h"
 #include "mbo/types/container_proxy.h"  // IWYU pragma: export
@@ -90,6 +91,11 @@ struct OpaqueValue {
   requires(std::is_copy_constructible_v<T>)
       : ptr_(MakeOpaquePtr<T>(*other.ptr_)) {}
 
+  // Otherwise the forwarding constructors would be the better match for a non const argument.
+  OpaqueValue(OpaqueValue& other)
+  requires(std::is_copy_constructible_v<T>)
+      : OpaqueValue(std::as_const(other)) {}
+
   OpaqueValue& operator=(const OpaqueValue& other)
   requires(std::is_copy_constructible_v<T>)
   {
-- 
2.43.0


From 99d5d7368a9854f5e95c7b7b38c8b017d59b88e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:38 +0000
Subject: [PATCH 18/19] fix: RefWrap and Required compare with each other

Comparing two RefWrap<int> or two Required<int> did not compile: the generic
operator<=> was considered for the wrapper itself, which made its constraint
depend on itself, and wrappers of other types read private members.
---
 mbo/types/ref_wrap.h | 22 +++++++++++++++++-----
 mbo/types/required.h | 22 +++++++++++++++++-----
 2 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/mbo/types/ref_wrap.h b/mbo/types/ref_wrap.h
index f902984..8fd71d3 100644
--- a/mbo/types/ref_wrap.h
+++ b/mbo/types/ref_wrap.h
@@ -19,12 +19,26 @@
 #include <compare>   // IWYU pragma: keep
 #include <concepts>  // IWYU pragma: keep
 #include <cstddef>
+#include <type_traits>
 
 #include "absl/hash/hash.h"
 #include "absl/strings/str_format.h"
 
 namespace mbo::types {
 
+template<typename T>
+class RefWrap;
+
+namespace types_internal {
+
+template<typename T>
+struct IsRefWrapImpl : std::false_type {};
+
+template<typename T>
+struct IsRefWrapImpl<RefWrap<T>> : std::true_type {};
+
+}  // namespace types_internal
+
 // Template class `RefWrap<T>` is a reference wrapper for a type `T`. It has
 // similar goals to `std::reference_wrapper` or GSL's `not_null`. However, the
 // wrapper behaves like a pointer that cannot be a nullptr. In details:
@@ -84,13 +98,11 @@ class RefWrap final {
 
   template<std::three_way_comparable_with<T> U>
   constexpr auto operator<=>(const RefWrap<U>& other) const noexcept {
-    if (ptr_ == other.ptr_) {
-      return decltype(*ptr_ <=> other)::equivalent;
-    }
-    return *ptr_ <=> *other.ptr_;
+    return *this <=> other.get();
   }
 
-  template<std::three_way_comparable_with<T> U>
+  template<typename U>
+  requires(!types_internal::IsRefWrapImpl<U>::value && std::three_way_comparable_with<U, T>)
   constexpr auto operator<=>(const U& other) const noexcept {
     if (ptr_ == &other) {
       return decltype(*ptr_ <=> other)::equivalent;
diff --git a/mbo/types/required.h b/mbo/types/required.h
index b6ab3a4..c87a909 100644
--- a/mbo/types/required.h
+++ b/mbo/types/required.h
@@ -18,6 +18,7 @@
 
 #include <compare>   // IWYU pragma: keep
 #include <concepts>  // IWYU pragma: keep
+#include <type_traits>
 #include <utility>
 
 #include "absl/hash/hash.h"
@@ -26,6 +27,19 @@
 
 namespace mbo::types {
 
+template<typename T>
+class Required;
+
+namespace types_internal {
+
+template<typename T>
+struct IsRequiredImpl : std::false_type {};
+
+template<typename T>
+struct IsRequiredImpl<Required<T>> : std::true_type {};
+
+}  // namespace types_internal
+
 // Template class `Required<T>` is a wrapper around a type `T`. The value can be
 // replaced without using assign or move-assign operators. Instead the wrapper
 // will call the destructor and then in-place construct the wrapped value using
@@ -118,13 +132,11 @@ class Required {
 
   template<std::three_way_comparable_with<T> U>
   constexpr auto operator<=>(const Required<U>& other) const noexcept {
-    if (value_ == other) {
-      return decltype(value_ <=> other)::equivalent;
-    }
-    return value_ <=> other.value_;
+    return *this <=> other.get();
   }
 
-  template<std::three_way_comparable_with<T> U>
+  template<typename U>
+  requires(!types_internal::IsRequiredImpl<U>::value && std::three_way_comparable_with<U, T>)
   constexpr auto operator<=>(const U& other) const noexcept {
     if (value_ == other) {
       return decltype(value_ <=> other)::equivalent;
-- 
2.43.0


From 8b972236c799c31eab6ee66472cd7980102f06f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:14 +0000
Subject: [PATCH 19/19] fix: AtLast::Find returned the position relative to the
 start of the search

---
 mbo/strings/split.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/strings/split.h b/mbo/strings/split.h
index 5f94a51..7dd46f9 100644
--- a/mbo/strings/split.h
+++ b/mbo/strings/split.h
@@ -31,7 +31,7 @@ class AtLast {
     if (next_pos == std::string_view::npos) {
       return std::string_view{text.data() + text.size(), 0};
     }
-    return text.substr(next_pos, 1);
+    return text.substr(pos + next_pos, 1);
   }
 
  private:
-- 
2.43.0

