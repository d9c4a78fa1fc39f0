From c7d970a79ded61aaac61810a768e2ab35298eedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:15 +0000
Subject: [PATCH 01/61] fix: small_vector::max_size() did not compile

---
 include/itlib/small_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index 30992db..72779bd 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -466,7 +466,7 @@ public:
 
     size_t max_size() const noexcept
     {
-        return atraits::max_size();
+        return atraits::max_size(get_alloc());
     }
 
     void reserve(size_type new_cap)
-- 
2.43.0


From dfcd359e12b7ca3f741c167c4216ad91f9fa01d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:00 +0000
Subject: [PATCH 02/61] fix: small_vector::shrink_to_fit/revert_to_static do
 revert when size() equals the static capacity

---
 include/itlib/small_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index 72779bd..b6dcf66 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -519,7 +519,7 @@ public:
         auto old_end = m_end;
         auto old_cap = m_capacity;
 
-        if (s < StaticCapacity)
+        if (s <= StaticCapacity)
         {
             // revert to static capacity
             m_begin = m_end = static_begin_ptr();
-- 
2.43.0


From a53f888afb9a40f331e599baf07b96d69dc7e93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:21 +0000
Subject: [PATCH 03/61] fix: small_vector insert and erase of an empty range
 destroyed live elements

---
 include/itlib/small_vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index b6dcf66..16dcb30 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -762,6 +762,8 @@ private:
 
         I_ITLIB_SMALL_VECTOR_OUT_OF_RANGE_IF(position < m_begin || position > m_end);
 
+        if (num == 0) return position; // no hole, nothing to splice
+
         const auto s = size();
         const auto cdr = choose_data(s + num);
 
@@ -825,6 +827,8 @@ private:
 
         I_ITLIB_SMALL_VECTOR_OUT_OF_RANGE_IF(position < m_begin || position > m_end || position + num > m_end);
 
+        if (num == 0) return position; // nothing to erase
+
         const auto s = size();
         if (s - num == 0)
         {
-- 
2.43.0


From 337b0896d67802b189fad920b3063cceabcbbd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:21 +0000
Subject: [PATCH 04/61] fix: small_vector growth within the reserved capacity
 reverted to the static buffer

---
 include/itlib/small_vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index 16dcb30..e4babff 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -765,7 +765,10 @@ private:
         if (num == 0) return position; // no hole, nothing to splice
 
         const auto s = size();
-        const auto cdr = choose_data(s + num);
+
+        // only size-reducing operations revert to the static buffer
+        // (so growth within the capacity, say after reserve, must keep the elements in place)
+        const auto cdr = s + num <= m_capacity ? choose_data_result{m_begin, m_capacity} : choose_data(s + num);
 
         if (cdr.ptr == m_begin)
         {
-- 
2.43.0


From e3b69d82ccdcdc7618a31c54706af9c7ca7cc65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:21 +0000
Subject: [PATCH 05/61] fix: small_vector arguments which refer to the vector's
 own elements were used after being moved from or freed

---
 include/itlib/small_vector.hpp | 57 +++++++++++++++++++++++++---------
 1 file changed, 43 insertions(+), 14 deletions(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index e4babff..e05a49a 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -582,19 +582,28 @@ public:
 
     iterator insert(const_iterator position, const value_type& val)
     {
-        auto pos = grow_at(position, 1);
-        atraits::construct(get_alloc(), pos, val);
-        return pos;
+        return emplace(position, val);
     }
 
     iterator insert(const_iterator position, value_type&& val)
     {
-        auto pos = grow_at(position, 1);
-        atraits::construct(get_alloc(), pos, std::move(val));
-        return pos;
+        return emplace(position, std::move(val));
     }
 
     iterator insert(const_iterator position, size_type count, const value_type& val)
+    {
+        if (count != 0 && !appends_in_place(position, count))
+        {
+            // val may be an element of this vector
+            I_ITLIB_SMALL_VECTOR_OUT_OF_RANGE_IF(position < m_begin || position > m_end);
+            const value_type copy(val);
+            return insert_fill(position, count, copy);
+        }
+        return insert_fill(position, count, val);
+    }
+
+private:
+    iterator insert_fill(const_iterator position, size_type count, const value_type& val)
     {
         auto pos = grow_at(position, count);
         for (size_type i = 0; i < count; ++i)
@@ -604,6 +613,7 @@ public:
         return pos;
     }
 
+public:
     template <typename InputIterator, typename = decltype(*std::declval<InputIterator>())>
     iterator insert(const_iterator position, InputIterator first, InputIterator last)
     {
@@ -631,6 +641,16 @@ public:
     template<typename... Args>
     iterator emplace(const_iterator position, Args&&... args)
     {
+        if (!appends_in_place(position, 1))
+        {
+            // args may refer to elements of this vector
+            I_ITLIB_SMALL_VECTOR_OUT_OF_RANGE_IF(position < m_begin || position > m_end);
+            value_type val(std::forward<Args>(args)...);
+            auto pos = grow_at(position, 1);
+            atraits::construct(get_alloc(), pos, std::move(val));
+            return pos;
+        }
+
         auto pos = grow_at(position, 1);
         atraits::construct(get_alloc(), pos, std::forward<Args>(args)...);
         return pos;
@@ -649,22 +669,18 @@ public:
 
     void push_back(const_reference val)
     {
-        auto pos = grow_at(m_end, 1);
-        atraits::construct(get_alloc(), pos, val);
+        emplace(m_end, val);
     }
 
     void push_back(T&& val)
     {
-        auto pos = grow_at(m_end, 1);
-        atraits::construct(get_alloc(), pos, std::move(val));
+        emplace(m_end, std::move(val));
     }
 
     template<typename... Args>
     reference emplace_back(Args&&... args)
     {
-        auto pos = grow_at(m_end, 1);
-        atraits::construct(get_alloc(), pos, std::forward<Args>(args)...);
-        return *pos;
+        return *emplace(m_end, std::forward<Args>(args)...);
     }
 
     void pop_back()
@@ -674,7 +690,14 @@ public:
 
     void resize(size_type n, const value_type& v)
     {
-        reserve(n);
+        if (n > m_capacity)
+        {
+            // v may be an element of this vector
+            const value_type copy(v);
+            reserve(n);
+            resize(n, copy);
+            return;
+        }
 
         auto new_end = m_begin + n;
 
@@ -753,6 +776,12 @@ private:
         v.m_capacity = StaticCapacity;
     }
 
+    // whether num elements added at position leave all existing ones where they are
+    bool appends_in_place(const T* position, size_t num) const
+    {
+        return position == m_end && num <= m_capacity - size();
+    }
+
     // increase the size by splicing the elements in such a way that
     // a hole of uninitialized elements is left at position, with size num
     // returns the (potentially new) address of the hole
-- 
2.43.0


From 7f75200c0788bcab2ae7c788a5d5a0cee4cb0a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:16 +0000
Subject: [PATCH 06/61] fix: static_vector::erase of an empty range destroyed
 live elements

---
 include/itlib/static_vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index bf36868..e4dc598 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -644,6 +644,7 @@ private:
         I_ITLIB_STATIC_VECTOR_BOUNDS_CHECK_ITER(cp);
 
         auto position = const_cast<T*>(cp);
+        if (num == 0) return position; // nothing to erase
 
         const auto s = size();
         if (s - num == 0)
-- 
2.43.0


From b17a9e4b65ba25d2be8dfa80a8c24a4200cbc9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:16 +0000
Subject: [PATCH 07/61] fix: static_vector::insert with a huge count bypassed
 the capacity check

---
 include/itlib/static_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index e4dc598..7bbde96 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -622,7 +622,7 @@ private:
     }
 
     T* grow_at(const T* cp, size_t by) {
-        I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(size() + by > Capacity);
+        I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(by > Capacity - size());
         I_ITLIB_STATIC_VECTOR_BOUNDS_CHECK_ITER(cp);
 
         auto position = const_cast<T*>(cp);
-- 
2.43.0


From 21aaa450087a017fb76444d188a9ef88a3c88ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:16 +0000
Subject: [PATCH 08/61] fix: static_vector arguments which refer to the
 vector's own elements were used after being moved from

---
 include/itlib/static_vector.hpp | 36 ++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index 7bbde96..89bd0b7 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -463,26 +463,23 @@ public:
 
     iterator insert(const_iterator position, const value_type& val)
     {
-        auto pos = grow_at(position, 1);
-        ::new (pos) T(val);
-        return pos;
+        return emplace(position, val);
     }
 
     iterator insert(const_iterator position, value_type&& val)
     {
-        auto pos = grow_at(position, 1);
-        ::new (pos) T(std::move(val));
-        return pos;
+        return emplace(position, std::move(val));
     }
 
     iterator insert(const_iterator position, size_type count, const value_type& val)
     {
-        auto pos = grow_at(position, count);
-        for (size_type i = 0; i < count; ++i)
+        if (position != cend() && count != 0)
         {
-            ::new (pos + i) T(val);
+            // val may be an element of this vector
+            const value_type copy(val);
+            return insert_fill(position, count, copy);
         }
-        return pos;
+        return insert_fill(position, count, val);
     }
 
     template <typename InputIterator, typename = decltype(*std::declval<InputIterator>())>
@@ -512,6 +509,15 @@ public:
     template<typename... Args>
     iterator emplace(const_iterator position, Args&&... args)
     {
+        if (position != cend() && size() < Capacity)
+        {
+            // args may refer to elements of this vector
+            value_type val(std::forward<Args>(args)...);
+            auto pos = grow_at(position, 1);
+            ::new (pos) T(std::move(val));
+            return pos;
+        }
+
         auto pos = grow_at(position, 1);
         ::new (pos) T(std::forward<Args>(args)...);
         return pos;
@@ -590,6 +596,16 @@ public:
     }
 
 private:
+    iterator insert_fill(const_iterator position, size_type count, const value_type& val)
+    {
+        auto pos = grow_at(position, count);
+        for (size_type i = 0; i < count; ++i)
+        {
+            ::new (pos + i) T(val);
+        }
+        return pos;
+    }
+
     void assign_impl_val(size_t count, const T& value)
     {
         I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(count > Capacity);
-- 
2.43.0


From 8fe8f1429357bcb784f96adb186b5136a02191c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:24 +0000
Subject: [PATCH 09/61] fix: pod_vector::resize(n, val) wrote n elements past
 the end instead of the missing ones

---
 include/itlib/pod_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/pod_vector.hpp b/include/itlib/pod_vector.hpp
index bfe8674..ae79e97 100644
--- a/include/itlib/pod_vector.hpp
+++ b/include/itlib/pod_vector.hpp
@@ -607,7 +607,7 @@ public:
     bool resize(size_type n, const value_type& val)
     {
         bool ret = reserve(n);
-        fill(m_end, n, val);
+        if (n > size()) fill(m_end, n - size(), val);
         m_end = m_begin + n;
         return ret;
     }
-- 
2.43.0


From 80f792de08346c6e21f4788f176aed324021e103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:24 +0000
Subject: [PATCH 10/61] fix: pod_vector arguments which refer to the vector's
 own elements were read after being moved or freed

---
 include/itlib/pod_vector.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/itlib/pod_vector.hpp b/include/itlib/pod_vector.hpp
index ae79e97..6827710 100644
--- a/include/itlib/pod_vector.hpp
+++ b/include/itlib/pod_vector.hpp
@@ -537,15 +537,17 @@ public:
 
     iterator insert(const_iterator position, const value_type& val)
     {
+        const value_type copy = val; // val may be an element of this vector
         auto pos = grow_at(position, 1);
-        *pos = val;
+        *pos = copy;
         return pos;
     }
 
     iterator insert(const_iterator position, size_type count, const value_type& val)
     {
+        const value_type copy = val; // val may be an element of this vector
         auto pos = grow_at(position, count);
-        fill(pos, count, val);
+        fill(pos, count, copy);
         return pos;
     }
 
@@ -590,7 +592,8 @@ public:
 
     reference push_back(const_reference val)
     {
-        return emplace_back() = val;
+        const value_type copy = val; // val may be an element of this vector
+        return emplace_back() = copy;
     }
 
     // for compatibility
@@ -606,8 +609,9 @@ public:
 
     bool resize(size_type n, const value_type& val)
     {
+        const value_type copy = val; // val may be an element of this vector
         bool ret = reserve(n);
-        if (n > size()) fill(m_end, n - size(), val);
+        if (n > size()) fill(m_end, n - size(), copy);
         m_end = m_begin + n;
         return ret;
     }
-- 
2.43.0


From a9fc7bd20a81b6e6bc2bda2a1580fb4720defe71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:57 +0000
Subject: [PATCH 11/61] fix: pod_vector::recast_take_from between over-aligned
 types took a buffer with the wrong alignment

---
 include/itlib/pod_vector.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/itlib/pod_vector.hpp b/include/itlib/pod_vector.hpp
index 6827710..842f812 100644
--- a/include/itlib/pod_vector.hpp
+++ b/include/itlib/pod_vector.hpp
@@ -268,6 +268,15 @@ public:
     {
         static_assert(allocator_aligned() == pod_vector<U, UAlloc>::allocator_aligned(), "taking buffers can only happen with the same relative allocation alignment");
 
+        if (!allocator_aligned() && alignof(T) != alignof(U))
+        {
+            // the buffer was not aligned for our type and can't be taken
+            recast_copy_from(other);
+            other.clear();
+            other.shrink_to_fit();
+            return;
+        }
+
         a_free_begin();
 
         auto new_size = other.byte_size() / sizeof(T);
-- 
2.43.0


From fa8f38d434d7d79f6e15b98c6736805ff3728714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:05 +0000
Subject: [PATCH 12/61] fix: small_vector had no swap, which flat_map, flat_set
 and mem_ostreambuf require of their container

---
 include/itlib/small_vector.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index e05a49a..1a0ee74 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -557,6 +557,14 @@ public:
     }
 
     // modifiers
+    void swap(small_vector& v) noexcept
+    {
+        if (this == &v) return;
+        small_vector tmp(std::move(v));
+        v = std::move(*this);
+        *this = std::move(tmp);
+    }
+
     void clear() noexcept
     {
         destroy_all();
-- 
2.43.0


From 0b9048fd73025af906641ce6f2e441033ce2060b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:33 +0000
Subject: [PATCH 13/61] fix: dynamic_bitset::all() was never true for 8 and
 16-bit words

---
 include/itlib/dynamic_bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/dynamic_bitset.hpp b/include/itlib/dynamic_bitset.hpp
index ee84748..c915ea4 100644
--- a/include/itlib/dynamic_bitset.hpp
+++ b/include/itlib/dynamic_bitset.hpp
@@ -199,7 +199,7 @@ public:
         auto endit = it + m_size / bits_per_word;
         for (; it != endit; ++it)
         {
-            if (*it != ~word_type(0)) return false;
+            if (*it != word_type(~word_type(0))) return false;
         }
         if (endit != m_buf.end())
         {
-- 
2.43.0


From 4a255439d2e53481aa132ed298c1a630ea5367df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:50 +0000
Subject: [PATCH 14/61] fix: dynamic_bitset::copy lost the last bits when they
 span two words of the source

---
 include/itlib/dynamic_bitset.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/itlib/dynamic_bitset.hpp b/include/itlib/dynamic_bitset.hpp
index c915ea4..7e54d46 100644
--- a/include/itlib/dynamic_bitset.hpp
+++ b/include/itlib/dynamic_bitset.hpp
@@ -400,7 +400,13 @@ public:
 
         // now what remains is some bits from source that need to be splicet onto our last element
         const auto rpad = to.index % bits_per_word;
-        m_buf[own_windex] = ((src[src_windex] >> pad) & (word_mask(rpad) - 1)) | (m_buf[own_windex] & ~(word_mask(rpad) - 1));
+        word_type tail = src[src_windex] >> pad;
+        if (pad + rpad > bits_per_word)
+        {
+            // the remaining bits span two words of the source
+            tail |= src[src_windex + 1] << (bits_per_word - pad);
+        }
+        m_buf[own_windex] = (tail & (word_mask(rpad) - 1)) | (m_buf[own_windex] & ~(word_mask(rpad) - 1));
     }
 
     // static ops
-- 
2.43.0


From d0ec643bc9d845e1b0a81c758625bdf9531b1649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:23 +0000
Subject: [PATCH 15/61] fix: unexpected(lvalue) moved the error out of the
 caller's object

---
 include/itlib/expected.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/itlib/expected.hpp b/include/itlib/expected.hpp
index 3685445..beffe5e 100644
--- a/include/itlib/expected.hpp
+++ b/include/itlib/expected.hpp
@@ -183,7 +183,7 @@ public:
     expected(T&& t) : m_value(std::forward<T>(t)), m_has_value(true) {}
 
     template <typename E2>
-    expected(unexpected_t<E2>&& u) : m_error(std::move(u.m_error)), m_has_value(false) {}
+    expected(unexpected_t<E2>&& u) : m_error(std::forward<E2>(u.m_error)), m_has_value(false) {}
 
     expected(unexpected_t<void>) : m_error(), m_has_value(false) {}
 
@@ -316,7 +316,7 @@ public:
     expected(T& t) : m_value(&t) {}
 
     template <typename E2>
-    expected(unexpected_t<E2>&& u) : m_value(nullptr), m_error(std::move(u.m_error)) {}
+    expected(unexpected_t<E2>&& u) : m_value(nullptr), m_error(std::forward<E2>(u.m_error)) {}
 
     expected(unexpected_t<void>) : m_value(nullptr), m_error() {}
 
@@ -416,7 +416,7 @@ public:
     expected() : m_has_value(true) {}
 
     template <typename E2>
-    expected(unexpected_t<E2>&& u) : m_error(std::move(u.m_error)), m_has_value(false) {}
+    expected(unexpected_t<E2>&& u) : m_error(std::forward<E2>(u.m_error)), m_has_value(false) {}
 
     expected(unexpected_t<void>) : m_error(), m_has_value(false) {}
 
-- 
2.43.0


From 5625752d25dcbef0b425061ab45ebf460a115b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:38 +0000
Subject: [PATCH 16/61] fix: expected<void, E> assigned a not constructed error
 when both sides hold a value

---
 include/itlib/expected.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/expected.hpp b/include/itlib/expected.hpp
index beffe5e..c9b3980 100644
--- a/include/itlib/expected.hpp
+++ b/include/itlib/expected.hpp
@@ -446,7 +446,7 @@ public:
             m_has_value = true;
             m_error.~E();
         }
-        else
+        else if (!m_has_value)
         {
             m_error = std::move(other.m_error);
         }
-- 
2.43.0


From a9127f54908d62ced2a5010f150a208769ef60ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:58 +0000
Subject: [PATCH 17/61] fix: expected<T, void> claimed a value when
 copy-assigning it threw

---
 include/itlib/expected.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/expected.hpp b/include/itlib/expected.hpp
index c9b3980..2e6bb0d 100644
--- a/include/itlib/expected.hpp
+++ b/include/itlib/expected.hpp
@@ -528,8 +528,8 @@ public:
         }
         else if (!m_has_value && other.has_value())
         {
-            m_has_value = true;
             ::new (&m_value) T(other.m_value);
+            m_has_value = true;
         }
         return *this;
     }
-- 
2.43.0


From 5629118dd22bf23ca0050875d5a83b594afbd568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:53 +0000
Subject: [PATCH 18/61] fix: any made from or assigned an lvalue held a
 reference to it instead of a copy

---
 include/itlib/any.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index 90994d3..41761ec 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -173,15 +173,15 @@ public:
     // only enable these if T is not another any
     template <typename T, typename std::enable_if<!anyimpl::is_any<typename std::decay<T>::type>::value, int>::type = 0>
     any(T&& t) {
-        emplace<T>(std::forward<T>(t));
+        emplace<typename std::decay<T>::type>(std::forward<T>(t));
     }
     template <typename T, typename std::enable_if<!anyimpl::is_any<typename std::decay<T>::type>::value, int>::type = 0>
     any(std::allocator_arg_t, const Alloc& a, T&& t) : Alloc(a) {
-        emplace<T>(std::forward<T>(t));
+        emplace<typename std::decay<T>::type>(std::forward<T>(t));
     }
     template <typename T, typename std::enable_if<!anyimpl::is_any<typename std::decay<T>::type>::value, int>::type = 0>
     any& operator=(T&& t) {
-        emplace<T>(std::forward<T>(t));
+        emplace<typename std::decay<T>::type>(std::forward<T>(t));
         return *this;
     }
 
-- 
2.43.0


From 0810ba813d778196f21d94d37447dc8b3a652e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:53 +0000
Subject: [PATCH 19/61] fix: any destroyed its value before assigning, also
 when the source is the any itself or inside its value

---
 include/itlib/any.hpp | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index 41761ec..2dc98a6 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -154,9 +154,7 @@ public:
     }
     any& operator=(any&& o) noexcept {
         if (&o == this) return *this; // prevent self usurp
-        reset();
-        m_block = o.m_block;
-        o.m_block = nullptr;
+        take_block(o);
         return *this;
     }
 
@@ -181,7 +179,9 @@ public:
     }
     template <typename T, typename std::enable_if<!anyimpl::is_any<typename std::decay<T>::type>::value, int>::type = 0>
     any& operator=(T&& t) {
-        emplace<typename std::decay<T>::type>(std::forward<T>(t));
+        // t may be inside our own value: don't destroy it before it's used
+        any tmp(std::allocator_arg, get_allocator(), std::forward<T>(t));
+        take_block(tmp);
         return *this;
     }
 
@@ -235,18 +235,21 @@ public:
 
     template <typename OAlloc>
     void copy_from(const any<OAlloc>& o) {
-        reset();
-        if (!o.has_value()) return;
-        m_block = static_cast<anyimpl::obj_block*>(Alloc::allocate_bytes(o.m_block->size, o.m_block->alignment));
-        try {
-            o.m_block->clone_to(m_block);
-            m_block->size = o.m_block->size;
-            m_block->alignment = o.m_block->alignment;
-        }
-        catch (...) {
-            free_block(o.m_block->size, o.m_block->alignment);
-            throw;
+        // o may be this any or inside its own value: don't destroy it before it's used
+        any tmp(std::allocator_arg, get_allocator());
+        if (o.has_value()) {
+            tmp.m_block = static_cast<anyimpl::obj_block*>(tmp.allocate_bytes(o.m_block->size, o.m_block->alignment));
+            try {
+                o.m_block->clone_to(tmp.m_block);
+                tmp.m_block->size = o.m_block->size;
+                tmp.m_block->alignment = o.m_block->alignment;
+            }
+            catch (...) {
+                tmp.free_block(o.m_block->size, o.m_block->alignment);
+                throw;
+            }
         }
+        take_block(tmp);
     }
 
     const std::type_info& type() const noexcept {
@@ -255,6 +258,14 @@ public:
     }
 
 private:
+    // take the block of an any with an equal allocator
+    void take_block(any& o) noexcept {
+        auto block = o.m_block;
+        o.m_block = nullptr;
+        reset();
+        m_block = block;
+    }
+
     void free_block(size_t size, size_t alignment) noexcept {
         Alloc::deallocate_bytes(m_block, size, alignment);
         m_block = nullptr;
-- 
2.43.0


From 08ddb4d9249065c0b93b69501b24e868b73767c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:53 +0000
Subject: [PATCH 20/61] fix: any move-assignment took the block without the
 allocator which has to free it

---
 include/itlib/any.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index 2dc98a6..206d32c 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -154,8 +154,11 @@ public:
     }
     any& operator=(any&& o) noexcept {
         if (&o == this) return *this; // prevent self usurp
-        take_block(o);
-        return *this;
+        // the block must be freed with the allocator it comes from, so take it as well
+        // (pmr-like allocators are not assignable)
+        any tmp(std::move(o));
+        this->~any();
+        return *new (this) any(std::move(tmp));
     }
 
     template <typename OAlloc>
-- 
2.43.0


From 3cdefc5ffe77b81a715570132ac8e8ed9af95ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:53 +0000
Subject: [PATCH 21/61] fix: any with another allocator could not be copied

---
 include/itlib/any.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index 206d32c..2efa850 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -142,6 +142,8 @@ struct is_any<any<Alloc>> : public std::true_type {};
 template <typename Alloc = anyimpl::default_allocator>
 class any : private /*EBO*/ Alloc {
     anyimpl::obj_block* m_block = nullptr;
+    template <typename OAlloc>
+    friend class any;
 public:
     using allocator_type = Alloc;
 
-- 
2.43.0


From 730ac5c4b9698c3a57939c07290e11411db244c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:18 +0000
Subject: [PATCH 22/61] fix: span::subspan with a huge offset escaped the
 bounds check

---
 include/itlib/span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/span.hpp b/include/itlib/span.hpp
index 8b10def..4c4f363 100644
--- a/include/itlib/span.hpp
+++ b/include/itlib/span.hpp
@@ -265,7 +265,7 @@ public:
     // slicing
     span subspan(size_t off, size_t count = size_t(-1)) const noexcept
     {
-        if (m_begin + off > m_end) return span(m_end, 0);
+        if (off > size()) return span(m_end, 0);
         auto newSize = size() - off;
         if (count > newSize) count = newSize;
         return span(m_begin + off, count);
-- 
2.43.0


From cf217ac5a6168422e2fc2ed7683ad1c24c2c9bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:18 +0000
Subject: [PATCH 23/61] fix: span::last(n) with n larger than size() reached
 before the beginning

---
 include/itlib/span.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/itlib/span.hpp b/include/itlib/span.hpp
index 4c4f363..68ea379 100644
--- a/include/itlib/span.hpp
+++ b/include/itlib/span.hpp
@@ -278,6 +278,7 @@ public:
 
     span last(size_t n) const noexcept
     {
+        if (n > size()) n = size();
         return subspan(size() - n, n);
     }
 
-- 
2.43.0


From f708185691283808e7f3c353a62807fa91e8b8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:35 +0000
Subject: [PATCH 24/61] fix: stride_span iterators had huge differences instead
 of negative ones

---
 include/itlib/stride_span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/stride_span.hpp b/include/itlib/stride_span.hpp
index 998b3d8..69ecfb4 100644
--- a/include/itlib/stride_span.hpp
+++ b/include/itlib/stride_span.hpp
@@ -213,7 +213,7 @@ public:
         t_iterator& operator-=(const ptrdiff_t diff) noexcept { p -= diff * stride; return *this; }
         t_iterator operator+(const ptrdiff_t diff) const noexcept { return t_iterator(p + stride * diff, stride); }
         t_iterator operator-(const ptrdiff_t diff) const noexcept { return t_iterator(p - stride * diff, stride); }
-        ptrdiff_t operator-(const t_iterator& other) const noexcept { return (p - other.p) / stride; }
+        ptrdiff_t operator-(const t_iterator& other) const noexcept { return (p - other.p) / ptrdiff_t(stride); }
         bool operator==(const t_iterator& other) const noexcept { return p == other.p; }
         bool operator!=(const t_iterator& other) const noexcept { return p != other.p; }
         bool operator<(const t_iterator& other) const noexcept { return p < other.p; }
-- 
2.43.0


From 606f2e32e616d41d3b3abf20d363f84d2e6957de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:35 +0000
Subject: [PATCH 25/61] fix: poly_span iterators had huge differences instead
 of negative ones

---
 include/itlib/poly_span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/poly_span.hpp b/include/itlib/poly_span.hpp
index e48b4f3..d712c5f 100644
--- a/include/itlib/poly_span.hpp
+++ b/include/itlib/poly_span.hpp
@@ -227,7 +227,7 @@ public:
         t_iterator& operator-=(const ptrdiff_t diff) noexcept { p -= diff * stride; return *this; }
         t_iterator operator+(const ptrdiff_t diff) const noexcept { return t_iterator(p + stride * diff, stride, poly_func); }
         t_iterator operator-(const ptrdiff_t diff) const noexcept { return t_iterator(p - stride * diff, stride, poly_func); }
-        ptrdiff_t operator-(const t_iterator& other) const noexcept { return (p - other.p) / stride; }
+        ptrdiff_t operator-(const t_iterator& other) const noexcept { return (p - other.p) / ptrdiff_t(stride); }
         bool operator==(const t_iterator& other) const noexcept { return p == other.p; }
         bool operator!=(const t_iterator& other) const noexcept { return p != other.p; }
         bool operator<(const t_iterator& other) const noexcept { return p < other.p; }
-- 
2.43.0


From ccde45871a2a45b3949f7e4916b207a7f9c62952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:05 +0000
Subject: [PATCH 26/61] fix: mem_ostreambuf corrupted its contents when written
 to after get_container if the empty container has a buffer

---
 include/itlib/mem_streambuf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index 4e8a83c..8de2ff3 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -130,7 +130,7 @@ public:
         Container ret;
         auto size = this->poff();
         ret.swap(m_data);
-        this->setp(nullptr, nullptr);
+        this->setp(m_data.data(), m_data.data());
         ret.resize(size);
         return ret;
     }
-- 
2.43.0


From d3e8d1c95b582df97becfe08e78a78b6fa73bf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:05 +0000
Subject: [PATCH 27/61] fix: mem_ostreambuf offsets were truncated to int

---
 include/itlib/mem_streambuf.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index 8de2ff3..99d378b 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -167,14 +167,14 @@ private:
         }
 
         memcpy(this->pptr(), s, num * sizeof(char_type));
-        this->pbump(int_type(num));
+        this->setp(this->pptr() + num, this->epptr()); // pbump is limited to int
 
         return num;
     }
 
     pos_type seekpos(pos_type sp, std::ios_base::openmode) override
     {
-        this->setp(m_data.data() + int(sp), m_data.data() + m_data.size());
+        this->setp(m_data.data() + off_type(sp), m_data.data() + m_data.size());
         return sp;
     }
 
-- 
2.43.0


From 17917bae253b7a21a86b10035a5fdc7f4574b41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:05 +0000
Subject: [PATCH 28/61] fix: mem_ostreambuf lost what is after the put offset
 and seeked from the capacity instead of from the end

---
 include/itlib/mem_streambuf.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index 99d378b..c33846e 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -100,6 +100,7 @@ class mem_ostreambuf final : public std::basic_streambuf<typename Container::val
 {
 private:
     Container m_data;
+    size_t m_written = 0; // size of the data as of the last seek
     static_assert(std::is_trivial<typename Container::value_type>::value, "mem ostream must be of pod type");
     using super = std::basic_streambuf<typename Container::value_type>;
 public:
@@ -128,8 +129,9 @@ public:
     Container get_container()
     {
         Container ret;
-        auto size = this->poff();
+        auto size = this->written();
         ret.swap(m_data);
+        m_written = 0;
         this->setp(m_data.data(), m_data.data());
         ret.resize(size);
         return ret;
@@ -138,10 +140,17 @@ public:
     void clear()
     {
         m_data.clear();
+        m_written = 0;
         this->setp(m_data.data(), m_data.data());
     }
 
 private:
+    // size of the data: after seeking back it's more than the put offset
+    size_t written() const
+    {
+        auto off = poff();
+        return off > m_written ? off : m_written;
+    }
 
     int_type overflow(int_type ch) override
     {
@@ -174,6 +183,7 @@ private:
 
     pos_type seekpos(pos_type sp, std::ios_base::openmode) override
     {
+        m_written = written();
         this->setp(m_data.data() + off_type(sp), m_data.data() + m_data.size());
         return sp;
     }
@@ -182,7 +192,7 @@ private:
     {
         if (way == std::ios_base::cur) return seekpos(poff() + off, std::ios_base::out);
         if (way == std::ios_base::beg) return seekpos(off, std::ios_base::out);
-        if (way == std::ios_base::end) return seekpos(m_data.size() + off, std::ios_base::out);
+        if (way == std::ios_base::end) return seekpos(written() + off, std::ios_base::out);
         return super::traits_type::eof();
     }
 
-- 
2.43.0


From 69cb06e176e723e3b2507852f51f24f0d09a7b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:05 +0000
Subject: [PATCH 29/61] fix: mem_ostreambuf and mem_istreambuf could seek
 outside of the buffer

---
 include/itlib/mem_streambuf.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index c33846e..9ece7ac 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -184,6 +184,7 @@ private:
     pos_type seekpos(pos_type sp, std::ios_base::openmode) override
     {
         m_written = written();
+        if (off_type(sp) < 0 || off_type(sp) > off_type(m_written)) return pos_type(off_type(-1));
         this->setp(m_data.data() + off_type(sp), m_data.data() + m_data.size());
         return sp;
     }
@@ -250,6 +251,7 @@ public:
 private:
     pos_type seekpos(pos_type sp, std::ios_base::openmode) override
     {
+        if (off_type(sp) < 0 || off_type(sp) > off_type(size())) return pos_type(off_type(-1));
         this->setg(this->eback(), this->eback() + sp, this->egptr());
         return sp;
     }
-- 
2.43.0


From b27ecce6fae366c78c7dd1cbec4f6c82474d044b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:05 +0000
Subject: [PATCH 30/61] fix: mem_istreambuf reads of huge counts of wide
 characters escaped the bounds check

---
 include/itlib/mem_streambuf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index 9ece7ac..c7c1a75 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -266,7 +266,7 @@ private:
 
     std::streamsize xsgetn(char_type* s, std::streamsize count) override
     {
-        if (this->gptr() + count > this->egptr())
+        if (count > this->egptr() - this->gptr())
         {
             count = this->egptr() - this->gptr();
         }
-- 
2.43.0


From cd892c9f66b5c68077390e440d8c8d9f10634d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:05 +0000
Subject: [PATCH 31/61] fix: redirect_rstream did not restore the position
 after a failed read

---
 include/itlib/rstream.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/itlib/rstream.hpp b/include/itlib/rstream.hpp
index 997e51c..60febb7 100644
--- a/include/itlib/rstream.hpp
+++ b/include/itlib/rstream.hpp
@@ -117,17 +117,22 @@ public:
     basic_redirect_rstream(Stream& in, std::streampos pos)
         : basic_rstream<Stream>(in)
         , m_restore(pos)
+        , m_state(in.rdstate())
     {
+        in.clear(); // tellg and seekg do nothing otherwise
         m_restore = in.tellg();
         in.seekg(pos);
     }
 
     ~basic_redirect_rstream()
     {
+        this->m_in.clear(); // seekg does nothing after a failed read
         this->m_in.seekg(m_restore);
+        this->m_in.clear(m_state);
     }
 private:
     std::streampos m_restore;
+    std::ios_base::iostate m_state;
 };
 
 using redirect_rstream = basic_redirect_rstream<std::istream>;
-- 
2.43.0


From c2502bf9e982cc70c459a79f0a996b0d132142a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:23 +0000
Subject: [PATCH 32/61] fix: strftime never returned (or ran out of memory)
 when the result is empty

---
 include/itlib/time_t.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/itlib/time_t.hpp b/include/itlib/time_t.hpp
index ee8dd6c..35e17ce 100644
--- a/include/itlib/time_t.hpp
+++ b/include/itlib/time_t.hpp
@@ -167,11 +167,14 @@ private:
 
 inline std::string strftime(const char* format, const std::tm& tm)
 {
+    // the leading space makes every result non-empty: otherwise an empty one looks like a buffer which is too small
+    const auto fmt = std::string(1, ' ') + format;
     std::string ret;
     ret.resize(128);
     size_t len;
-    while ((len = std::strftime(&ret.front(), ret.size(), format, &tm)) == 0) ret.resize(2 * ret.size());
+    while ((len = std::strftime(&ret.front(), ret.size(), fmt.c_str(), &tm)) == 0) ret.resize(2 * ret.size());
     ret.resize(len);
+    ret.erase(0, 1);
     return ret;
 }
 
-- 
2.43.0


From d14d9087bbc392b01c6824f8500d8e5243eb6185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:04 +0000
Subject: [PATCH 33/61] fix: make_sentry of an lvalue did not compile before
 C++17

---
 include/itlib/sentry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/sentry.hpp b/include/itlib/sentry.hpp
index ccd9458..116755e 100644
--- a/include/itlib/sentry.hpp
+++ b/include/itlib/sentry.hpp
@@ -106,7 +106,7 @@ public:
     ~sentry() { m_func(); }
 #else
     sentry(sentry&& other) noexcept
-        : m_func(std::move(other.m_func))
+        : m_func(std::forward<Func>(other.m_func))
         , m_has_func(other.m_has_func)
     {
         other.m_has_func = false;
-- 
2.43.0


From 230637c36f5e3378ec341bcf20200577512e10c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:29 +0000
Subject: [PATCH 34/61] fix: generator destroyed its coroutine before
 move-assigning from itself or from within it

---
 include/itlib/generator.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/itlib/generator.hpp b/include/itlib/generator.hpp
index 0cead31..7b5a350 100644
--- a/include/itlib/generator.hpp
+++ b/include/itlib/generator.hpp
@@ -152,8 +152,10 @@ public:
     generator(generator&& other) noexcept : m_handle(std::exchange(other.m_handle, nullptr)) {}
 
     generator& operator=(generator&& other) noexcept {
+        // take the handle first: other may be this generator or live in the frame which gets destroyed
+        auto handle = std::exchange(other.m_handle, nullptr);
         if (m_handle) m_handle.destroy();
-        m_handle = std::exchange(other.m_handle, nullptr);
+        m_handle = handle;
         return *this;
     }
 
-- 
2.43.0


From 0119be1b52eab0fda118460c98b0b240a4010612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:29 +0000
Subject: [PATCH 35/61] fix: generator::begin() resumed a finished coroutine

---
 include/itlib/generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/generator.hpp b/include/itlib/generator.hpp
index 7b5a350..53f45c1 100644
--- a/include/itlib/generator.hpp
+++ b/include/itlib/generator.hpp
@@ -218,7 +218,7 @@ public:
     };
 
     pseudo_iterator begin() {
-        safe_resume(m_handle);
+        if (!done()) safe_resume(m_handle);
         return pseudo_iterator{m_handle};
     }
 
-- 
2.43.0


From eabdb4b4aa2a1c9469cf4578c56d6460551e82ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:29 +0000
Subject: [PATCH 36/61] fix: atomic_shared_ptr_storage::compare_exchange could
 destroy an object while locked

---
 include/itlib/atomic_shared_ptr_storage.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/itlib/atomic_shared_ptr_storage.hpp b/include/itlib/atomic_shared_ptr_storage.hpp
index b59a038..83437fc 100644
--- a/include/itlib/atomic_shared_ptr_storage.hpp
+++ b/include/itlib/atomic_shared_ptr_storage.hpp
@@ -119,12 +119,14 @@ public:
 
     // have _strong to match atomic<shared_ptr>
     bool compare_exchange_strong(sptr& expect, sptr ptr) noexcept {
+        sptr prev; // destroyed after unlocking: the object's destructor may use this storage
         asps_spinlock::lock_guard _l(m_spinlock);
         if (m_ptr == expect) {
             m_ptr.swap(ptr);
             return true;
         }
         else {
+            prev.swap(expect);
             expect = m_ptr;
             return false;
         }
-- 
2.43.0


From 74e532bbd2e5ef72a9fd60411e7850679c1b140c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:06 +0000
Subject: [PATCH 37/61] fix: data_mutex unlocked a mutex whose lock had thrown

---
 include/itlib/data_mutex.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/itlib/data_mutex.hpp b/include/itlib/data_mutex.hpp
index 60ffbfe..eccb3ac 100644
--- a/include/itlib/data_mutex.hpp
+++ b/include/itlib/data_mutex.hpp
@@ -76,8 +76,7 @@ public:
     protected:
         Mutex& m_mutex;
         CT* m_data;
-        lock_base_t(Mutex& mutex, CT& data) : m_mutex(mutex), m_data(&data) {}
-        lock_base_t(Mutex& mutex) : m_mutex(mutex) {}
+        lock_base_t(Mutex& mutex) : m_mutex(mutex), m_data(nullptr) {}
         ~lock_base_t() = default;
         lock_base_t(const lock_base_t&) = delete;
         lock_base_t& operator=(const lock_base_t&) = delete;
@@ -101,8 +100,9 @@ public:
     };
 
     struct unique_lock_t : public unique_lock_base_t<T> {
-        explicit unique_lock_t(data_mutex& dm) : unique_lock_base_t<T>(dm.m_mutex, dm.m_data) {
+        explicit unique_lock_t(data_mutex& dm) : unique_lock_base_t<T>(dm.m_mutex) {
             this->m_mutex.lock();
+            this->m_data = &dm.m_data;
         }
     };
 
@@ -115,8 +115,9 @@ public:
     };
 
     struct const_unique_lock_t : public unique_lock_base_t<const T> {
-        explicit const_unique_lock_t(const data_mutex& dm) : unique_lock_base_t<const T>(dm.m_mutex, dm.m_data) {
+        explicit const_unique_lock_t(const data_mutex& dm) : unique_lock_base_t<const T>(dm.m_mutex) {
             this->m_mutex.lock();
+            this->m_data = &dm.m_data;
         }
     };
 
@@ -136,8 +137,9 @@ public:
     };
 
     struct shared_lock_t : public shared_lock_base_t {
-        explicit shared_lock_t(const data_mutex& dm) : shared_lock_base_t(dm.m_mutex, dm.m_data) {
+        explicit shared_lock_t(const data_mutex& dm) : shared_lock_base_t(dm.m_mutex) {
             this->m_mutex.lock_shared();
+            this->m_data = &dm.m_data;
         }
     };
 
-- 
2.43.0


From 1351ef1d25d6e09e3045d6a7bf7829fec6cc6b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:16 +0000
Subject: [PATCH 38/61] fix: containers with a pmr_allocator could not be
 copy-constructed

---
 include/itlib/pmr_allocator.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/itlib/pmr_allocator.hpp b/include/itlib/pmr_allocator.hpp
index 33efd0f..16847cd 100644
--- a/include/itlib/pmr_allocator.hpp
+++ b/include/itlib/pmr_allocator.hpp
@@ -59,6 +59,11 @@ public:
 
     using super::polymorphic_allocator;
 
+    // the inherited one returns a polymorphic_allocator, which is not convertible to this type
+    pmr_allocator select_on_container_copy_construction() const {
+        return pmr_allocator();
+    }
+
     // leave this to the standard implementation if available
 #if __cplusplus < 202000L
     using super::resource;
-- 
2.43.0


From 3a91109a1dfbe4ff8c208364139995170207665a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:16 +0000
Subject: [PATCH 39/61] fix: pmr_allocator::allocate_object allocated too
 little when the byte count overflows

---
 include/itlib/pmr_allocator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/itlib/pmr_allocator.hpp b/include/itlib/pmr_allocator.hpp
index 16847cd..8bac5f7 100644
--- a/include/itlib/pmr_allocator.hpp
+++ b/include/itlib/pmr_allocator.hpp
@@ -48,6 +48,7 @@
 //
 #include <memory_resource>
 #include <cstddef>
+#include <new>
 
 namespace itlib {
 
@@ -78,6 +79,7 @@ public:
 
     template <class U>
     [[nodiscard]] U* allocate_object(std::size_t n = 1) {
+        if (n > std::size_t(-1) / sizeof(U)) throw std::bad_array_new_length();
         return static_cast<U*>(allocate_bytes(n * sizeof(U), alignof(U)));
     }
 
-- 
2.43.0


From 068e0d2c63b2d44f08d3a621c37fd1566c10976c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:14 +0000
Subject: [PATCH 40/61] fix: atomic_relaxed_counter of a signed type had
 undefined behavior when wrapping around

---
 include/itlib/atomic.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/itlib/atomic.hpp b/include/itlib/atomic.hpp
index 1f757ee..e382112 100644
--- a/include/itlib/atomic.hpp
+++ b/include/itlib/atomic.hpp
@@ -74,17 +74,28 @@ struct atomic_relaxed_counter {
 
     operator I() const noexcept { return load(); } // intentionally implicit
 
-    I operator++() noexcept { return a.fetch_add(1, rel) + 1; }
+    I operator++() noexcept { return add(a.fetch_add(1, rel), 1); }
     I operator++(int) noexcept { return a.fetch_add(1, rel); }
-    I operator+=(I i) noexcept { return a.fetch_add(i, rel) + i; }
-    I operator--() noexcept { return a.fetch_sub(1, rel) - 1; }
+    I operator+=(I i) noexcept { return add(a.fetch_add(i, rel), i); }
+    I operator--() noexcept { return sub(a.fetch_sub(1, rel), 1); }
     I operator--(int) noexcept { return a.fetch_sub(1, rel); }
-    I operator-=(I i) noexcept { return a.fetch_sub(i, rel) - i; }
+    I operator-=(I i) noexcept { return sub(a.fetch_sub(i, rel), i); }
 
     I operator=(I i) {
         store(i);
         return i;
     }
+
+private:
+    // wrap around like the operations of std::atomic do, also if I is signed
+    static I add(I x, I y) noexcept {
+        using U = typename std::make_unsigned<I>::type;
+        return static_cast<I>(static_cast<U>(static_cast<U>(x) + static_cast<U>(y)));
+    }
+    static I sub(I x, I y) noexcept {
+        using U = typename std::make_unsigned<I>::type;
+        return static_cast<I>(static_cast<U>(static_cast<U>(x) - static_cast<U>(y)));
+    }
 };
 
 }
-- 
2.43.0


From e2229e03d49cfd91fdd38d1977b33af1a323f9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:43 +0000
Subject: [PATCH 41/61] fix: throw_ex terminated the program if used in a
 destructor called while another exception is in flight

---
 include/itlib/throw_ex.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/itlib/throw_ex.hpp b/include/itlib/throw_ex.hpp
index fe2e2da..6010064 100644
--- a/include/itlib/throw_ex.hpp
+++ b/include/itlib/throw_ex.hpp
@@ -43,6 +43,7 @@
 //
 #pragma once
 #include <sstream>
+#include <exception>
 
 #if defined(_MSC_VER)
 #pragma warning(push)
@@ -54,13 +55,20 @@ namespace itlib {
 template <typename Exception>
 class throw_ex {
     std::ostringstream out;
+
+    // an exception which was in flight before this object was created doesn't prevent us from throwing
+#if __cplusplus >= 201700
+    const int uncaught = std::uncaught_exceptions();
+#else
+    const bool uncaught = std::uncaught_exception();
+#endif
 public:
     throw_ex() = default;
     [[noreturn]] ~throw_ex() noexcept(false) {
 #if __cplusplus >= 201700
-        if (std::uncaught_exceptions())
+        if (std::uncaught_exceptions() > uncaught)
 #else
-        if (std::uncaught_exception())
+        if (!uncaught && std::uncaught_exception())
 #endif
             std::terminate(); // should never happen but helps us avoid warnings
         throw Exception(out.str());
-- 
2.43.0


From 2c4a10049d2c100da571bdb43a148271345ffc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:48 +0000
Subject: [PATCH 42/61] fix: the transparent overloads of transparent_umap were
 never enabled (and did not compile)

---
 include/itlib/transparent_umap.hpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/itlib/transparent_umap.hpp b/include/itlib/transparent_umap.hpp
index a69436f..5c94254 100644
--- a/include/itlib/transparent_umap.hpp
+++ b/include/itlib/transparent_umap.hpp
@@ -53,6 +53,8 @@
 #include <unordered_map>
 #include <type_traits>
 #include <stdexcept>
+#include <tuple>
+#include <utility>
 
 namespace itlib {
 
@@ -61,6 +63,10 @@ template <typename T, typename = void>
 constexpr bool is_transparent = false;
 template <class T>
 constexpr bool is_transparent<T, std::void_t<typename T::is_transparent>> = true;
+
+// whether lookup by K (any type, makes this a dependent condition) is transparent
+template <typename K, typename Hash, typename KeyEqual>
+constexpr bool is_lookup_transparent = is_transparent<Hash> && is_transparent<KeyEqual>;
 } // namespace tumimpl
 
 // yes... a macro
@@ -83,13 +89,13 @@ public:
 
     // enable if transparent
     template <typename K, typename R>
-    using enable_if_tr = std::enable_if_t<tumimpl::is_transparent<K>, R>;
+    using enable_if_tr = std::enable_if_t<tumimpl::is_lookup_transparent<K, Hash, KeyEqual>, R>;
 
-    // enable if transparent and convertible
+    // enable if transparent and a key can be constructed
     template <typename K, typename R>
     using enable_if_tr_c = std::enable_if_t<
-        tumimpl::is_transparent<K>
-        && std::is_convertible_v<Key, K>
+        tumimpl::is_lookup_transparent<K, Hash, KeyEqual>
+        && std::is_constructible_v<Key, K>
         // but not iterators
         && !std::is_convertible_v<K, iterator>
         && !std::is_convertible_v<K, const_iterator>
@@ -102,15 +108,17 @@ public:
     enable_if_tr_c<K, std::pair<iterator, bool>> try_emplace(K&& key, Args&&... args) {
         auto f = this->find(key);
         if (f != this->end()) return { f, false };
-        return this->emplace(std::forward<K>(key), T(std::forward<Args>(args)...));
+        return this->emplace(std::piecewise_construct,
+            std::forward_as_tuple(std::forward<K>(key)), std::forward_as_tuple(std::forward<Args>(args)...));
     }
 
     template <typename K, typename... Args>
-    enable_if_tr<K, std::pair<iterator, bool>> try_emplace(const_iterator hint, K&& key, Args&&... args) {
+    enable_if_tr_c<K, iterator> try_emplace(const_iterator hint, K&& key, Args&&... args) {
         // what does the hint even mean?
         auto f = this->find(key);
-        if (f != this->end()) return { f, false };
-        return this->emplace_hint(hint, std::forward<K>(key), T(std::forward<Args>(args)...));
+        if (f != this->end()) return f;
+        return this->emplace_hint(hint, std::piecewise_construct,
+            std::forward_as_tuple(std::forward<K>(key)), std::forward_as_tuple(std::forward<Args>(args)...));
     }
 
     using super::operator[];
-- 
2.43.0


From 5103d562dc8f1f8963c7db68afd5be2571961c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:17 +0000
Subject: [PATCH 43/61] fix: any.hpp: missing include guard (including it twice
 did not compile)

---
 include/itlib/any.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index 2efa850..2cd00d2 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -50,7 +50,10 @@
 // You can find unit tests in the official repo:
 // https://github.com/iboB/itlib/blob/master/test/
 //
+#pragma once
+
 #include <new>
+#include <cstddef>
 #include <cstdint>
 #include <cstdlib>
 #include <utility>
-- 
2.43.0


From 45dde5c6e55b024f76c05c1c48eccb2f7ecdd5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:17 +0000
Subject: [PATCH 44/61] fix: any.hpp: unqualified nullptr_t does not compile
 when the header stands alone

---
 include/itlib/any.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index 2cd00d2..254a6de 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -281,7 +281,7 @@ private:
 };
 
 template <typename T>
-const T* any_cast(nullptr_t) { return nullptr; }
+const T* any_cast(std::nullptr_t) { return nullptr; }
 
 template <typename T, typename Alloc>
 const T* any_cast(const any<Alloc>* a) {
-- 
2.43.0


From 1ecacc924380957d5197e987c8476abb643ca350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:17 +0000
Subject: [PATCH 45/61] fix: pmr_allocator.hpp: missing include guard
 (including it twice did not compile)

---
 include/itlib/pmr_allocator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/itlib/pmr_allocator.hpp b/include/itlib/pmr_allocator.hpp
index 8bac5f7..bb836c7 100644
--- a/include/itlib/pmr_allocator.hpp
+++ b/include/itlib/pmr_allocator.hpp
@@ -46,6 +46,8 @@
 // You can find unit tests in the official repo:
 // https://github.com/iboB/itlib/blob/master/test/
 //
+#pragma once
+
 #include <memory_resource>
 #include <cstddef>
 #include <new>
-- 
2.43.0


From b8a3e3714e02d1fc09dbd058bdc854c9b32b594b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:17 +0000
Subject: [PATCH 46/61] fix: dynamic_bitset.hpp: missing include of cstddef
 (did not compile standing alone)

---
 include/itlib/dynamic_bitset.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/itlib/dynamic_bitset.hpp b/include/itlib/dynamic_bitset.hpp
index 7e54d46..ebf2fba 100644
--- a/include/itlib/dynamic_bitset.hpp
+++ b/include/itlib/dynamic_bitset.hpp
@@ -125,6 +125,7 @@
 //
 #pragma once
 
+#include <cstddef>
 #include <cstdint>
 #include <vector>
 #include <cassert>
-- 
2.43.0


From 181a5454e59d1d0861e707cde930df8d10b34519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:17 +0000
Subject: [PATCH 47/61] fix: tep_vector.hpp: missing include of cstddef (did
 not compile standing alone)

---
 include/itlib/tep_vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/itlib/tep_vector.hpp b/include/itlib/tep_vector.hpp
index fb9cf34..9b152c6 100644
--- a/include/itlib/tep_vector.hpp
+++ b/include/itlib/tep_vector.hpp
@@ -41,6 +41,7 @@
 // https://github.com/iboB/itlib/blob/master/test/
 //
 #pragma once
+#include <cstddef>
 #include <cstdint>
 
 namespace itlib {
-- 
2.43.0


From 36ceb79ca3fed98e50dc7fc05908161782910d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:25 +0000
Subject: [PATCH 48/61] fix: dynamic_bitset::bits_per_word was not defined
 before C++17 (link error on odr-use)

---
 include/itlib/dynamic_bitset.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/itlib/dynamic_bitset.hpp b/include/itlib/dynamic_bitset.hpp
index ebf2fba..6b096a3 100644
--- a/include/itlib/dynamic_bitset.hpp
+++ b/include/itlib/dynamic_bitset.hpp
@@ -438,4 +438,9 @@ private:
     size_type m_size; // doesn't need to be divisible by bits_per_word
 };
 
+#if __cplusplus < 201700
+template <typename Buffer>
+constexpr uint8_t dynamic_bitset<Buffer>::bits_per_word;
+#endif
+
 }
-- 
2.43.0


From 09785f798fa2e5fdd7ef7b202af6eedb8a8913e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:25 +0000
Subject: [PATCH 49/61] fix: static constants of small_vector were not defined
 before C++17 (link error on odr-use)

---
 include/itlib/small_vector.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index 1a0ee74..fa829a1 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -1050,6 +1050,13 @@ private:
     typename std::aligned_storage<sizeof(T), std::alignment_of<T>::value>::type m_static_data[StaticCapacity];
 };
 
+#if __cplusplus < 201700
+template<typename T, size_t StaticCapacity, size_t RevertToStaticBelow, class Alloc>
+constexpr size_t small_vector<T, StaticCapacity, RevertToStaticBelow, Alloc>::static_capacity;
+template<typename T, size_t StaticCapacity, size_t RevertToStaticBelow, class Alloc>
+constexpr intptr_t small_vector<T, StaticCapacity, RevertToStaticBelow, Alloc>::revert_to_static_below;
+#endif
+
 template<typename T,
     size_t StaticCapacityA, size_t RevertToStaticBelowA, class AllocA,
     size_t StaticCapacityB, size_t RevertToStaticBelowB, class AllocB
-- 
2.43.0


From 48c1f6c3b92b7379cb27318daea4787a048604bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:39 +0000
Subject: [PATCH 50/61] fix: small_vector.hpp: missing includes (did not
 compile with error handling NONE or ASSERT)

---
 include/itlib/small_vector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index fa829a1..fca2d49 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -155,6 +155,9 @@
 #include <type_traits>
 #include <cstddef>
 #include <memory>
+#include <cstdint>
+#include <initializer_list>
+#include <iterator>
 
 #define ITLIB_SMALL_VECTOR_ERROR_HANDLING_NONE  0
 #define ITLIB_SMALL_VECTOR_ERROR_HANDLING_THROW 1
-- 
2.43.0


From 973c1c29c4ffeb0e221f74aea36a17eacb28cc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:17 +0000
Subject: [PATCH 51/61] fix: small_vector.hpp: missing include of cassert (did
 not compile without bounds checks)

---
 include/itlib/small_vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index fca2d49..b5ff16d 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -153,6 +153,7 @@
 #pragma once
 
 #include <type_traits>
+#include <cassert>
 #include <cstddef>
 #include <memory>
 #include <cstdint>
-- 
2.43.0


From c55e8e5a342c9d7e71e95572608f0d2cc6cca41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:57 +0000
Subject: [PATCH 52/61] fix: small_vector: assignment and copy leave a valid
 vector when they throw

---
 include/itlib/small_vector.hpp | 61 +++++++++++++---------------------
 1 file changed, 23 insertions(+), 38 deletions(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index b5ff16d..074e614 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -292,7 +292,6 @@ public:
             return *this;
         }
 
-        destroy_all();
         assign_copy(v.begin(), v.end());
 
         return *this;
@@ -322,20 +321,17 @@ public:
 
     void assign(size_type count, const T& value)
     {
-        destroy_all();
         assign_fill(count, value);
     }
 
     template <class InputIterator, typename = decltype(*std::declval<InputIterator>())>
     void assign(InputIterator first, InputIterator last)
     {
-        destroy_all();
         assign_copy(first, last);
     }
 
     void assign(std::initializer_list<T> ilist)
     {
-        destroy_all();
         assign_move(ilist.begin(), ilist.end());
     }
 
@@ -935,72 +931,61 @@ private:
         return position;
     }
 
-    void assign_fill(size_type count, const T& value)
-    {
-        const auto cdr = choose_data(count);
+    struct choose_data_result {
+        T* ptr;
+        size_t cap;
+    };
 
-        m_end = cdr.ptr;
-        for (size_t i=0; i<count; ++i)
-        {
-            atraits::construct(get_alloc(), m_end, value);
-            ++m_end;
-        }
+    // destroy all elements and switch to the chosen data
+    // (when constructing the new ones throws, these are the only valid ones)
+    void reset_data(const choose_data_result& cdr)
+    {
+        destroy_all();
 
         if (!is_static() && m_begin != cdr.ptr)
         {
             atraits::deallocate(get_alloc(), m_begin, m_capacity);
         }
 
-        m_begin = cdr.ptr;
+        m_begin = m_end = cdr.ptr;
         m_capacity = cdr.cap;
     }
 
+    void assign_fill(size_type count, const T& value)
+    {
+        reset_data(choose_data(count));
+
+        for (size_t i=0; i<count; ++i)
+        {
+            atraits::construct(get_alloc(), m_end, value);
+            ++m_end;
+        }
+    }
+
     template <class InputIterator>
     void assign_copy(InputIterator first, InputIterator last)
     {
-        const auto cdr = choose_data(last - first);
+        reset_data(choose_data(last - first));
 
-        m_end = cdr.ptr;
         for (auto p = first; p != last; ++p)
         {
             atraits::construct(get_alloc(), m_end, *p);
             ++m_end;
         }
-
-        if (!is_static() && m_begin != cdr.ptr)
-        {
-            atraits::deallocate(get_alloc(), m_begin, m_capacity);
-        }
-
-        m_begin = cdr.ptr;
-        m_capacity = cdr.cap;
     }
 
     template <class InputIterator>
     void assign_move(InputIterator first, InputIterator last)
     {
-        const auto cdr = choose_data(last - first);
+        reset_data(choose_data(last - first));
 
-        m_end = cdr.ptr;
         for (auto p = first; p != last; ++p)
         {
             atraits::construct(get_alloc(), m_end, std::move(*p));
             ++m_end;
         }
-
-        if (!is_static() && m_begin != cdr.ptr)
-        {
-            atraits::deallocate(get_alloc(), m_begin, m_capacity);
-        }
-
-        m_begin = cdr.ptr;
-        m_capacity = cdr.cap;
     }
 
-    struct choose_data_result {
-        T* ptr;
-        size_t cap;
-    };
     choose_data_result choose_data(size_t desired_capacity)
     {
         choose_data_result ret = {m_begin, m_capacity};
-- 
2.43.0


From ae0bc56c320417a50b4288cd362eeb8c174b60a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:57 +0000
Subject: [PATCH 53/61] fix: small_vector: an element which could not be
 constructed is not added

---
 include/itlib/small_vector.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index 074e614..9abfca6 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -659,9 +659,9 @@ public:
             return pos;
         }
 
-        auto pos = grow_at(position, 1);
-        atraits::construct(get_alloc(), pos, std::forward<Args>(args)...);
-        return pos;
+        // don't count the element before it's constructed
+        atraits::construct(get_alloc(), m_end, std::forward<Args>(args)...);
+        return m_end++;
     }
 
     iterator erase(const_iterator position)
@@ -716,7 +716,8 @@ public:
 
         while (new_end > m_end)
         {
-            atraits::construct(get_alloc(), m_end++, v);
+            atraits::construct(get_alloc(), m_end, v);
+            ++m_end;
         }
     }
 
@@ -733,7 +734,8 @@ public:
 
         while (new_end > m_end)
         {
-            atraits::construct(get_alloc(), m_end++);
+            atraits::construct(get_alloc(), m_end);
+            ++m_end;
         }
     }
 
-- 
2.43.0


From 69d1440d8387b244811134bdffa527cda9cf2ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:57 +0000
Subject: [PATCH 54/61] fix: small_vector: an insertion which throws leaves no
 hole in the vector

---
 include/itlib/small_vector.hpp | 44 +++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index 9abfca6..502fbde 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -614,9 +614,10 @@ private:
     iterator insert_fill(const_iterator position, size_type count, const value_type& val)
     {
         auto pos = grow_at(position, count);
-        for (size_type i = 0; i < count; ++i)
+        hole_filler hole(*this, pos, count);
+        for (; hole.cur != hole.end; ++hole.cur)
         {
-            atraits::construct(get_alloc(), pos + i, val);
+            atraits::construct(get_alloc(), hole.cur, val);
         }
         return pos;
     }
@@ -626,10 +627,10 @@ public:
     iterator insert(const_iterator position, InputIterator first, InputIterator last)
     {
         auto pos = grow_at(position, last - first);
-        auto np = pos;
-        for (auto p = first; p != last; ++p, ++np)
+        hole_filler hole(*this, pos, last - first);
+        for (auto p = first; p != last; ++p, ++hole.cur)
         {
-            atraits::construct(get_alloc(), np, *p);
+            atraits::construct(get_alloc(), hole.cur, *p);
         }
         return pos;
     }
@@ -637,11 +638,11 @@ public:
     iterator insert(const_iterator position, std::initializer_list<T> ilist)
     {
         auto pos = grow_at(position, ilist.size());
-        size_type i = 0;
+        hole_filler hole(*this, pos, ilist.size());
         for (auto& elem : ilist)
         {
-            atraits::construct(get_alloc(), pos + i, std::move(elem));
-            ++i;
+            atraits::construct(get_alloc(), hole.cur, std::move(elem));
+            ++hole.cur;
         }
         return pos;
     }
@@ -863,6 +864,33 @@ private:
         }
     }
 
+    // closes the hole made by grow_at, if constructing the elements in it throws
+    struct hole_filler
+    {
+        hole_filler(small_vector& v, T* pos, size_t num) : vec(v), begin(pos), cur(pos), end(pos + num) {}
+        ~hole_filler()
+        {
+            if (cur == end) return; // filled
+
+            while (cur != begin)
+            {
+                atraits::destroy(vec.get_alloc(), --cur);
+            }
+
+            for (auto p = end; p != vec.m_end; ++p, ++cur)
+            {
+                atraits::construct(vec.get_alloc(), cur, std::move(*p));
+                atraits::destroy(vec.get_alloc(), p);
+            }
+
+            vec.m_end = cur;
+        }
+        small_vector& vec;
+        T* const begin;
+        T* cur;
+        T* const end;
+    };
+
     T* shrink_at(const T* cp, size_t num)
     {
         auto position = const_cast<T*>(cp);
-- 
2.43.0


From 73ac815535f2b42238116e2b6e5d5d5fb9c9a3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:57 +0000
Subject: [PATCH 55/61] fix: small_vector: growing to impossible sizes throws
 instead of overflowing or hanging

---
 include/itlib/small_vector.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index 502fbde..305d176 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -808,7 +808,8 @@ private:
 
         // only size-reducing operations revert to the static buffer
         // (so growth within the capacity, say after reserve, must keep the elements in place)
-        const auto cdr = s + num <= m_capacity ? choose_data_result{m_begin, m_capacity} : choose_data(s + num);
+        // (s + num may overflow: let the allocator refuse that)
+        const auto cdr = num <= m_capacity - s ? choose_data_result{m_begin, m_capacity} : choose_data(num <= size_t(-1) - s ? s + num : size_t(-1));
 
         if (cdr.ptr == m_begin)
         {
@@ -1028,6 +1029,13 @@ private:
             {
                 while (ret.cap < desired_capacity)
                 {
+                    if (ret.cap > size_t(-1) / 4)
+                    {
+                        // growing more would overflow
+                        ret.cap = desired_capacity;
+                        break;
+                    }
+
                     // grow by roughly 1.5
                     ret.cap *= 3;
                     ++ret.cap;
-- 
2.43.0


From 4fe02bf289e712a240baf822dd592f26e837b939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:34 +0000
Subject: [PATCH 56/61] fix: static_vector: a constructor which throws destroys
 the elements it constructed

---
 include/itlib/static_vector.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index 89bd0b7..b784ee7 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -184,28 +184,35 @@ public:
 
     static_vector(allocator_type) {}
 
+    // constructors which may throw delegate, so that the elements constructed until then are destroyed
+
     explicit static_vector(size_t count, allocator_type = {})
+        : static_vector()
     {
         resize(count);
     }
 
     static_vector(size_t count, const T& value, allocator_type = {})
+        : static_vector()
     {
         assign_impl_val(count, value);
     }
 
     template <class InputIterator, typename = decltype(*std::declval<InputIterator>())>
     static_vector(InputIterator first, InputIterator last, allocator_type = {})
+        : static_vector()
     {
         assign_impl_iter(first, last);
     }
 
     static_vector(std::initializer_list<T> l, allocator_type = {})
+        : static_vector()
     {
         assign_impl_ilist(l);
     }
 
     static_vector(const static_vector& v)
+        : static_vector()
     {
         for (const auto& i : v)
         {
@@ -215,6 +222,7 @@ public:
 
     template <size_t CapacityB>
     static_vector(const static_vector<T, CapacityB>& v)
+        : static_vector()
     {
         I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(v.size() > Capacity);
 
-- 
2.43.0


From 122d4b7208a66d2f7ea81affadf2fced687d7482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:34 +0000
Subject: [PATCH 57/61] fix: static_vector: an insertion which throws leaves no
 hole in the vector

---
 include/itlib/static_vector.hpp | 60 ++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 15 deletions(-)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index b784ee7..4856808 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -494,10 +494,10 @@ public:
     iterator insert(const_iterator position, InputIterator first, InputIterator last)
     {
         auto pos = grow_at(position, last - first);
-        auto np = pos;
-        for (auto p = first; p != last; ++p, ++np)
+        hole_filler hole(*this, pos, last - first);
+        for (auto p = first; p != last; ++p, ++hole.cur)
         {
-            ::new (np) T(*p);
+            ::new (hole.cur) T(*p);
         }
         return pos;
     }
@@ -505,11 +505,11 @@ public:
     iterator insert(const_iterator position, std::initializer_list<T> ilist)
     {
         auto pos = grow_at(position, ilist.size());
-        size_type i = 0;
+        hole_filler hole(*this, pos, ilist.size());
         for (auto& elem : ilist)
         {
-            ::new (pos + i) T(std::move(elem));
-            ++i;
+            ::new (hole.cur) T(std::move(elem));
+            ++hole.cur;
         }
         return pos;
     }
@@ -517,17 +517,18 @@ public:
     template<typename... Args>
     iterator emplace(const_iterator position, Args&&... args)
     {
-        if (position != cend() && size() < Capacity)
+        if (position == cend())
         {
-            // args may refer to elements of this vector
-            value_type val(std::forward<Args>(args)...);
-            auto pos = grow_at(position, 1);
-            ::new (pos) T(std::move(val));
-            return pos;
+            emplace_back(std::forward<Args>(args)...);
+            return end() - 1;
         }
 
+        I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(size() >= Capacity);
+
+        // args may refer to elements of this vector
+        value_type val(std::forward<Args>(args)...);
         auto pos = grow_at(position, 1);
-        ::new (pos) T(std::forward<Args>(args)...);
+        ::new (pos) T(std::move(val));
         return pos;
     }
 
@@ -607,9 +608,10 @@ private:
     iterator insert_fill(const_iterator position, size_type count, const value_type& val)
     {
         auto pos = grow_at(position, count);
-        for (size_type i = 0; i < count; ++i)
+        hole_filler hole(*this, pos, count);
+        for (; hole.cur != hole.end; ++hole.cur)
         {
-            ::new (pos + i) T(val);
+            ::new (hole.cur) T(val);
         }
         return pos;
     }
@@ -662,6 +664,34 @@ private:
         return position;
     }
 
+    // closes the hole made by grow_at, if constructing the elements in it throws
+    struct hole_filler
+    {
+        hole_filler(static_vector& v, T* pos, size_t num) : vec(v), begin(pos), cur(pos), end(pos + num) {}
+        ~hole_filler()
+        {
+            if (cur == end) return; // filled
+
+            while (cur != begin)
+            {
+                (--cur)->~T();
+            }
+
+            const auto vend = vec.end();
+            for (auto p = end; p != vend; ++p, ++cur)
+            {
+                ::new (cur) T(std::move(*p));
+                p->~T();
+            }
+
+            vec.m_size -= end - begin;
+        }
+        static_vector& vec;
+        T* const begin;
+        T* cur;
+        T* const end;
+    };
+
     T* shrink_at(const T* cp, size_t num)
     {
         I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(num > size());
-- 
2.43.0


From 0332fe9a5a9f92878e399ee34f1c484246f49983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:34 +0000
Subject: [PATCH 58/61] fix: pod_vector: assignment keeps its buffer when the
 allocator throws

---
 include/itlib/pod_vector.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/itlib/pod_vector.hpp b/include/itlib/pod_vector.hpp
index 842f812..239d33f 100644
--- a/include/itlib/pod_vector.hpp
+++ b/include/itlib/pod_vector.hpp
@@ -779,10 +779,14 @@ private:
     {
         if (capacity <= m_capacity) return;
 
+        // the allocator may throw, so let go of the old buffer only when there's a new one
+        const auto new_cap = get_new_capacity(capacity);
+        const auto new_buf = pointer(a_malloc(new_cap));
+
         a_free_begin();
 
-        m_capacity = get_new_capacity(capacity);
-        m_begin = m_end = pointer(a_malloc(m_capacity));
+        m_capacity = new_cap;
+        m_begin = m_end = new_buf;
     }
 
     // fill empty vector with given value
-- 
2.43.0


From 156ba0955fbe45fbe726073708002d70592246c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:34 +0000
Subject: [PATCH 59/61] fix: flat_map, flat_set: a copy assignment which throws
 leaves a valid map or set

---
 include/itlib/flat_map.hpp | 10 +++++++++-
 include/itlib/flat_set.hpp | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/itlib/flat_map.hpp b/include/itlib/flat_map.hpp
index f2a7d79..0a97d5b 100644
--- a/include/itlib/flat_map.hpp
+++ b/include/itlib/flat_map.hpp
@@ -195,7 +195,15 @@ public:
     {}
 
     flat_map(const flat_map& x) = default;
-    flat_map& operator=(const flat_map& x) = default;
+    flat_map& operator=(const flat_map& x)
+    {
+        if (this == &x) return *this; // prevent self usurp
+        // copying may throw: don't leave a mix of old and new elements, or old ones with a new comparator
+        m_container.clear();
+        cmp() = x.cmp();
+        m_container = x.m_container;
+        return *this;
+    }
 
     flat_map(flat_map&& x) noexcept = default;
     flat_map& operator=(flat_map&& x) noexcept = default;
diff --git a/include/itlib/flat_set.hpp b/include/itlib/flat_set.hpp
index 53f03a6..8a6a238 100644
--- a/include/itlib/flat_set.hpp
+++ b/include/itlib/flat_set.hpp
@@ -161,7 +161,15 @@ public:
     {}
 
     flat_set(const flat_set& x) = default;
-    flat_set& operator=(const flat_set& x) = default;
+    flat_set& operator=(const flat_set& x)
+    {
+        if (this == &x) return *this; // prevent self usurp
+        // copying may throw: don't leave a mix of old and new elements, or old ones with a new comparator
+        m_container.clear();
+        cmp() = x.cmp();
+        m_container = x.m_container;
+        return *this;
+    }
 
     flat_set(flat_set&& x) noexcept = default;
     flat_set& operator=(flat_set&& x) noexcept = default;
-- 
2.43.0


From 0c0c3a5372eac920168fbdc36a6f50f25fa31901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:34 +0000
Subject: [PATCH 60/61] fix: dynamic_bitset: a resize which throws leaves the
 size as it was

---
 include/itlib/dynamic_bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/dynamic_bitset.hpp b/include/itlib/dynamic_bitset.hpp
index 6b096a3..a505a38 100644
--- a/include/itlib/dynamic_bitset.hpp
+++ b/include/itlib/dynamic_bitset.hpp
@@ -261,8 +261,8 @@ public:
             // clear the tail of the buf with zeroes in case they remain from previous ops
             m_buf.back() &= word_mask(pad) - 1;
         }
-        m_size = size;
         m_buf.resize(word_size(size));
+        m_size = size;
     }
     void push_back(bool b)
     {
-- 
2.43.0


From 807f4d727906754f33cb8d653bcc7a943dd17d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:34 +0000
Subject: [PATCH 61/61] fix: dynamic_bitset: the number of words does not
 overflow for huge sizes

---
 include/itlib/dynamic_bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/dynamic_bitset.hpp b/include/itlib/dynamic_bitset.hpp
index a505a38..5f25144 100644
--- a/include/itlib/dynamic_bitset.hpp
+++ b/include/itlib/dynamic_bitset.hpp
@@ -415,7 +415,7 @@ public:
     // required word size for a given bit size
     static constexpr buffer_size_type word_size(size_type size) noexcept
     {
-        return (size + bits_per_word - 1) / bits_per_word;
+        return size / bits_per_word + (size % bits_per_word ? 1 : 0);
     }
     // index of a word in buffer for a given bit index
     static constexpr buffer_size_type word_index(size_type i) noexcept
-- 
2.43.0

