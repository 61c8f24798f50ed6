From c442cb5e9bcb8cd3c06a6862c7c0b4a5f0bdb116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:02 +0000
Subject: [PATCH 01/30] fix: vector::clear() did not compile (destroy takes no
 allocator)

---
 nestl/implementation/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 2dcbdb8..cbd5ce3 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -553,7 +553,7 @@ vector<T, A>::shrink_to_fit_nothrow(OperationError& err) NESTL_NOEXCEPT_SPEC
 template <typename T, typename A>
 void vector<T, A>::clear() NESTL_NOEXCEPT_SPEC
 {
-    nestl::detail::destroy(m_allocator, m_start, m_finish);
+    nestl::detail::destroy(m_start, m_finish);
     m_finish = m_start;
 }
 
-- 
2.43.0


From 5d84a79b563b30dbdd363d35d45e8255f4f7b8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:36 +0000
Subject: [PATCH 02/30] fix: vector::resize_nothrow reallocated although the
 capacity sufficed

---
 nestl/implementation/vector.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index cbd5ce3..bf66202 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -775,10 +775,13 @@ vector<T, A>::do_resize(OperationError& err, size_type count, Args&& ... args) N
     }
     else
     {
-        grow(err, count);
-        if (err)
+        if (count > capacity())
         {
-            return;
+            grow(err, count);
+            if (err)
+            {
+                return;
+            }
         }
 
         while (m_finish < m_start + count)
-- 
2.43.0


From 9b2168f5385401fd33d277a994a0dc65aa22f17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:01 +0000
Subject: [PATCH 03/30] fix: vector::assign_nothrow replaced the allocator by a
 default constructed one

---
 nestl/implementation/vector.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index bf66202..c25ccd9 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -311,7 +311,11 @@ template <typename OperationError>
 void
 vector<T, A>::assign_nothrow(OperationError& err, size_type n, const_reference val) NESTL_NOEXCEPT_SPEC
 {
-    vector tmp; tmp.swap(*this);
+    // old content goes away at exit: the source may refer to it
+    nestl::detail::deallocation_scoped_guard<pointer, allocator_type> deallocateOld(m_allocator, m_start, capacity());
+    pointer oldFinish = m_finish;
+    nestl::detail::destruction_scoped_guard<pointer> destroyOld(m_start, oldFinish);
+    m_start = m_finish = m_end_of_storage = 0;
 
     assert(empty());
 
@@ -337,7 +341,11 @@ template <typename OperationError, typename InputIterator>
 void
 vector<T, A>::assign_nothrow(OperationError& err, InputIterator first, InputIterator last) NESTL_NOEXCEPT_SPEC
 {
-    vector tmp; tmp.swap(*this);
+    // old content goes away at exit: the source may refer to it
+    nestl::detail::deallocation_scoped_guard<pointer, allocator_type> deallocateOld(m_allocator, m_start, capacity());
+    pointer oldFinish = m_finish;
+    nestl::detail::destruction_scoped_guard<pointer> destroyOld(m_start, oldFinish);
+    m_start = m_finish = m_end_of_storage = 0;
 
     assign_iterator(err, typename std::iterator_traits<InputIterator>::iterator_category(), first, last);
 }
-- 
2.43.0


From ec0c65af4f0636fae68c1e3594ef6dd860dd83e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:47 +0000
Subject: [PATCH 04/30] fix: vector move assignment took the storage without
 the allocator owning it

---
 nestl/implementation/vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index c25ccd9..82a49d2 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -656,6 +656,7 @@ void vector<T, A>::move_assign(const std::true_type& /* true_val */, vector&& ot
 {
 	const vector destroyContentAtExit(std::move(*this));
 
+    m_allocator = other.m_allocator;
     this->swap_data(other);
 }
 
-- 
2.43.0


From 641a102a57ac4b83cabfe86c7468b087fc128e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:53 +0000
Subject: [PATCH 05/30] fix: vector range insert did not compile (NESTL_ASSERT
 does not exist)

---
 nestl/implementation/vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 82a49d2..f92a3e7 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -752,13 +752,13 @@ template <typename OperationError, typename InputIterator>
 typename vector<T, A>::iterator
 vector<T, A>::insert_range(OperationError& err, const_iterator pos, InputIterator first, InputIterator last) NESTL_NOEXCEPT_SPEC
 {
-    NESTL_ASSERT(pos >= m_start);
-    NESTL_ASSERT(pos <= m_finish);
+    assert(pos >= m_start);
+    assert(pos <= m_finish);
 
     /// we should calculate offset before possible reallocation
     size_t offset = pos - m_start;
 
-    iterator res;
+    iterator res = m_start + offset;
     for ( ; first != last; ++first, ++offset)
     {
         const_iterator newPos = m_start + offset;
-- 
2.43.0


From 343116ea2c2a554dae70f2057c98023c3106d554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:01 +0000
Subject: [PATCH 06/30] fix: byte size of a huge request wrapped around in
 allocator::allocate and vector::max_size

---
 nestl/allocator.hpp             | 6 ++++++
 nestl/implementation/vector.hpp | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/nestl/allocator.hpp b/nestl/allocator.hpp
index f225311..849c377 100644
--- a/nestl/allocator.hpp
+++ b/nestl/allocator.hpp
@@ -51,6 +51,12 @@ public:
     template<typename OperationError>
     pointer allocate(OperationError& err, size_type n, const void* /* hint */ = 0) NESTL_NOEXCEPT_SPEC
     {
+        if (n > std::numeric_limits<size_type>::max() / sizeof(value_type))
+        {
+            build_bad_alloc(err);
+            return nullptr;
+        }
+
         pointer res = static_cast<pointer>(::operator new(n * sizeof(value_type), std::nothrow));
         if (res == nullptr)
         {
diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index f92a3e7..f924bf0 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -515,7 +515,7 @@ template <typename T, typename A>
 typename vector<T, A>::size_type
 vector<T, A>::max_size() const NESTL_NOEXCEPT_SPEC
 {
-    return std::numeric_limits<size_type>::max();
+    return static_cast<size_type>(std::numeric_limits<difference_type>::max()) / sizeof(value_type);
 }
 
 template <typename T, typename A>
-- 
2.43.0


From c2b3d7d5c2093f0f7c54c1d20b8a614fc6d905c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:07 +0000
Subject: [PATCH 07/30] fix: two_phase_initializator<vector> lacked init,
 nested vectors did not compile

---
 nestl/implementation/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index f924bf0..855bc26 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -214,7 +214,7 @@ struct two_phase_initializator<nestl::impl::vector<T, Allocator>>
     typedef nestl::impl::vector<T, Allocator> vector_t;
 
     template <typename OperationError>
-    static void construct(OperationError& err, vector_t& defaultConstructed, const vector_t& other) NESTL_NOEXCEPT_SPEC
+    static void init(OperationError& err, vector_t& defaultConstructed, const vector_t& other) NESTL_NOEXCEPT_SPEC
     {
         defaultConstructed.copy_nothrow(err, other);
     }
-- 
2.43.0


From 9c8146fc86df654bd777cdb64251aed35549f075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:15 +0000
Subject: [PATCH 08/30] fix: class_operations::assign tested assignability to
 an rvalue, scalars were rejected without exceptions

---
 nestl/has_exceptions/detail/class_operations.hpp | 4 ++--
 nestl/no_exceptions/detail/class_operations.hpp  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nestl/has_exceptions/detail/class_operations.hpp b/nestl/has_exceptions/detail/class_operations.hpp
index d64da3f..fe7b017 100644
--- a/nestl/has_exceptions/detail/class_operations.hpp
+++ b/nestl/has_exceptions/detail/class_operations.hpp
@@ -43,7 +43,7 @@ struct class_operations_helper
 
     template <typename T, typename OperationError, typename Y>
     static
-        typename std::enable_if<std::is_nothrow_assignable<T, Y>::value>::type
+        typename std::enable_if<std::is_nothrow_assignable<T&, Y>::value>::type
         assign(OperationError& /* err */, T& dest, Y&& src) NESTL_NOEXCEPT_SPEC
     {
         dest = std::forward<Y>(src);
@@ -51,7 +51,7 @@ struct class_operations_helper
 
     template <typename T, typename OperationError, typename Y>
     static
-    typename std::enable_if<!std::is_nothrow_assignable<T, Y>::value>::type
+    typename std::enable_if<!std::is_nothrow_assignable<T&, Y>::value>::type
     assign(OperationError& err, T& dest, Y&& src) NESTL_NOEXCEPT_SPEC
     {
         try
diff --git a/nestl/no_exceptions/detail/class_operations.hpp b/nestl/no_exceptions/detail/class_operations.hpp
index 5189649..b3165e7 100644
--- a/nestl/no_exceptions/detail/class_operations.hpp
+++ b/nestl/no_exceptions/detail/class_operations.hpp
@@ -27,7 +27,7 @@ struct class_operations_helper
 
     template <typename T, typename OperationError, typename Y>
     static
-    typename std::enable_if<std::is_nothrow_assignable<T, Y>::value>::type
+    typename std::enable_if<std::is_nothrow_assignable<T&, Y>::value>::type
     assign(OperationError& /* err */, T& dest, Y&& src) NESTL_NOEXCEPT_SPEC
     {
         dest = std::forward<Y>(src);
-- 
2.43.0


From 14c13b555c45d4575f41cc514d8a27a858515a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:17 +0000
Subject: [PATCH 09/30] fix: vector insertion of one of its own elements read
 moved or freed storage

---
 nestl/implementation/vector.hpp | 91 +++++++++++++++++++++++++++++++--
 1 file changed, 86 insertions(+), 5 deletions(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 855bc26..73e189f 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -6,6 +6,7 @@
 #include <nestl/allocator.hpp>
 #include <nestl/allocator_traits.hpp>
 #include <nestl/algorithm.hpp>
+#include <nestl/alignment.hpp>
 #include <nestl/class_operations.hpp>
 
 #include <nestl/detail/destroy.hpp>
@@ -193,6 +194,9 @@ private:
     template <typename OperationError, typename ... Args>
     iterator insert_value(OperationError& err, const_iterator pos, Args&& ... args) NESTL_NOEXCEPT_SPEC;
 
+    template <typename OperationError, typename ... Args>
+    iterator insert_value_with_reallocation(OperationError& err, size_type offset, Args&& ... args) NESTL_NOEXCEPT_SPEC;
+
     template <typename OperationError, typename InputIterator>
     iterator insert_range(OperationError& err, const_iterator pos, InputIterator first, InputIterator last) NESTL_NOEXCEPT_SPEC;
 
@@ -715,16 +719,36 @@ vector<T, A>::insert_value(OperationError& err, const_iterator pos, Args&& ... a
 
     if (capacity() == size())
     {
-        grow(err, capacity() + 1);
+        return insert_value_with_reallocation(err, offset, std::forward<Args>(args) ...);
+    }
+    assert(capacity() > size());
+
+    value_type* last = m_finish;
+    value_type* first = m_start + offset;
+    if (first == last)
+    {
+        nestl::class_operations::construct(err, first, std::forward<Args>(args) ...);
         if (err)
         {
             return end();
         }
+
+        ++m_finish;
+        return first;
     }
-    assert(capacity() > size());
 
-    value_type* last = m_finish;
-    value_type* first = m_start + offset;
+    // args may refer to an element of this vector, so build new value before shifting
+    nestl::aligned_buffer<value_type> buffer;
+    value_type* newValue = buffer.ptr();
+    value_type* newValueEnd = newValue;
+    nestl::detail::destruction_scoped_guard<value_type*> newValueGuard(newValue, newValueEnd);
+    nestl::class_operations::construct(err, newValue, std::forward<Args>(args) ...);
+    if (err)
+    {
+        return end();
+    }
+    ++newValueEnd;
+
     for (value_type* val = last; val != first; --val)
     {
         value_type* oldLocation = val - 1;
@@ -737,7 +761,7 @@ vector<T, A>::insert_value(OperationError& err, const_iterator pos, Args&& ... a
     }
 
 
-	nestl::class_operations::construct(err, first, std::forward<Args>(args) ...);
+	nestl::class_operations::construct(err, first, std::move(*newValue));
     if (err)
     {
         return end();
@@ -747,6 +771,63 @@ vector<T, A>::insert_value(OperationError& err, const_iterator pos, Args&& ... a
     return first;
 }
 
+template <typename T, typename A>
+template <typename OperationError, typename ... Args>
+typename vector<T, A>::iterator
+vector<T, A>::insert_value_with_reallocation(OperationError& err, size_type offset, Args&& ... args) NESTL_NOEXCEPT_SPEC
+{
+    const size_type new_cap = (((capacity() + 1) * 3) / 2);
+    if (new_cap > max_size())
+    {
+        build_length_error(err);
+        return end();
+    }
+
+    pointer ptr = allocator_traits<allocator_type>::allocate(err, m_allocator, new_cap);
+    if (err)
+    {
+        return end();
+    }
+    nestl::detail::deallocation_scoped_guard<pointer, allocator_type> guard(m_allocator, ptr, new_cap);
+
+    // args may refer to an element of this vector, so build new value while old ones are intact
+    pointer inserted = ptr + offset;
+    pointer insertedEnd = inserted;
+    nestl::detail::destruction_scoped_guard<pointer> insertedGuard(inserted, insertedEnd);
+    nestl::class_operations::construct(err, inserted, std::forward<Args>(args) ...);
+    if (err)
+    {
+        return end();
+    }
+    ++insertedEnd;
+
+    pointer prefixEnd = nestl::detail::uninitialised_copy(err, m_start, m_start + offset, ptr);
+    if (err)
+    {
+        return end();
+    }
+    nestl::detail::destruction_scoped_guard<pointer> prefixGuard(ptr, prefixEnd);
+
+    pointer newFinish = nestl::detail::uninitialised_copy(err, m_start + offset, m_finish, insertedEnd);
+    if (err)
+    {
+        return end();
+    }
+
+    nestl::detail::destroy(m_start, m_finish);
+    m_allocator.deallocate(m_start, m_end_of_storage - m_start);
+
+    m_start = ptr;
+    m_finish = newFinish;
+    m_end_of_storage = ptr + new_cap;
+
+    prefixGuard.release();
+    insertedGuard.release();
+    guard.release();
+
+    return inserted;
+}
+
 template <typename T, typename A>
 template <typename OperationError, typename InputIterator>
 typename vector<T, A>::iterator
-- 
2.43.0


From a6c1f81c48db90212c75903f7769897ebe574732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:40 +0000
Subject: [PATCH 10/30] fix: vector insertion failing while shifting destroyed
 an element twice and leaked others

---
 nestl/implementation/vector.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 73e189f..fb6d360 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -755,6 +755,9 @@ vector<T, A>::insert_value(OperationError& err, const_iterator pos, Args&& ... a
         nestl::class_operations::construct(err, val, *oldLocation);
         if (err)
         {
+            // there is a hole at val: drop already shifted elements behind it
+            nestl::detail::destroy(val + 1, last + 1);
+            m_finish = val;
             return end();
         }
         nestl::detail::destroy(oldLocation, val);
@@ -764,6 +767,8 @@ vector<T, A>::insert_value(OperationError& err, const_iterator pos, Args&& ... a
 	nestl::class_operations::construct(err, first, std::move(*newValue));
     if (err)
     {
+        nestl::detail::destroy(first + 1, last + 1);
+        m_finish = first;
         return end();
     }
 
-- 
2.43.0


From d8b602f78dcbbc38136c1e89c98f932997e9a50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:46 +0000
Subject: [PATCH 11/30] fix: vector::resize_nothrow with one of its own
 elements as value read freed storage

---
 nestl/implementation/vector.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index fb6d360..2da5cbb 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -635,6 +635,24 @@ template <typename OperationError>
 void
 vector<T, A>::resize_nothrow(OperationError& err, size_type count, const value_type& value) NESTL_NOEXCEPT_SPEC
 {
+    if (count > capacity())
+    {
+        // value may refer to an element of this vector, do_resize destroys them on reallocation
+        nestl::aligned_buffer<value_type> buffer;
+        value_type* copy = buffer.ptr();
+        value_type* copyEnd = copy;
+        nestl::detail::destruction_scoped_guard<value_type*> guard(copy, copyEnd);
+        nestl::class_operations::construct(err, copy, value);
+        if (err)
+        {
+            return;
+        }
+        ++copyEnd;
+
+        do_resize(err, count, static_cast<const value_type&>(*copy));
+        return;
+    }
+
     do_resize(err, count, value);
 }
 
-- 
2.43.0


From a6cd4f8216f3b16dd7f61af18d8abf2d1d41ab4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:53 +0000
Subject: [PATCH 12/30] fix: list copy, assign_nothrow and swap separated nodes
 from the allocator owning them

---
 nestl/has_exceptions/list.hpp |  1 +
 nestl/implementation/list.hpp | 11 ++++++-----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/nestl/has_exceptions/list.hpp b/nestl/has_exceptions/list.hpp
index 71bb59e..05cfe9d 100644
--- a/nestl/has_exceptions/list.hpp
+++ b/nestl/has_exceptions/list.hpp
@@ -47,6 +47,7 @@ public:
     }
 
     list(const list& other)
+        : base_t(other.get_allocator())
     {
         default_operation_error err;
         this->copy_nothrow(err, other);
diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index e66632b..652aae4 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -716,7 +716,7 @@ template <typename OperationError>
 void
 list<T, A>::assign_nothrow(OperationError& err, size_type n, const_reference val) NESTL_NOEXCEPT_SPEC
 {
-    list tmp; tmp.swap(*this);
+    list tmp(get_allocator()); tmp.swap(*this);
 
     while (n > 0)
     {
@@ -736,7 +736,7 @@ template <typename OperationError, typename InputIterator>
 void
 list<T, A>::assign_nothrow(OperationError& err, InputIterator first, InputIterator last) NESTL_NOEXCEPT_SPEC
 {
-    list tmp; tmp.swap(*this);
+    list tmp(get_allocator()); tmp.swap(*this);
 
     while (first != last)
     {
@@ -1061,6 +1061,7 @@ template <typename T, typename A>
 void
 list<T, A>::swap(list& other) NESTL_NOEXCEPT_SPEC
 {
+    std::swap(m_node_allocator, other.m_node_allocator);
     swap_data(other);
 }
 
@@ -1205,10 +1206,10 @@ list<T, A>::sort(Compare comp) NESTL_NOEXCEPT_SPEC
             for(counter = &tmp[0]; counter != fill && !counter->empty(); ++counter)
             {
                 counter->merge(carry, comp);
-                carry.swap(*counter);
+                carry.swap_data(*counter);
             }
 
-            carry.swap(*counter);
+            carry.swap_data(*counter);
             if (counter == fill)
             {
                 ++fill;
@@ -1220,7 +1221,7 @@ list<T, A>::sort(Compare comp) NESTL_NOEXCEPT_SPEC
         {
             counter->merge(*(counter - 1), comp);
         }
-        swap( *(fill - 1) );
+        swap_data( *(fill - 1) );
     }
 }
 
-- 
2.43.0


From 967392a6b1e491e58f2bc545a9df6631ede4640e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:01 +0000
Subject: [PATCH 13/30] fix: list move assignment did not compile

---
 nestl/has_exceptions/list.hpp | 3 ++-
 nestl/implementation/list.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/nestl/has_exceptions/list.hpp b/nestl/has_exceptions/list.hpp
index 05cfe9d..4ba8469 100644
--- a/nestl/has_exceptions/list.hpp
+++ b/nestl/has_exceptions/list.hpp
@@ -43,7 +43,8 @@ public:
 
     list& operator=(list&& other) NESTL_NOEXCEPT_SPEC
     {
-        return base_t::operator=(other);
+        base_t::operator=(std::move(other));
+        return *this;
     }
 
     list(const list& other)
diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index 652aae4..dcce2d4 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -698,7 +698,7 @@ typename list<T, A>::allocator_type list<T, A>::get_allocator() const NESTL_NOEX
 template <typename T, typename A>
 list<T, A>& list<T, A>::operator=(list&& other) NESTL_NOEXCEPT_SPEC
 {
-    this->move_assign(typename nestl::allocator_traits<node_allocator_type>::propagate_on_container_move_assignment(), other);
+    this->move_assign(typename nestl::allocator_traits<node_allocator_type>::propagate_on_container_move_assignment(), std::move(other));
 
     return *this;
 }
@@ -1265,6 +1265,7 @@ void
 list<T, A>::move_assign(const std::true_type& /* true_val */, list&& other) NESTL_NOEXCEPT_SPEC
 {
     const list tmp(std::move(*this));
+    m_node_allocator = other.m_node_allocator;
     this->swap_data(other);
 }
 
-- 
2.43.0


From 142dd1cb04d51d4b325caffaf1b47f5cbc8fcf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:22 +0000
Subject: [PATCH 14/30] fix: list::copy_nothrow from itself never terminated

---
 nestl/implementation/list.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index dcce2d4..f440cf1 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -708,7 +708,10 @@ template <typename OperationError>
 void
 list<T, A>::copy_nothrow(OperationError& err, const list& other) NESTL_NOEXCEPT_SPEC
 {
-    assign_nothrow(err, other.cbegin(), other.cend());
+    if (this != &other)
+    {
+        assign_nothrow(err, other.cbegin(), other.cend());
+    }
 }
 
 template <typename T, typename A>
-- 
2.43.0


From ec963d86ef2654465c36c80b9fa3aac4fd4c980d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:29 +0000
Subject: [PATCH 15/30] fix: list range insert reversed the order of inserted
 elements

---
 nestl/implementation/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index f440cf1..668afbe 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -941,7 +941,7 @@ list<T, A>::insert_nothrow(OperationError& err, const_iterator pos, InputIterato
 {
     while (first != last)
     {
-        pos = insert_nothrow(err, pos, *first);
+        insert_nothrow(err, pos, *first);
         if (err)
         {
             return;
-- 
2.43.0


From 5558c0541639903d05c7223ff8b3138fe616687f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:36 +0000
Subject: [PATCH 16/30] fix: list::erase of a range did not compile

---
 nestl/implementation/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index 668afbe..50ef17b 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -994,7 +994,7 @@ list<T, A>::erase(const_iterator first, const_iterator last) NESTL_NOEXCEPT_SPEC
         first = erase(first);
     }
 
-    return last.get_list_node();
+    return iterator(last.get_list_node());
 }
 
 template <typename T, typename A>
-- 
2.43.0


From e06e5ca593dbaaa8d272674a1cb7d966ec44ac49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:43 +0000
Subject: [PATCH 17/30] fix: list::splice of a range to its own end corrupted
 the list

---
 nestl/implementation/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index 50ef17b..6cce884 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -1173,7 +1173,7 @@ template <typename T, typename A>
 void
 list<T, A>::splice(const_iterator pos, list&& /* other */, const_iterator first, const_iterator last) NESTL_NOEXCEPT_SPEC
 {
-    if (first != last)
+    if ((first != last) && (pos != last))
     {
         this->transfer(pos, first, last);
     }
-- 
2.43.0


From c8ebd2bfce972bba17397b0a810ec6da5093f7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:24 +0000
Subject: [PATCH 18/30] fix: list::max_size and set::max_size did not compile
 (allocators have no max_size)

---
 nestl/implementation/detail/red_black_tree.hpp | 2 +-
 nestl/implementation/list.hpp                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nestl/implementation/detail/red_black_tree.hpp b/nestl/implementation/detail/red_black_tree.hpp
index d5128a7..87ebd8f 100644
--- a/nestl/implementation/detail/red_black_tree.hpp
+++ b/nestl/implementation/detail/red_black_tree.hpp
@@ -1133,7 +1133,7 @@ public:
 
     size_type
     max_size() const NESTL_NOEXCEPT_SPEC
-    { return node_allocator_traits::max_size(m_get_node_allocator()); }
+    { return static_cast<size_type>(std::numeric_limits<difference_type>::max()) / sizeof(rb_tree_node<Val>); }
 
     void
     swap(rb_tree& t) NESTL_NOEXCEPT_SPEC;
diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index 6cce884..77dd13e 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -889,7 +889,7 @@ template <typename T, typename A>
 typename list<T, A>::size_type
 list<T, A>::max_size() const NESTL_NOEXCEPT_SPEC
 {
-    return m_node_allocator.max_size();
+    return static_cast<size_type>(std::numeric_limits<difference_type>::max()) / sizeof(node_type);
 }
 
 
-- 
2.43.0


From 0c2f17a635ae5fda61830bbeb59aee47fee85259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:31 +0000
Subject: [PATCH 19/30] fix: set::copy_nothrow did not compile
 (allocator_traits lacked propagate_on_container_copy_assignment)

---
 nestl/allocator_traits.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nestl/allocator_traits.hpp b/nestl/allocator_traits.hpp
index a0bff5e..6a6f841 100644
--- a/nestl/allocator_traits.hpp
+++ b/nestl/allocator_traits.hpp
@@ -26,6 +26,9 @@ struct allocator_traits
 	NESTL_SELECT_NESTED_TYPE(Allocator, propagate_on_container_move_assignment, std::false_type);
     typedef nestl_nested_type_propagate_on_container_move_assignment propagate_on_container_move_assignment;
 
+	NESTL_SELECT_NESTED_TYPE(Allocator, propagate_on_container_copy_assignment, std::false_type);
+    typedef nestl_nested_type_propagate_on_container_copy_assignment propagate_on_container_copy_assignment;
+
 	NESTL_SELECT_NESTED_TYPE(Allocator, size_type, std::size_t);
     typedef nestl_nested_type_size_type               size_type;
 
-- 
2.43.0


From 7ef992f8b3d597f183714c2863fc704a5a108e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:32 +0000
Subject: [PATCH 20/30] fix: set move assignment did not compile

---
 .../implementation/detail/red_black_tree.hpp  | 23 +++++++------------
 nestl/implementation/set.hpp                  | 13 +++--------
 2 files changed, 11 insertions(+), 25 deletions(-)

diff --git a/nestl/implementation/detail/red_black_tree.hpp b/nestl/implementation/detail/red_black_tree.hpp
index 87ebd8f..c1a5af9 100644
--- a/nestl/implementation/detail/red_black_tree.hpp
+++ b/nestl/implementation/detail/red_black_tree.hpp
@@ -1265,8 +1265,8 @@ public:
     bool
     __rb_verify() const NESTL_NOEXCEPT_SPEC;
 
-    bool
-    m_move_assign(rb_tree& other) NESTL_NOEXCEPT_SPEC;
+    void
+    m_move_assign(const std::true_type& /* true_val */, rb_tree& other) NESTL_NOEXCEPT_SPEC;
 
 private:
     // Move elements from container with equal allocator.
@@ -1381,24 +1381,17 @@ rb_tree<Key, Val, KeyOfValue, Compare, Alloc>::m_move_data(rb_tree& x, std::fals
 }
 
 template<typename Key, typename Val, typename KeyOfValue, typename Compare, typename Alloc>
-bool
-rb_tree<Key, Val, KeyOfValue, Compare, Alloc>::m_move_assign(rb_tree& x) NESTL_NOEXCEPT_SPEC
+void
+rb_tree<Key, Val, KeyOfValue, Compare, Alloc>::m_move_assign(const std::true_type& /* true_val */, rb_tree& x) NESTL_NOEXCEPT_SPEC
 {
     m_impl.m_key_compare = x.m_impl.m_key_compare;
 
-    if (node_allocator_traits::_S_propagate_on_move_assign()
-        || node_allocator_traits::_S_always_equal()
-        || m_get_node_allocator() == x.m_get_node_allocator())
+    clear();
+    if (x.m_root() != 0)
     {
-        clear();
-        if (x.m_root() != 0)
-        {
-            m_move_data(x, std::true_type());
-        }
-        nestl::detail::alloc_on_move(m_get_node_allocator(), x.m_get_node_allocator());
-        return true;
+        m_move_data(x, std::true_type());
     }
-    return false;
+    nestl::detail::alloc_on_move(m_get_node_allocator(), x.m_get_node_allocator());
 }
 
 
diff --git a/nestl/implementation/set.hpp b/nestl/implementation/set.hpp
index 7e5667f..b01bc81 100644
--- a/nestl/implementation/set.hpp
+++ b/nestl/implementation/set.hpp
@@ -171,16 +171,9 @@ template <typename T, typename C, typename A>
 set<T, C, A>&
 set<T, C, A>::operator=(set&& other) NESTL_NOEXCEPT_SPEC
 {
-    if (!m_impl.m_move_assign(other.m_impl))
-    {
-        // The rvalue's allocator cannot be moved and is not equal,
-        // so we need to individually move each element.
-        clear();
-        insert(std::make_move_iterator(other.m_impl.begin()),
-               std::make_move_iterator(other.m_impl.end()));
-        other.clear();
-      }
-        return *this;
+    m_impl.m_move_assign(typename nestl::allocator_traits<allocator_type>::propagate_on_container_move_assignment(), other.m_impl);
+
+    return *this;
 }
 
 template <typename T, typename C, typename A>
-- 
2.43.0


From d51f98434b4a5055a1cd4662ddcd079acb8c50cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:33 +0000
Subject: [PATCH 21/30] fix: set::crbegin and set::crend did not compile

---
 nestl/implementation/set.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nestl/implementation/set.hpp b/nestl/implementation/set.hpp
index b01bc81..2c98e54 100644
--- a/nestl/implementation/set.hpp
+++ b/nestl/implementation/set.hpp
@@ -246,7 +246,7 @@ template <typename T, typename C, typename A>
 typename set<T, C, A>::const_reverse_iterator
 set<T, C, A>::crbegin() const NESTL_NOEXCEPT_SPEC
 {
-    return m_impl.crbegin();
+    return m_impl.rbegin();
 }
 
 template <typename T, typename C, typename A>
@@ -267,7 +267,7 @@ template <typename T, typename C, typename A>
 typename set<T, C, A>::const_reverse_iterator
 set<T, C, A>::crend() const NESTL_NOEXCEPT_SPEC
 {
-    return m_impl.crend();
+    return m_impl.rend();
 }
 
 
-- 
2.43.0


From 4d82f2ee3b0da9c3a0c7e3bc68cb33834e5b35e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:16 +0000
Subject: [PATCH 22/30] fix: shared_ptr move assignment from a pointer owned by
 the old value read freed storage

---
 nestl/implementation/shared_ptr.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 3d9e9a6..8f07880 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -441,10 +441,9 @@ template <typename T>
 template <typename Y>
 shared_ptr<T>& shared_ptr<T>::operator=(shared_ptr<Y>&& other) NESTL_NOEXCEPT_SPEC
 {
-    {
-        const shared_ptr tmp(std::move(*this));
-    }
-    
+    // old value goes away at exit: it may own other
+    const shared_ptr tmp(std::move(*this));
+
     m_ptr = other.m_ptr;
     other.m_ptr = nullptr;
 
-- 
2.43.0


From f2f1cf9dc93f8c5d831c3139c535a6f511cd1369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:17 +0000
Subject: [PATCH 23/30] fix: weak_ptr::lock returned an owner of an already
 destroyed object

---
 nestl/implementation/shared_ptr.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 8f07880..8cd9922 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -332,6 +332,11 @@ public:
 
     shared_ptr<T> lock()
     {
+        if (expired())
+        {
+            return shared_ptr<T>();
+        }
+
         return shared_ptr<T>(m_ptr, m_refcount);
     }
 
-- 
2.43.0


From bc21286e8643585c3103ec02eb0e59083001a5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:18 +0000
Subject: [PATCH 24/30] fix: weak_ptr move assignment left its source owning
 the same reference

---
 nestl/implementation/shared_ptr.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 8cd9922..74f94e8 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -312,6 +312,9 @@ public:
         m_ptr = other.m_ptr;
         m_refcount = other.m_refcount;
 
+        other.m_ptr = 0;
+        other.m_refcount = 0;
+
         return *this;
     }
 
-- 
2.43.0


From 1516e44371265adf2771f149c6c5e36078cf10db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:19 +0000
Subject: [PATCH 25/30] fix: self assignment of the last weak_ptr of a
 destroyed object read freed storage

---
 nestl/implementation/shared_ptr.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 74f94e8..ff6a1ca 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -290,6 +290,11 @@ public:
 
     weak_ptr& operator=(const weak_ptr& other) NESTL_NOEXCEPT_SPEC
     {
+        if (this == &other)
+        {
+            return *this;
+        }
+
         if (m_refcount)
         {
             m_refcount->weak_release();
-- 
2.43.0


From a8d55eeecfd137c86b047edd47f7482367c0a14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:19 +0000
Subject: [PATCH 26/30] fix: control block was freed twice when a shared object
 held a weak_ptr to itself

---
 nestl/implementation/shared_ptr.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index ff6a1ca..ddc32f4 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -50,11 +50,10 @@ public:
         --m_use_count;
         if (m_use_count == 0)
         {
+            // value may own the last weak reference to itself
+            weak_add_ref();
             destroy_value();
-            if (m_weak_use_count == 0)
-            {
-                destroy_self();
-            }
+            weak_release();
         }
     }
 
-- 
2.43.0


From e6957f537f79e3d8ca34431db521e0eb83d9a603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:20 +0000
Subject: [PATCH 27/30] fix: make_shared_a_nothrow ignored the supplied
 allocator

---
 nestl/implementation/shared_ptr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index ddc32f4..b7dfbdf 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -512,12 +512,12 @@ bool shared_ptr<T>::unique() const NESTL_NOEXCEPT_SPEC
 }
 
 template <typename T, typename OperationError, typename Allocator, typename ... Args>
-shared_ptr<T> make_shared_a_nothrow(OperationError& err, Allocator& /* alloc */, Args&& ... args)
+shared_ptr<T> make_shared_a_nothrow(OperationError& err, Allocator& alloc, Args&& ... args)
 {
     static_assert(sizeof(T), "T must be complete type");
     typedef type_stored_by_value<T, Allocator> shared_count_t;
     typedef typename shared_count_t::allocator_type SharedCountAllocator;
-    SharedCountAllocator sharedCountAlloc;
+    SharedCountAllocator sharedCountAlloc(alloc);
 
     shared_count_t* ptr = allocator_traits<SharedCountAllocator>::allocate(err, sharedCountAlloc, 1);
     if (err)
-- 
2.43.0


From 42f0b81d7c0239ef8d901747e00aa04d15f038a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:21 +0000
Subject: [PATCH 28/30] fix: make_shared_a_nothrow did not destroy the control
 block when building the value failed

---
 nestl/implementation/shared_ptr.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index b7dfbdf..93a75ad 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -532,12 +532,16 @@ shared_ptr<T> make_shared_a_nothrow(OperationError& err, Allocator& alloc, Args&
         return {nullptr};
     }
 
+    shared_count_t* ptrEnd = ptr + 1;
+    nestl::detail::destruction_scoped_guard<shared_count_t*> destructionGuard(ptr, ptrEnd);
+
     ptr->initialize(err, std::forward<Args>(args) ...);
     if (err)
     {
         return {nullptr};
     }
 
+    destructionGuard.release();
     deallocationGuard.release();
     return shared_ptr<T>(ptr->get(), ptr);
 }
-- 
2.43.0


From 18b81b91d937c411155942c2221238573e6cce3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:32 +0000
Subject: [PATCH 29/30] fix: no header compiled with clang when exceptions are
 disabled

---
 nestl/has_exceptions/detail/class_operations.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nestl/has_exceptions/detail/class_operations.hpp b/nestl/has_exceptions/detail/class_operations.hpp
index fe7b017..0f34a12 100644
--- a/nestl/has_exceptions/detail/class_operations.hpp
+++ b/nestl/has_exceptions/detail/class_operations.hpp
@@ -14,6 +14,8 @@ namespace has_exceptions
 namespace detail
 {
 
+#if NESTL_HAS_EXCEPTIONS
+
 struct class_operations_helper
 {
     template <typename T, typename OperationError, typename ... Args>
@@ -65,6 +67,12 @@ struct class_operations_helper
     }
 };
 
+#else /* NESTL_HAS_EXCEPTIONS */
+
+struct class_operations_helper;
+
+#endif /* NESTL_HAS_EXCEPTIONS */
+
 } // namespace detail
 } // namespace has_exceptions
 } // namespace nestl
-- 
2.43.0


From a6087717fa0153512fa4adc2ada83342efd85f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:54 +0000
Subject: [PATCH 30/30] fix: throwing copy assignment replaced the allocator of
 its target

---
 nestl/has_exceptions/list.hpp   |  9 ++++++++-
 nestl/has_exceptions/vector.hpp | 18 ++++++++++++++++--
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/nestl/has_exceptions/list.hpp b/nestl/has_exceptions/list.hpp
index 4ba8469..0b08ea7 100644
--- a/nestl/has_exceptions/list.hpp
+++ b/nestl/has_exceptions/list.hpp
@@ -60,7 +60,14 @@ public:
 
     list& operator=(const list& other)
     {
-        list tmp(other);
+        // copy first: nothing changes on failure, and target keeps its allocator
+        list tmp(this->get_allocator());
+        default_operation_error err;
+        tmp.copy_nothrow(err, other);
+        if (err)
+        {
+            throw_exception(err);
+        }
         this->swap(tmp);
 
         return *this;
diff --git a/nestl/has_exceptions/vector.hpp b/nestl/has_exceptions/vector.hpp
index 8196090..ffe6f4c 100644
--- a/nestl/has_exceptions/vector.hpp
+++ b/nestl/has_exceptions/vector.hpp
@@ -140,7 +140,14 @@ vector<T, A>::vector(as_noexcept_type&& other) NESTL_NOEXCEPT_SPEC
 template <typename T, typename A>
 vector<T, A>& vector<T, A>::operator=(const vector& other)
 {
-    vector tmp{other};
+    // copy first: nothing changes on failure, and target keeps its allocator
+    vector tmp(this->get_allocator());
+    default_operation_error err;
+    tmp.copy_nothrow(err, other);
+    if (err)
+    {
+        throw_exception(err);
+    }
     this->swap(tmp);
 
     return *this;
@@ -149,7 +156,14 @@ vector<T, A>& vector<T, A>::operator=(const vector& other)
 template <typename T, typename A>
 vector<T, A>& vector<T, A>::operator=(const as_noexcept_type& other)
 {
-    vector tmp{other};
+    // copy first: nothing changes on failure, and target keeps its allocator
+    vector tmp(this->get_allocator());
+    default_operation_error err;
+    tmp.copy_nothrow(err, other);
+    if (err)
+    {
+        throw_exception(err);
+    }
     this->swap(tmp);
 
     return *this;
-- 
2.43.0

