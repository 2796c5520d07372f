From b82f989af2a614dc7dc804855020e3dde2935375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:29 +0000
Subject: [PATCH 01/13] fix: deallocate the whole buffer when filling it in a
 constructor throws

circular_buffer(capacity, n, item) returned storage of capacity elements to the
allocator as n elements.
---
 include/boost/circular_buffer/base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index 4744154..d57991a 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -2501,7 +2501,7 @@ private:
         BOOST_TRY {
             cb_details::uninitialized_fill_n_with_alloc(m_buff, size(), item, alloc());
         } BOOST_CATCH(...) {
-            deallocate(m_buff, size());
+            deallocate(m_buff, buffer_capacity);
             BOOST_RETHROW
         }
         BOOST_CATCH_END
-- 
2.43.0


From 7df42baab138daf0c0bffe30af8b2be7777dfcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:45 +0000
Subject: [PATCH 02/13] fix: release the buffer when construction from a
 single-pass range throws

circular_buffer(capacity, first, last) with input iterators leaked the storage
and the elements constructed so far when copying an element threw.
---
 include/boost/circular_buffer/base.hpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index d57991a..babb69b 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -2576,16 +2576,22 @@ private:
         m_size = 0;
         if (buffer_capacity == 0)
             return;
-        while (first != last && !full()) {
-            boost::allocator_construct(alloc(), boost::to_address(m_last), *first++);
-            increment(m_last);
-            ++m_size;
-        }
-        while (first != last) {
-            replace(m_last, *first++);
-            increment(m_last);
-            m_first = m_last;
+        BOOST_TRY {
+            while (first != last && !full()) {
+                boost::allocator_construct(alloc(), boost::to_address(m_last), *first++);
+                increment(m_last);
+                ++m_size;
+            }
+            while (first != last) {
+                replace(m_last, *first++);
+                increment(m_last);
+                m_first = m_last;
+            }
+        } BOOST_CATCH(...) {
+            destroy();
+            BOOST_RETHROW
         }
+        BOOST_CATCH_END
     }
 
     /*! INTERNAL ONLY */
-- 
2.43.0


From 22ae439162f4e1cf1ecbbaccd8f7e78c6753f0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:45 +0000
Subject: [PATCH 03/13] fix: destroy the new elements when rinsert at begin()
 throws

The elements constructed in front of the content were recorded as if they had
been appended behind it, so the buffer lost them and claimed slots holding no
element.
---
 include/boost/circular_buffer/base.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index babb69b..4c803b1 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -2944,9 +2944,8 @@ private:
                 for (; ii > 0; --ii, increment(p))
                     boost::allocator_construct(alloc(), boost::to_address(p), *wrapper());
             } BOOST_CATCH(...) {
-                size_type constructed = ii < construct ? construct - ii : 0;
-                m_last = add(m_last, constructed);
-                m_size += constructed;
+                for (p = sub(m_first, construct); ii < construct; ++ii, increment(p))
+                    destroy_item(p);
                 BOOST_RETHROW
             }
             BOOST_CATCH_END
-- 
2.43.0


From 6f3bdeea695b1b92e2bb525faa8ca11aac5e6b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:54 +0000
Subject: [PATCH 04/13] fix: keep the capacity when a space optimized assign
 throws

circular_buffer_space_optimized::assign(capacity_ctrl, first, last) set the new
capacity before assigning; after an exception the declared capacity could be
lower than the number of elements or the internal capacity.
---
 include/boost/circular_buffer/space_optimized.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 21681fd..9de57f9 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -724,8 +724,8 @@ public:
     */
     template <class InputIterator>
     void assign(capacity_type capacity_ctrl, InputIterator first, InputIterator last) {
-       m_capacity_ctrl = capacity_ctrl;
        circular_buffer<T, Alloc>::assign(capacity_ctrl, first, last);
+       m_capacity_ctrl = capacity_ctrl;
     }
 
     //! Swap the contents of two space-optimized circular-buffers.
-- 
2.43.0


From e6bffc7def0026a376203bcc753096632bf8ec28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:54 +0000
Subject: [PATCH 05/13] fix: strong guarantee of the space optimized
 set_capacity and rset_capacity

Both are documented to have the strong guarantee, but changed the declared
capacity and erased elements before the allocation that can fail.
---
 .../boost/circular_buffer/space_optimized.hpp | 29 ++++++++++++++-----
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 9de57f9..23da24d 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -223,12 +223,12 @@ public:
             <code>\link resize() resize(size_type, const_reference)\endlink</code>
     */
     void set_capacity(const capacity_type& capacity_ctrl) {
-        m_capacity_ctrl = capacity_ctrl;
         if (capacity_ctrl < size()) {
-            iterator e = end();
-            circular_buffer<T, Alloc>::erase(e - (size() - capacity_ctrl), e);
+            circular_buffer<T, Alloc>::set_capacity(capacity_ctrl);
+            m_capacity_ctrl = capacity_ctrl;
+        } else {
+            adjust_capacity(capacity_ctrl);
         }
-        adjust_min_capacity();
     }
 
     //! Change the size of the <code>circular_buffer_space_optimized</code>.
@@ -294,12 +294,12 @@ public:
             <code>\link rresize() rresize(size_type, const_reference)\endlink</code>
     */
     void rset_capacity(const capacity_type& capacity_ctrl) {
-        m_capacity_ctrl = capacity_ctrl;
         if (capacity_ctrl < size()) {
-            iterator b = begin();
-            circular_buffer<T, Alloc>::rerase(b, b + (size() - capacity_ctrl));
+            circular_buffer<T, Alloc>::rset_capacity(capacity_ctrl);
+            m_capacity_ctrl = capacity_ctrl;
+        } else {
+            adjust_capacity(capacity_ctrl);
         }
-        adjust_min_capacity();
     }
 
     //! Change the size of the <code>circular_buffer_space_optimized</code>.
@@ -1522,6 +1522,19 @@ public:
 private:
 // Helper methods
 
+    /*! INTERNAL ONLY */
+    void adjust_capacity(const capacity_type& capacity_ctrl) {
+        const capacity_type previous = m_capacity_ctrl;
+        m_capacity_ctrl = capacity_ctrl;
+        BOOST_TRY {
+            adjust_min_capacity();
+        } BOOST_CATCH(...) {
+            m_capacity_ctrl = previous;
+            BOOST_RETHROW
+        }
+        BOOST_CATCH_END
+    }
+
     /*! INTERNAL ONLY */
     void adjust_min_capacity() {
         if (m_capacity_ctrl.min_capacity() > circular_buffer<T, Alloc>::capacity())
-- 
2.43.0


From 9b4f7a19b9fe48d6fea78dabcb21cade528aaa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:54 +0000
Subject: [PATCH 06/13] fix: overflow in the growth of
 circular_buffer_space_optimized

Inserting a huge number of elements looped forever (the doubled capacity wrapped
to zero), allocated for elements that cannot be stored, or wrapped size() + n.
---
 include/boost/circular_buffer/space_optimized.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 23da24d..511f34a 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -1545,18 +1545,24 @@ private:
 
     /*! INTERNAL ONLY */
     size_type ensure_reserve(size_type new_capacity, size_type buffer_size) const {
-        if (buffer_size + new_capacity / 5 >= new_capacity)
-            new_capacity *= 2; // ensure at least 20% reserve
         if (new_capacity > m_capacity_ctrl)
             return m_capacity_ctrl;
+        if (buffer_size + new_capacity / 5 >= new_capacity) { // ensure at least 20% reserve
+            if (new_capacity > m_capacity_ctrl / 2)
+                return m_capacity_ctrl;
+            new_capacity *= 2;
+        }
         return new_capacity;
     }
 
     /*! INTERNAL ONLY */
     void check_low_capacity(size_type n = 1) {
-        size_type new_size = size() + n;
+        // not more than the reserve can be inserted without overwriting
+        size_type new_size = size() + (std::min)(n, reserve());
         size_type new_capacity = circular_buffer<T, Alloc>::capacity();
         if (new_size > new_capacity) {
+            if (new_size > max_size())
+                throw_exception(std::length_error("circular_buffer"));
             if (new_capacity == 0)
                 new_capacity = 1;
             for (; new_size > new_capacity; new_capacity *= 2) {}
-- 
2.43.0


From 44381270713610116316a935869df3ede825085a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:54 +0000
Subject: [PATCH 07/13] fix: strong guarantee of the space optimized copy
 assignment

operator=(const&) is documented to have the strong guarantee, but destroyed the
content before copying when both buffers had the same internal capacity.
---
 include/boost/circular_buffer/space_optimized.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 511f34a..fbcda48 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -563,7 +563,8 @@ public:
     circular_buffer_space_optimized<T, Alloc>& operator = (const circular_buffer_space_optimized<T, Alloc>& cb) {
         if (this == &cb)
             return *this;
-        circular_buffer<T, Alloc>::assign(cb.begin(), cb.end());
+        circular_buffer<T, Alloc> tmp(cb.begin(), cb.end(), get_allocator());
+        circular_buffer<T, Alloc>::swap(tmp);
         m_capacity_ctrl = cb.m_capacity_ctrl;
         return *this;
     }
-- 
2.43.0


From 7921c9ccba07cb760e6240e11b01550818e2e988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:22 +0000
Subject: [PATCH 08/13] fix: insert single-pass ranges into
 circular_buffer_space_optimized

insert and rinsert measured the range with std::distance, which consumes a
single-pass range, so nothing (or one element) got inserted.
---
 .../boost/circular_buffer/space_optimized.hpp | 40 +++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index fbcda48..05088c6 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -1651,6 +1651,26 @@ private:
     /*! INTERNAL ONLY */
     template <class Iterator>
     void insert(const iterator& pos, Iterator first, Iterator last, const false_type&) {
+        BOOST_CB_IS_CONVERTIBLE(Iterator, value_type); // check for invalid iterator type
+#if BOOST_WORKAROUND(BOOST_BORLANDC, BOOST_TESTED_AT(0x581))
+        insert(pos, first, last, std::iterator_traits<Iterator>::iterator_category());
+#else
+        insert(pos, first, last, BOOST_DEDUCED_TYPENAME std::iterator_traits<Iterator>::iterator_category());
+#endif
+    }
+
+    /*! INTERNAL ONLY */
+    template <class InputIterator>
+    void insert(const iterator& pos, InputIterator first, InputIterator last, const std::input_iterator_tag&) {
+        // the range can be passed only once, so it cannot be measured before it is stored
+        std::deque<value_type, allocator_type> tmp(first, last, get_allocator());
+        insert(pos, boost::make_move_iterator(tmp.begin()), boost::make_move_iterator(tmp.end()),
+            std::forward_iterator_tag());
+    }
+
+    /*! INTERNAL ONLY */
+    template <class ForwardIterator>
+    void insert(const iterator& pos, ForwardIterator first, ForwardIterator last, const std::forward_iterator_tag&) {
         size_type index = pos - begin();
         check_low_capacity(std::distance(first, last));
         circular_buffer<T, Alloc>::insert(begin() + index, first, last);
@@ -1665,6 +1685,26 @@ private:
     /*! INTERNAL ONLY */
     template <class Iterator>
     void rinsert(const iterator& pos, Iterator first, Iterator last, const false_type&) {
+        BOOST_CB_IS_CONVERTIBLE(Iterator, value_type); // check for invalid iterator type
+#if BOOST_WORKAROUND(BOOST_BORLANDC, BOOST_TESTED_AT(0x581))
+        rinsert(pos, first, last, std::iterator_traits<Iterator>::iterator_category());
+#else
+        rinsert(pos, first, last, BOOST_DEDUCED_TYPENAME std::iterator_traits<Iterator>::iterator_category());
+#endif
+    }
+
+    /*! INTERNAL ONLY */
+    template <class InputIterator>
+    void rinsert(const iterator& pos, InputIterator first, InputIterator last, const std::input_iterator_tag&) {
+        // the range can be passed only once, so it cannot be measured before it is stored
+        std::deque<value_type, allocator_type> tmp(first, last, get_allocator());
+        rinsert(pos, boost::make_move_iterator(tmp.begin()), boost::make_move_iterator(tmp.end()),
+            std::forward_iterator_tag());
+    }
+
+    /*! INTERNAL ONLY */
+    template <class ForwardIterator>
+    void rinsert(const iterator& pos, ForwardIterator first, ForwardIterator last, const std::forward_iterator_tag&) {
         size_type index = pos - begin();
         check_low_capacity(std::distance(first, last));
         circular_buffer<T, Alloc>::rinsert(begin() + index, first, last);
-- 
2.43.0


From 21955bc8593c61a7cb6c4645ca6f749cc5cb43b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:35 +0000
Subject: [PATCH 09/13] fix: do not grow the storage of
 circular_buffer_space_optimized when elements are removed

---
 include/boost/circular_buffer/space_optimized.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 05088c6..6a1c141 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -1585,8 +1585,9 @@ private:
                 break;
             }
         }
-        circular_buffer<T, Alloc>::set_capacity(
-            ensure_reserve(new_capacity, size()));
+        // the reserve is no reason to allocate more than there is
+        circular_buffer<T, Alloc>::set_capacity((std::min)(
+            ensure_reserve(new_capacity, size()), circular_buffer<T, Alloc>::capacity()));
 #if BOOST_CB_ENABLE_DEBUG
         this->invalidate_iterators_except(end());
 #endif
-- 
2.43.0


From 2492c92177776b1aa2ddd8cd36824644071417d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:17 +0000
Subject: [PATCH 10/13] fix: keep end() iterators valid in the space optimized
 copy assignment

The strong guarantee was obtained by swapping with a temporary, which invalidates
every iterator when iterator debugging is on.
---
 include/boost/circular_buffer/space_optimized.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 6a1c141..678f427 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -563,8 +563,12 @@ public:
     circular_buffer_space_optimized<T, Alloc>& operator = (const circular_buffer_space_optimized<T, Alloc>& cb) {
         if (this == &cb)
             return *this;
-        circular_buffer<T, Alloc> tmp(cb.begin(), cb.end(), get_allocator());
-        circular_buffer<T, Alloc>::swap(tmp);
+        if (cb.size() != circular_buffer<T, Alloc>::capacity()) {
+            circular_buffer<T, Alloc>::assign(cb.begin(), cb.end());
+        } else { // assign() would destroy the content before copying
+            const circular_buffer<T, Alloc> tmp(cb.begin(), cb.end(), get_allocator());
+            circular_buffer<T, Alloc>::operator = (tmp);
+        }
         m_capacity_ctrl = cb.m_capacity_ctrl;
         return *this;
     }
-- 
2.43.0


From b2073f0f0c19567fbd83c3c295c9f27f7fe45152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 11/13] fix: keep end() iterators valid when assigning a
 single-pass range with another capacity

The documentation says that assign() does not invalidate iterators equal to end(),
but swapping with a temporary invalidated every iterator when iterator debugging is on.
---
 include/boost/circular_buffer/base.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index 4c803b1..13b1f42 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -2710,7 +2710,14 @@ private:
             insert(begin(), first, last);
         } else {
             circular_buffer<value_type, allocator_type> tmp(new_capacity, first, last, alloc());
-            tmp.swap(*this);
+#if BOOST_CB_ENABLE_DEBUG
+            invalidate_iterators_except(end());
+#endif
+            adl_move_swap(m_buff, tmp.m_buff);
+            adl_move_swap(m_end, tmp.m_end);
+            adl_move_swap(m_first, tmp.m_first);
+            adl_move_swap(m_last, tmp.m_last);
+            adl_move_swap(m_size, tmp.m_size);
         }
     }
 
-- 
2.43.0


From 69fac511a46893dd92b5fc6ff7e42c8968ab97f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:12 +0000
Subject: [PATCH 12/13] fix: make the (capacity, count, item) constructor
 compile for integral arguments

circular_buffer_space_optimized(capacity_ctrl, n, item) with two arguments of the same
integral type selects the range constructor, which asked std::iterator_traits<int>
for an iterator category although n and item are no range.
---
 include/boost/circular_buffer/space_optimized.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 678f427..aa890d7 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -508,8 +508,7 @@ public:
         init_capacity(capacity_ctrl, first, last, is_integral<InputIterator>()),
         first, last, alloc)
     , m_capacity_ctrl(capacity_ctrl) {
-        reduce_capacity(
-            is_same< BOOST_DEDUCED_TYPENAME std::iterator_traits<InputIterator>::iterator_category, std::input_iterator_tag >());
+        reduce_range<InputIterator>(is_integral<InputIterator>());
     }
 
 #if defined(BOOST_CB_NEVER_DEFINED)
@@ -1605,6 +1604,17 @@ private:
     /*! INTERNAL ONLY */
     void reduce_capacity(const false_type&) {}
 
+    /*! INTERNAL ONLY */
+    template <class IntegralType>
+    void reduce_range(const true_type&) {}
+
+    /*! INTERNAL ONLY */
+    template <class Iterator>
+    void reduce_range(const false_type&) {
+        reduce_capacity(
+            is_same< BOOST_DEDUCED_TYPENAME std::iterator_traits<Iterator>::iterator_category, std::input_iterator_tag >());
+    }
+
     /*! INTERNAL ONLY */
     static size_type init_capacity(const capacity_type& capacity_ctrl, size_type n) {
         BOOST_CB_ASSERT(capacity_ctrl.capacity() >= n); // check for capacity lower than n
-- 
2.43.0


From 5291cc2faea32ee17317c65254c91122e70056a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:33 +0000
Subject: [PATCH 13/13] fix: assign(capacity_ctrl, first, last) allocates what
 its documentation says

The space optimized buffer allocated the whole declared capacity instead of
max[capacity_ctrl.min_capacity(), min[capacity_ctrl.capacity(), std::distance(first, last)]].
---
 .../boost/circular_buffer/space_optimized.hpp | 35 +++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index aa890d7..2377d7f 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -728,8 +728,7 @@ public:
     */
     template <class InputIterator>
     void assign(capacity_type capacity_ctrl, InputIterator first, InputIterator last) {
-       circular_buffer<T, Alloc>::assign(capacity_ctrl, first, last);
-       m_capacity_ctrl = capacity_ctrl;
+       assign(capacity_ctrl, first, last, is_integral<InputIterator>());
     }
 
     //! Swap the contents of two space-optimized circular-buffers.
@@ -1657,6 +1656,38 @@ private:
             (std::min)(capacity_ctrl.capacity(), static_cast<size_type>(std::distance(first, last))));
     }
 
+    /*! INTERNAL ONLY */
+    template <class IntegralType>
+    void assign(const capacity_type& capacity_ctrl, IntegralType n, IntegralType item, const true_type&) {
+        assign(capacity_ctrl, static_cast<size_type>(n), static_cast<value_type>(item));
+    }
+
+    /*! INTERNAL ONLY */
+    template <class Iterator>
+    void assign(const capacity_type& capacity_ctrl, Iterator first, Iterator last, const false_type&) {
+        BOOST_CB_IS_CONVERTIBLE(Iterator, value_type); // check for invalid iterator type
+        assign(capacity_ctrl, first, last, BOOST_DEDUCED_TYPENAME std::iterator_traits<Iterator>::iterator_category());
+    }
+
+    /*! INTERNAL ONLY */
+    template <class InputIterator>
+    void assign(const capacity_type& capacity_ctrl, InputIterator first, InputIterator last,
+        const std::input_iterator_tag&) {
+        // the range can be passed only once, so it cannot be measured before it is stored
+        std::deque<value_type, allocator_type> tmp(first, last, get_allocator());
+        assign(capacity_ctrl, boost::make_move_iterator(tmp.begin()), boost::make_move_iterator(tmp.end()),
+            std::forward_iterator_tag());
+    }
+
+    /*! INTERNAL ONLY */
+    template <class ForwardIterator>
+    void assign(const capacity_type& capacity_ctrl, ForwardIterator first, ForwardIterator last,
+        const std::forward_iterator_tag&) {
+        circular_buffer<T, Alloc>::assign(
+            init_capacity(capacity_ctrl, first, last, std::forward_iterator_tag()), first, last);
+        m_capacity_ctrl = capacity_ctrl;
+    }
+
     /*! INTERNAL ONLY */
     template <class IntegralType>
     void insert(const iterator& pos, IntegralType n, IntegralType item, const true_type&) {
-- 
2.43.0

