From af5b1d5c1ef1664e8491496aeccda209b0e9da67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:31 +0000
Subject: [PATCH 01/22] fix: slist::clone_from from an rvalue source did not
 compile

---
 include/boost/intrusive/slist.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index f39e7df..47729ac 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -791,7 +791,7 @@ class slist_impl
       this->clear_and_dispose(disposer);
       detail::exception_disposer<slist_impl, Disposer>
          rollback(*this, disposer);
-      iterator prev(this->cbefore_begin());
+      iterator prev(this->before_begin());
       iterator b(src.begin()), e(src.end());
       for(; b != e; ++b){
          prev = this->insert_after(prev, *cloner(*b));
-- 
2.43.0


From 6431d29220126364b02ee660293fe446872d3895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:31 +0000
Subject: [PATCH 02/22] fix: slist::dispose_and_assign did not compile

---
 include/boost/intrusive/slist.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 47729ac..562803b 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1227,7 +1227,7 @@ class slist_impl
    void dispose_and_assign(Disposer disposer, Iterator b, Iterator e)
    {
       this->clear_and_dispose(disposer);
-      this->insert_after(this->cbefore_begin(), b, e, disposer);
+      this->insert_after(this->cbefore_begin(), b, e);
    }
 
    //! <b>Requires</b>: prev must point to an element contained by this list or
-- 
2.43.0


From d52940783b22e9d0176773c56f6f57dd0a5595de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:31 +0000
Subject: [PATCH 03/22] fix: slist::unique_and_dispose(disposer) did not
 compile

---
 include/boost/intrusive/slist.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 562803b..752962d 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1703,7 +1703,7 @@ class slist_impl
    //!   and iterators to elements that are not removed remain valid.
    template<class Disposer>
    void unique_and_dispose(Disposer disposer)
-   {  this->unique(value_equal<value_type>(), disposer);  }
+   {  this->unique_and_dispose(value_equal<value_type>(), disposer);  }
 
    //! <b>Requires</b>: Disposer::operator()(pointer) shouldn't throw.
    //!
-- 
2.43.0


From 3d1a380a3ffa5258b55379c3a14f99e1dbfbcdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:26 +0000
Subject: [PATCH 04/22] fix: slist::last() const and slist::clast() did not
 compile

---
 include/boost/intrusive/slist.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 752962d..f9c30d4 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -639,7 +639,7 @@ class slist_impl
    {
       //This function shall not be used if cache_last is not true
       BOOST_INTRUSIVE_INVARIANT_ASSERT(cache_last);
-      return const_iterator (this->get_last_node(), this->priv_value_traits_ptr());
+      return const_iterator (detail::uncast(this->get_last_node()), this->priv_value_traits_ptr());
    }
 
    //! <b>Effects</b>: Returns a const_iterator to the last element contained in the list.
@@ -650,7 +650,7 @@ class slist_impl
    //!
    //! <b>Note</b>: This function is present only if cached_last<> option is true.
    inline const_iterator clast() const BOOST_NOEXCEPT
-   { return const_iterator(this->get_last_node(), this->priv_value_traits_ptr()); }
+   { return const_iterator(detail::uncast(this->get_last_node()), this->priv_value_traits_ptr()); }
 
    //! <b>Precondition</b>: end_iterator must be a valid end iterator
    //!   of slist.
-- 
2.43.0


From 30c99b41c9e7b61d5d7ca118faf3ab5139b7be93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:51 +0000
Subject: [PATCH 05/22] fix: slist::sort dereferenced null for an empty linear
 list

---
 include/boost/intrusive/slist.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index f9c30d4..b9b7193 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1440,8 +1440,7 @@ class slist_impl
    template<class Predicate>
    void sort(Predicate p)
    {
-      if (node_traits::get_next(node_traits::get_next(this->get_root_node()))
-         != this->get_root_node()) {
+      if (!this->empty() && ++this->cbegin() != this->cend()) {
 
          slist_impl carry(this->priv_value_traits());
          detail::array_initializer<slist_impl, 64> counter(this->priv_value_traits());
-- 
2.43.0


From b784da06f0632430aea439086c4237d3ca837ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:51 +0000
Subject: [PATCH 06/22] fix: slist::check asserted for an empty linear list

---
 include/boost/intrusive/slist.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index b9b7193..0e69412 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1927,9 +1927,9 @@ class slist_impl
    void check() const
    {
       const_node_ptr header_ptr = get_root_node();
-      // header's next is never null
-      BOOST_INTRUSIVE_INVARIANT_ASSERT(node_traits::get_next(header_ptr));
-      if (node_traits::get_next(header_ptr) == header_ptr)
+      // header's next is never null, unless the list is linear and empty
+      BOOST_INTRUSIVE_INVARIANT_ASSERT(linear || node_traits::get_next(header_ptr));
+      if (this->empty())
       {
          BOOST_INTRUSIVE_INVARIANT_ASSERT(!constant_time_size || this->priv_size_traits().get_size() == 0);
          return;
-- 
2.43.0


From 25c87ffbe2027de0e9ce767353aa95380c1c94e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:51 +0000
Subject: [PATCH 07/22] fix: slist with cache_last kept a stale last element
 when splicing its own tail

---
 include/boost/intrusive/slist.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 0e69412..22de8dc 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1992,7 +1992,8 @@ class slist_impl
          if(prev_pos_n == this->get_last_node()){
             this->set_last_node(before_l_n);
          }
-         if(&x != this && node_traits::get_next(before_l_n) == x.get_end_node()){
+         if((&x != this || (prev_pos_n != before_f_n && prev_pos_n != before_l_n))
+            && node_traits::get_next(before_l_n) == x.get_end_node()){
             x.set_last_node(before_f_n);
          }
       }
-- 
2.43.0


From 327bd8256af93477965d43694652dd2789141c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:19 +0000
Subject: [PATCH 08/22] fix: slist::incorporate_after without a count does not
 compile with constant-time size

---
 include/boost/intrusive/slist.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 22de8dc..efb04cf 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1879,7 +1879,7 @@ class slist_impl
    void incorporate_after(const_iterator prev_pos, node_ptr f, node_ptr before_l) BOOST_NOEXCEPT
    {
       BOOST_IF_CONSTEXPR(constant_time_size)
-         this->incorporate_after(prev_pos, f, before_l, node_algorithms::distance(f.pointed_node(), before_l.pointed_node())+1);
+         this->incorporate_after(prev_pos, f, before_l, node_algorithms::distance(f, before_l)+1);
       else
          this->priv_incorporate_after(prev_pos.pointed_node(), f, before_l);
    }
-- 
2.43.0


From 5a84de397a94fa07825941ba473034c6ee418c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:19 +0000
Subject: [PATCH 09/22] fix: splaytree::splay_down(key, comp) does not compile
 with a heterogeneous comparison

---
 include/boost/intrusive/splaytree.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/boost/intrusive/splaytree.hpp b/include/boost/intrusive/splaytree.hpp
index e25647c..983228e 100644
--- a/include/boost/intrusive/splaytree.hpp
+++ b/include/boost/intrusive/splaytree.hpp
@@ -496,9 +496,7 @@ class splaytree_impl
    template<class KeyType, class KeyTypeKeyCompare>
    iterator splay_down(const KeyType &key, KeyTypeKeyCompare comp)
    {
-      detail::key_nodeptr_comp<value_compare, value_traits>
-         key_node_comp(comp, &this->get_value_traits());
-      node_ptr r = node_algorithms::splay_down(tree_type::header_ptr(), key, key_node_comp);
+      node_ptr r = node_algorithms::splay_down(tree_type::header_ptr(), key, this->key_node_comp(comp));
       return iterator(r, this->priv_value_traits_ptr());
    }
 
-- 
2.43.0


From 0c3a64bf9bc44580ce74f8da408bb0ba587fed00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:19 +0000
Subject: [PATCH 10/22] fix: bs_set and splay_set cannot merge from their
 multisets (forward declaration in the wrong namespace)

---
 include/boost/intrusive/bs_set.hpp    | 6 +++---
 include/boost/intrusive/splay_set.hpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/intrusive/bs_set.hpp b/include/boost/intrusive/bs_set.hpp
index c3275dd..314d8d4 100644
--- a/include/boost/intrusive/bs_set.hpp
+++ b/include/boost/intrusive/bs_set.hpp
@@ -22,14 +22,14 @@
 #  pragma once
 #endif
 
+namespace boost {
+namespace intrusive {
+
 #if !defined(BOOST_INTRUSIVE_DOXYGEN_INVOKED)
 template<class ValueTraits, class VoidOrKeyOfValue, class Compare, class SizeType, bool ConstantTimeSize, typename HeaderHolder>
 class bs_multiset_impl;
 #endif
 
-namespace boost {
-namespace intrusive {
-
 //! The class template bs_set is an intrusive container, that mimics most of
 //! the interface of std::set as described in the C++ standard.
 //!
diff --git a/include/boost/intrusive/splay_set.hpp b/include/boost/intrusive/splay_set.hpp
index f11424a..9d05206 100644
--- a/include/boost/intrusive/splay_set.hpp
+++ b/include/boost/intrusive/splay_set.hpp
@@ -22,14 +22,14 @@
 #  pragma once
 #endif
 
+namespace boost {
+namespace intrusive {
+
 #if !defined(BOOST_INTRUSIVE_DOXYGEN_INVOKED)
 template<class ValueTraits, class VoidOrKeyOfValue, class Compare, class SizeType, bool ConstantTimeSize, typename HeaderHolder>
 class splay_multiset_impl;
 #endif
 
-namespace boost {
-namespace intrusive {
-
 //! The class template splay_set is an intrusive container, that mimics most of
 //! the interface of std::set as described in the C++ standard.
 //!
-- 
2.43.0


From 84e49300b63da146012bb2758438d97b907213f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:54 +0000
Subject: [PATCH 11/22] fix: list/slist remove terminate the program when
 operator== throws

---
 include/boost/intrusive/list.hpp  | 4 ++--
 include/boost/intrusive/slist.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/intrusive/list.hpp b/include/boost/intrusive/list.hpp
index 9871d97..2d2429a 100644
--- a/include/boost/intrusive/list.hpp
+++ b/include/boost/intrusive/list.hpp
@@ -1116,7 +1116,7 @@ class list_impl
    //!
    //! <b>Note</b>: The relative order of elements that are not removed is unchanged,
    //!   and iterators to elements that are not removed remain valid.
-   void remove(const_reference value) BOOST_NOEXCEPT
+   void remove(const_reference value)
    {  this->remove_if(detail::equal_to_value<const_reference>(value));  }
 
    //! <b>Requires</b>: Disposer::operator()(pointer) shouldn't throw.
@@ -1131,7 +1131,7 @@ class list_impl
    //! <b>Note</b>: The relative order of elements that are not removed is unchanged,
    //!   and iterators to elements that are not removed remain valid.
    template<class Disposer>
-   void remove_and_dispose(const_reference value, Disposer disposer) BOOST_NOEXCEPT
+   void remove_and_dispose(const_reference value, Disposer disposer)
    {  this->remove_and_dispose_if(detail::equal_to_value<const_reference>(value), disposer);  }
 
    //! <b>Effects</b>: Removes all the elements for which a specified
diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index efb04cf..2ccd8cf 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1589,7 +1589,7 @@ class slist_impl
    //! <b>Note</b>: The relative order of elements that are not removed is unchanged,
    //!   and iterators to elements that are not removed remain valid. This function is
    //!   linear time: it performs exactly size() comparisons for equality.
-   void remove(const_reference value) BOOST_NOEXCEPT
+   void remove(const_reference value)
    {  this->remove_if(detail::equal_to_value<const_reference>(value));  }
 
    //! <b>Requires</b>: Disposer::operator()(pointer) shouldn't throw.
@@ -1604,7 +1604,7 @@ class slist_impl
    //! <b>Note</b>: The relative order of elements that are not removed is unchanged,
    //!   and iterators to elements that are not removed remain valid.
    template<class Disposer>
-   void remove_and_dispose(const_reference value, Disposer disposer) BOOST_NOEXCEPT
+   void remove_and_dispose(const_reference value, Disposer disposer)
    {  this->remove_and_dispose_if(detail::equal_to_value<const_reference>(value), disposer);  }
 
    //! <b>Effects</b>: Removes all the elements for which a specified
-- 
2.43.0


From 4ad04ddd00bbc8d3703eb01be0aad9802023b4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:54 +0000
Subject: [PATCH 12/22] fix: treap insertion and erasure by position terminate
 the program when the priority comparison throws

---
 include/boost/intrusive/treap.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/boost/intrusive/treap.hpp b/include/boost/intrusive/treap.hpp
index 4d8c916..0514fc1 100644
--- a/include/boost/intrusive/treap.hpp
+++ b/include/boost/intrusive/treap.hpp
@@ -777,7 +777,7 @@ class treap_impl
    //! the successor of "value" container ordering invariant will be broken.
    //! This is a low-level function to be used only for performance reasons
    //! by advanced users.
-   iterator insert_before(const_iterator pos, reference value) BOOST_NOEXCEPT
+   iterator insert_before(const_iterator pos, reference value)
    {
       node_ptr to_insert(this->get_value_traits().to_node_ptr(value));
       BOOST_INTRUSIVE_SAFE_HOOK_DEFAULT_ASSERT(!safemode_or_autounlink || node_algorithms::unique(to_insert));
@@ -807,7 +807,7 @@ class treap_impl
    //!   This function is slightly more efficient than using "insert_before".
    //!   This is a low-level function to be used only for performance reasons
    //!   by advanced users.
-   void push_back(reference value) BOOST_NOEXCEPT
+   void push_back(reference value)
    {
       node_ptr to_insert(this->get_value_traits().to_node_ptr(value));
       BOOST_INTRUSIVE_SAFE_HOOK_DEFAULT_ASSERT(!safemode_or_autounlink || node_algorithms::unique(to_insert));
@@ -830,7 +830,7 @@ class treap_impl
    //!   This function is slightly more efficient than using "insert_before".
    //!   This is a low-level function to be used only for performance reasons
    //!   by advanced users.
-   void push_front(reference value) BOOST_NOEXCEPT
+   void push_front(reference value)
    {
       node_ptr to_insert(this->get_value_traits().to_node_ptr(value));
       BOOST_INTRUSIVE_SAFE_HOOK_DEFAULT_ASSERT(!safemode_or_autounlink || node_algorithms::unique(to_insert));
@@ -847,7 +847,7 @@ class treap_impl
    //!
    //! <b>Note</b>: Invalidates the iterators (but not the references)
    //!    to the erased elements. No destructors are called.
-   iterator erase(const_iterator i) BOOST_NOEXCEPT
+   iterator erase(const_iterator i)
    {
       const_iterator ret(i);
       ++ret;
@@ -870,7 +870,7 @@ class treap_impl
    //!
    //! <b>Note</b>: Invalidates the iterators (but not the references)
    //!    to the erased elements. No destructors are called.
-   iterator erase(const_iterator b, const_iterator e) BOOST_NOEXCEPT
+   iterator erase(const_iterator b, const_iterator e)
    {  size_type n;   return private_erase(b, e, n);   }
 
    //! <b>Effects</b>: Erases all the elements with the given value.
@@ -921,7 +921,7 @@ class treap_impl
    //! <b>Note</b>: Invalidates the iterators
    //!    to the erased elements.
    template<class Disposer>
-   iterator erase_and_dispose(const_iterator i, Disposer disposer) BOOST_NOEXCEPT
+   iterator erase_and_dispose(const_iterator i, Disposer disposer)
    {
       node_ptr to_erase(i.pointed_node());
       iterator ret(this->erase(i));
@@ -931,7 +931,7 @@ class treap_impl
 
    #if !defined(BOOST_INTRUSIVE_DOXYGEN_INVOKED)
    template<class Disposer>
-   iterator erase_and_dispose(iterator i, Disposer disposer) BOOST_NOEXCEPT
+   iterator erase_and_dispose(iterator i, Disposer disposer)
    {  return this->erase_and_dispose(const_iterator(i), disposer);   }
    #endif
 
@@ -948,7 +948,7 @@ class treap_impl
    //! <b>Note</b>: Invalidates the iterators
    //!    to the erased elements.
    template<class Disposer>
-   iterator erase_and_dispose(const_iterator b, const_iterator e, Disposer disposer) BOOST_NOEXCEPT
+   iterator erase_and_dispose(const_iterator b, const_iterator e, Disposer disposer)
    {  size_type n;   return private_erase(b, e, n, disposer);   }
 
    //! <b>Requires</b>: Disposer::operator()(pointer) shouldn't throw.
-- 
2.43.0


From 6275a17d0ff5c4a96074b956bc7ba4234a85abb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:54 +0000
Subject: [PATCH 13/22] fix: bstree::erase(key) terminates the program when the
 comparison throws

---
 include/boost/intrusive/bstree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/bstree.hpp b/include/boost/intrusive/bstree.hpp
index 8196d36..0eeba5f 100644
--- a/include/boost/intrusive/bstree.hpp
+++ b/include/boost/intrusive/bstree.hpp
@@ -1440,11 +1440,11 @@ class bstree_impl
    //!
    //! <b>Complexity</b>: O(log(size() + N).
    //!
-   //! <b>Throws</b>: Nothing.
+   //! <b>Throws</b>: If the internal key_compare ordering function throws.
    //!
    //! <b>Note</b>: Invalidates the iterators (but not the references)
    //!    to the erased elements. No destructors are called.
-   size_type erase(const key_type &key) BOOST_NOEXCEPT
+   size_type erase(const key_type &key)
    {  return this->erase(key, this->key_comp());   }
 
    //! <b>Requires</b>: key is a value such that `*this` is partitioned with respect to
-- 
2.43.0


From 7a3d4b47dc820ab3da0b3a0c8bbde38ba06ab085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 14/22] fix: hashtable rehashing lost the sentinel of
 linear_buckets when the hash function throws

---
 include/boost/intrusive/hashtable.hpp | 28 +++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 3e1293b..14a716b 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -472,6 +472,31 @@ class exception_bucket_disposer
    }
 };
 
+//Marks again the sentinel bucket (if any) when something goes wrong
+template<class InternalData>
+class exception_sentinel_restorer
+{
+   InternalData *data_;
+
+   exception_sentinel_restorer(const exception_sentinel_restorer&);
+   exception_sentinel_restorer &operator=(const exception_sentinel_restorer&);
+
+   public:
+
+   explicit exception_sentinel_restorer(InternalData &data)
+      :  data_(&data)
+   {}
+
+   inline void release()
+   {  data_ = 0;  }
+
+   ~exception_sentinel_restorer()
+   {
+      if(data_)
+         data_->priv_set_sentinel_bucket();
+   }
+};
+
 template<class SupposedValueTraits>
 struct unordered_bucket_impl
 {
@@ -3843,6 +3868,8 @@ class hashtable_impl
       typedef typename internal_type::template typeof_node_disposer<detail::null_disposer>::type NodeDisposer;
       typedef exception_bucket_disposer<bucket_type, slist_node_algorithms, NodeDisposer, size_type> ArrayDisposer;
       NodeDisposer nd(this->make_node_disposer(detail::null_disposer()));
+      //Destroyed after emptying the buckets, as the sentinel could be one of them
+      exception_sentinel_restorer<internal_type> rollback0(*this);
       ArrayDisposer rollback1(new_buckets[0], nd, new_bucket_count);
       ArrayDisposer rollback2(old_buckets[0], nd, old_bucket_count);
 
@@ -3916,6 +3943,7 @@ class hashtable_impl
          this->priv_bucket_traits() = new_bucket_traits;
       this->priv_set_sentinel_bucket();
       this->priv_set_cache_bucket_num(new_first_bucket_num);
+      rollback0.release();
       rollback1.release();
       rollback2.release();
    }
-- 
2.43.0


From b0bd05c6d74b51b0040c695f5f67db74c124c775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 15/22] fix: hashtable rehashing broke groups of more than two
 equivalent elements (optimize_multikey)

---
 include/boost/intrusive/hashtable.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 14a716b..45cbc03 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3893,12 +3893,20 @@ class hashtable_impl
                ; i != end_sit
                ; i = before_i, ++i){
 
-               //First obtain hash value (and store it if do_full_rehash)
+               //If the target bucket is new, transfer the whole group
+               siterator last = i;
+               (priv_go_to_last_in_group)(last, optimize_multikey_t());
+
+               //First obtain hash value (and store it in the whole group if do_full_rehash)
                std::size_t hash_value;
                if(do_full_rehash){
-                  value_type &v = this->priv_value_from_siterator(i);
-                  hash_value = this->priv_hasher()(key_of_value()(v));
-                  node_functions_t::store_hash(this->priv_value_to_node_ptr(v), hash_value, store_hash_t());
+                  hash_value = this->priv_hasher()(key_of_value()(this->priv_value_from_siterator(i)));
+                  for(siterator j(i); ; ++j){
+                     node_functions_t::store_hash
+                        (this->priv_value_to_node_ptr(this->priv_value_from_siterator(j)), hash_value, store_hash_t());
+                     if(j == last)
+                        break;
+                  }
                }
                else{
                   const value_type &v = this->priv_value_from_siterator(i);
@@ -3913,10 +3921,6 @@ class hashtable_impl
                if(cache_begin && new_n < new_first_bucket_num)
                   new_first_bucket_num = new_n;
 
-               //If the target bucket is new, transfer the whole group
-               siterator last = i;
-               (priv_go_to_last_in_group)(i, optimize_multikey_t());
-
                if(same_buffer && new_n == n){
                   before_i = last;
                }
-- 
2.43.0


From 8cc0409cb459f1cc83e13766c61641362c3b0c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 16/22] fix: hashtable/unordered_multiset operator== skipped
 elements

---
 include/boost/intrusive/hashtable.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 45cbc03..a501af3 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3766,14 +3766,11 @@ class hashtable_impl
    friend bool operator==(const hashtable_impl &x, const hashtable_impl &y)
    {
       //Taken from N3068
-      if(constant_time_size && x.size() != y.size()){
+      if(x.size() != y.size()){
          return false;
       }
 
-      if (boost::intrusive::iterator_udistance(x.begin(), x.end()) != x.size())
-         return false;
-         
-      for (const_iterator ix = x.cbegin(), ex = x.cend(); ix != ex; ++ix){
+      for (const_iterator ix = x.cbegin(), ex = x.cend(); ix != ex; ){
          std::pair<const_iterator, const_iterator> eqx(x.equal_range(key_of_value()(*ix))),
                                                    eqy(y.equal_range(key_of_value()(*ix)));
          if (boost::intrusive::iterator_distance(eqx.first, eqx.second) !=
-- 
2.43.0


From 2eed590b9e32f900e618d0df540f5e266e56d957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 17/22] fix: unordered_set operator== was true for a subset
 without constant-time size

---
 include/boost/intrusive/unordered_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/unordered_set.hpp b/include/boost/intrusive/unordered_set.hpp
index c53ec52..5494e33 100644
--- a/include/boost/intrusive/unordered_set.hpp
+++ b/include/boost/intrusive/unordered_set.hpp
@@ -386,7 +386,7 @@ class unordered_set_impl
 
    friend bool operator==(const unordered_set_impl &x, const unordered_set_impl &y)
    {
-      if(table_type::constant_time_size && x.size() != y.size()){
+      if(x.size() != y.size()){
          return false;
       }
       //Find each element of x in y
-- 
2.43.0


From 95cd47e3ec0517a31adf092d8fa3e94eef21c4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 18/22] fix: rehash to a divisor of the bucket count cached an
 empty bucket as first (cache_begin)

---
 include/boost/intrusive/hashtable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index a501af3..5d23cfe 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3930,7 +3930,7 @@ class hashtable_impl
          else{
             const size_type new_n = (size_type)hash_to_bucket_split<power_2_buckets, incremental>
                                        (n, new_bucket_count, split, fastmod_buckets_t());
-            if(cache_begin && new_n < new_first_bucket_num)
+            if(cache_begin && new_n < new_first_bucket_num && !slist_node_algorithms::is_empty(old_bucket.get_node_ptr()))
                new_first_bucket_num = new_n;
             bucket_type &new_b = new_buckets[difference_type(new_n)];
             siterator last = this->priv_get_last(old_bucket, optimize_multikey_t());
-- 
2.43.0


From e48e8733ad074326672f40627ce5974e0df27ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 19/22] fix: incremental_rehash(false) cached an empty bucket
 as first (cache_begin)

---
 include/boost/intrusive/hashtable.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 5d23cfe..713273c 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3663,7 +3663,8 @@ class hashtable_impl
          bucket_type &source_bucket = this->priv_bucket(split_idx-1u);
          slist_node_algorithms::transfer_after(target_bucket.get_node_ptr(), source_bucket.get_node_ptr());
          this->dec_split_count();
-         this->priv_insertion_update_cache(target_bucket_num);
+         if(!this->priv_bucket_empty(target_bucket_num))
+            this->priv_insertion_update_cache(target_bucket_num);
       }
       return ret;
    }
-- 
2.43.0


From 846bc10b77cf29c52882e7e93d6d5df4d93225ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 20/22] fix: incremental_rehash to other buckets left a wrong
 begin() in an empty container (cache_begin)

---
 include/boost/intrusive/hashtable.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 713273c..b48240b 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3722,7 +3722,11 @@ class hashtable_impl
             slist_node_algorithms::transfer_after(new_bucket_nodeptr, old_bucket_node_ptr);
          }
          //Reset cache to safe position
-         this->priv_set_cache_bucket_num(ini_n);
+         this->priv_set_cache_bucket_num(ini_n < split_idx ? ini_n : new_bucket_count);
+      }
+      else if(!(ini_n < split_idx)){
+         //The end of the bucket array has changed
+         this->priv_init_cache();
       }
 
       this->priv_set_sentinel_bucket();
-- 
2.43.0


From cebe7fdbdc330376d3348116793c4353c0df0b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 21/22] fix: clone_from left a wrong size and could touch
 memory past the buckets when the cloner throws

---
 include/boost/intrusive/hashtable.hpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index b48240b..00b133d 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -4020,14 +4020,11 @@ class hashtable_impl
       //First clone the first ones
       const size_type src_bucket_count = src.bucket_count();
       const size_type dst_bucket_count = this->bucket_count();
-      size_type constructed = 0;
-      typedef typename internal_type::template typeof_node_disposer<Disposer>::type NodeDisposer;
-      NodeDisposer node_disp(disposer, &this->priv_value_traits());
-
-      exception_bucket_disposer<bucket_type, slist_node_algorithms, NodeDisposer, size_type>
-         rollback(this->priv_bucket(0), node_disp, constructed);
+      //Destination buckets do not match the source ones and the size and the cache
+      //are updated with each insertion, so everything inserted must be undone
+      detail::exception_disposer<hashtable_impl, Disposer> rollback(*this, disposer);
       //Now insert the remaining ones using the modulo trick
-      for( //"constructed" already initialized
+      for( size_type constructed = 0
          ; constructed < src_bucket_count
          ; ++constructed){
 
-- 
2.43.0


From 5a00fb8310d6a5b797ebcc93eea4ce4c4384b057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:02 +0000
Subject: [PATCH 22/22] fix: equal_range of linear bucket containers returned
 an end iterator without bucket

---
 include/boost/intrusive/hashtable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 00b133d..a32f48d 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -4210,7 +4210,7 @@ class hashtable_impl
          r.bucket_first = r.bucket_second = this->priv_invalid_bucket_ptr();
       }
       else if (to_return.second != this->priv_end_sit()) {
-         r.bucket_first = this->priv_bucket_ptr(n_bucket);
+         r.bucket_first = r.bucket_second = this->priv_bucket_ptr(n_bucket);
       }
       else{
          r.bucket_first = this->priv_bucket_ptr(n_bucket);
-- 
2.43.0

