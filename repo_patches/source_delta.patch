From 035cc0a44a424c6265aedff4ae2a7d8795967c25 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 19:10:04 +0000
Subject: [PATCH 1/5] fix: modify with rollback keeps the element when rolling
 back after an exception succeeds

When a user-provided operation other than the modifier or the rollback functor
threw while the indices were being updated, the element was rolled back and then
erased anyway (and erased twice if the rollback check failed), because the rethrow
happened inside the try block guarding the rollback.
---
 include/boost/multi_index_container.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/multi_index_container.hpp b/include/boost/multi_index_container.hpp
index 8ac43fc..abebc8f 100644
--- a/include/boost/multi_index_container.hpp
+++ b/include/boost/multi_index_container.hpp
@@ -1074,16 +1074,18 @@ BOOST_MULTI_INDEX_PROTECTED_IF_MEMBER_TEMPLATE_FRIENDS:
       b=super::modify_rollback_(x);
     }
     BOOST_CATCH(...){
+      bool restored;
       BOOST_TRY{
         back_(const_cast<value_type&>(x->value()));
-        if(!super::check_rollback_(x))this->erase_(x);
-        BOOST_RETHROW;
+        restored=super::check_rollback_(x);
       }
       BOOST_CATCH(...){
         this->erase_(x);
         BOOST_RETHROW;
       }
       BOOST_CATCH_END
+      if(!restored)this->erase_(x);
+      BOOST_RETHROW;
     }
     BOOST_CATCH_END
 
-- 
2.43.0


From 3ee52a5814cefe5af9b21403a3e62efe623b8ff3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 19:14:00 +0000
Subject: [PATCH 2/5] fix: sequenced index sort is stable, as documented

Merging the newer run into the older one gave precedence to the elements of the
newer run among equivalent ones.
---
 include/boost/multi_index/detail/seq_index_ops.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/multi_index/detail/seq_index_ops.hpp b/include/boost/multi_index/detail/seq_index_ops.hpp
index b12cc32..6a2e554 100644
--- a/include/boost/multi_index/detail/seq_index_ops.hpp
+++ b/include/boost/multi_index/detail/seq_index_ops.hpp
@@ -160,7 +160,11 @@ void sequenced_index_sort(Node* header,Compare comp)
       impl_type::relink(carry.next(),header->next());
       std::size_t i=0;
       while(i<fill&&counter[i].next()!=static_cast<impl_pointer>(&counter[i])){
-        sequenced_index_collate<Node>(&carry,&counter[i++],comp);
+        /* counter[i] precedes carry: collate in this order for stability */
+        sequenced_index_collate<Node>(&counter[i],&carry,comp);
+        impl_type::swap(
+          static_cast<impl_pointer>(&carry),
+          static_cast<impl_pointer>(&counter[i++]));
       }
       impl_type::swap(
         static_cast<impl_pointer>(&carry),
-- 
2.43.0


From dbc2480f6e5c0288bd0910b8b2727dcc24e5254a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 19:14:00 +0000
Subject: [PATCH 3/5] fix: random access index unique(pred) evaluates
 pred(*i,*(i-1)), as documented

---
 include/boost/multi_index/detail/rnd_index_ops.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/multi_index/detail/rnd_index_ops.hpp b/include/boost/multi_index/detail/rnd_index_ops.hpp
index f5e76e4..6ed6745 100644
--- a/include/boost/multi_index/detail/rnd_index_ops.hpp
+++ b/include/boost/multi_index/detail/rnd_index_ops.hpp
@@ -64,8 +64,8 @@ Node* random_access_index_unique(
   if(first!=last){
     for(;++first!=last;){
       if(!binary_pred(
-           const_cast<const value_type&>(Node::from_impl(*res)->value()),
-           const_cast<const value_type&>(Node::from_impl(*first)->value()))){
+           const_cast<const value_type&>(Node::from_impl(*first)->value()),
+           const_cast<const value_type&>(Node::from_impl(*res)->value()))){
         ++res;
         if(first!=res){
           std::swap(*first,*res);
-- 
2.43.0


From 6d8a6adb6b5135822c766614816109f7f93ec9bc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 19:18:34 +0000
Subject: [PATCH 4/5] fix: range splice of a sequenced index propagates
 exceptions

An exception thrown while transferring elements before a position other than
end() was swallowed, and the elements were then relinked a second time through an
already advanced iterator, corrupting the index.
---
 include/boost/multi_index/sequenced_index.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/multi_index/sequenced_index.hpp b/include/boost/multi_index/sequenced_index.hpp
index 770a6ce..3ea6f5f 100644
--- a/include/boost/multi_index/sequenced_index.hpp
+++ b/include/boost/multi_index/sequenced_index.hpp
@@ -1110,6 +1110,7 @@ private:
       BOOST_CATCH(...){
         ++first_to_relink;
         relink(position.get_node(),first_to_relink.get_node(),header());
+        BOOST_RETHROW;
       }
       BOOST_CATCH_END
       ++first_to_relink;
-- 
2.43.0


From de256c7487bb7e35c8e0f9ec2d00effa67ba7cb1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 19:27:23 +0000
Subject: [PATCH 5/5] fix: hashed and random access indices obtain memory from
 the container's own allocator when copied or moved

The internal arrays of these indices were allocated through the source's allocator
even if the new container had a different one, and could later be deallocated
through an allocator not equal to the one that allocated them.
---
 include/boost/multi_index/hashed_index.hpp        | 4 ++--
 include/boost/multi_index/random_access_index.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/multi_index/hashed_index.hpp b/include/boost/multi_index/hashed_index.hpp
index 5100d3c..72deff6 100644
--- a/include/boost/multi_index/hashed_index.hpp
+++ b/include/boost/multi_index/hashed_index.hpp
@@ -770,7 +770,7 @@ BOOST_MULTI_INDEX_PROTECTED_IF_MEMBER_TEMPLATE_FRIENDS:
     key(x.key),
     hash_(x.hash_),
     eq_(x.eq_),
-    buckets(x.get_allocator(),header()->impl(),x.buckets.size()),
+    buckets(this->get_allocator(),header()->impl(),x.buckets.size()),
     mlf(x.mlf),
     max_load(x.max_load)
 
@@ -791,7 +791,7 @@ BOOST_MULTI_INDEX_PROTECTED_IF_MEMBER_TEMPLATE_FRIENDS:
     key(x.key),
     hash_(x.hash_),
     eq_(x.eq_),
-    buckets(x.get_allocator(),header()->impl(),0),
+    buckets(this->get_allocator(),header()->impl(),0),
     mlf(1.0f)
 
 #if defined(BOOST_MULTI_INDEX_ENABLE_SAFE_MODE)
diff --git a/include/boost/multi_index/random_access_index.hpp b/include/boost/multi_index/random_access_index.hpp
index 96b4565..a86fb6d 100644
--- a/include/boost/multi_index/random_access_index.hpp
+++ b/include/boost/multi_index/random_access_index.hpp
@@ -766,7 +766,7 @@ BOOST_MULTI_INDEX_PROTECTED_IF_MEMBER_TEMPLATE_FRIENDS:
 
   random_access_index(const random_access_index<SuperMeta,TagList>& x):
     super(x),
-    ptrs(x.get_allocator(),header()->impl(),x.size())
+    ptrs(this->get_allocator(),header()->impl(),x.size())
 
 #if defined(BOOST_MULTI_INDEX_ENABLE_SAFE_MODE)
     ,safe(*this)
@@ -780,7 +780,7 @@ BOOST_MULTI_INDEX_PROTECTED_IF_MEMBER_TEMPLATE_FRIENDS:
   random_access_index(
     const random_access_index<SuperMeta,TagList>& x,do_not_copy_elements_tag):
     super(x,do_not_copy_elements_tag()),
-    ptrs(x.get_allocator(),header()->impl(),0)
+    ptrs(this->get_allocator(),header()->impl(),0)
 
 #if defined(BOOST_MULTI_INDEX_ENABLE_SAFE_MODE)
     ,safe(*this)
-- 
2.43.0

