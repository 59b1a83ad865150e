From dfcef4e462cbbd870396c7b1ad2cdbba831f0996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:00 +0000
Subject: [PATCH 1/8] fix: do not use a stale segment sentinel after a failed
 operation

---
 include/boost/poly_collection/detail/segment.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/boost/poly_collection/detail/segment.hpp b/include/boost/poly_collection/detail/segment.hpp
index a080839..cf25b5d 100644
--- a/include/boost/poly_collection/detail/segment.hpp
+++ b/include/boost/poly_collection/detail/segment.hpp
@@ -104,7 +104,8 @@ public:
   base_iterator        end()const noexcept{return impl().end();}
   template<typename U>
   base_iterator        end()const noexcept{return impl<U>().nv_end();}
-  base_sentinel        sentinel()const noexcept{return snt;}
+  base_sentinel        sentinel()const noexcept
+                         {return snt_ok?snt:base_sentinel(impl().end());}
   bool                 empty()const noexcept{return impl().empty();}
   template<typename U>
   bool                 empty()const noexcept{return impl<U>().nv_empty();}
@@ -278,7 +279,11 @@ private:
   segment(from_prototype,const segment& x,const allocator_type& al):
     pimpl{x.impl().empty_copy(al)}{set_sentinel();}
 
-  segment_backend&       impl()noexcept{return *pimpl;}
+  /* a mutating operation on the backend may exit via an exception after having
+   * changed its end: snt is not to be trusted until refreshed by filter.
+   */
+
+  segment_backend&       impl()noexcept{snt_ok=false;return *pimpl;}
   const segment_backend& impl()const noexcept{return *pimpl;}
 
   template<typename Concrete>
@@ -300,11 +305,12 @@ private:
   static const void*   subaddress(const T& x){return Model::subaddress(x);}
 
   void          set_sentinel(){filter(impl().end());}
-  void          filter(base_sentinel x){snt=x;}
-  base_iterator filter(const range& x){snt=x.second;return x.first;}
+  void          filter(base_sentinel x){snt=x;snt_ok=true;}
+  base_iterator filter(const range& x){filter(x.second);return x.first;}
 
   segment_backend_unique_ptr pimpl;
   base_sentinel              snt;
+  bool                       snt_ok;
 };
 
 } /* namespace poly_collection::detail */
-- 
2.43.0


From f49bee18df774fa1e0cab6f08079b17a337915db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:26 +0000
Subject: [PATCH 2/8] fix: keep split_segment index in step when erasing throws

---
 include/boost/poly_collection/detail/split_segment.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/poly_collection/detail/split_segment.hpp b/include/boost/poly_collection/detail/split_segment.hpp
index 4c18788..8b6cc0c 100644
--- a/include/boost/poly_collection/detail/split_segment.hpp
+++ b/include/boost/poly_collection/detail/split_segment.hpp
@@ -245,8 +245,9 @@ public:
 
   range nv_erase(const_iterator p)
   {
+    auto it=s.erase(iterator_from(p));
     pop_index_entry();
-    return range_from(s.erase(iterator_from(p)));
+    return range_from(it);
   }
     
   virtual range erase(const_base_iterator first,const_base_iterator last)
-- 
2.43.0


From b07c7854f739c865d818d503950550ecc01947e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:46 +0000
Subject: [PATCH 3/8] fix: keep split_segment index in step when inserting
 throws

---
 .../poly_collection/detail/split_segment.hpp  | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/boost/poly_collection/detail/split_segment.hpp b/include/boost/poly_collection/detail/split_segment.hpp
index 8b6cc0c..908bbfe 100644
--- a/include/boost/poly_collection/detail/split_segment.hpp
+++ b/include/boost/poly_collection/detail/split_segment.hpp
@@ -165,7 +165,7 @@ public:
   range nv_emplace(Iterator p,Args&&... args)
   {
     auto q=prereserve(p);
-    auto it=s.emplace(
+    auto it=emplace_(
       iterator_from(q),
       value_holder_emplacing_ctor,std::forward<Args>(args)...);
     push_index_entry();
@@ -209,7 +209,7 @@ public:
   range nv_insert(const_iterator p,const Concrete& x)
   {
     p=prereserve(p);
-    auto it=s.emplace(iterator_from(p),x);
+    auto it=emplace_(iterator_from(p),x);
     push_index_entry();
     return range_from(it);
   }
@@ -220,7 +220,7 @@ public:
   range nv_insert(const_iterator p,Concrete&& x)
   {
     p=prereserve(p);
-    auto it=s.emplace(iterator_from(p),std::move(x));
+    auto it=emplace_(iterator_from(p),std::move(x));
     push_index_entry();
     return range_from(it);
   }
@@ -325,6 +325,18 @@ private:
     build_index();
   }
 
+  template<typename... Args>
+  store_iterator emplace_(store_iterator it,Args&&... args)
+  {
+    try{
+      return s.emplace(it,std::forward<Args>(args)...);
+    }
+    catch(...){
+      rebuild_index(); /* s may have grown */
+      throw;
+    }
+  }
+
   void prereserve()
   {
     if(s.size()==s.capacity())expand();
@@ -471,7 +483,7 @@ private:
     std::size_t n=0;
     for(;first!=last;++first,++n,++p){
       p=prereserve(p);
-      s.emplace(iterator_from(p),*first);
+      emplace_(iterator_from(p),*first);
       push_index_entry();
     }
     return range_from(iterator_from(p-n));
-- 
2.43.0


From ff2d88348b3600785ae2c09a4e4444a93086d344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:05 +0000
Subject: [PATCH 4/8] fix: make room in split_segment index for all the store
 capacity

---
 include/boost/poly_collection/detail/split_segment.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/poly_collection/detail/split_segment.hpp b/include/boost/poly_collection/detail/split_segment.hpp
index 908bbfe..c561395 100644
--- a/include/boost/poly_collection/detail/split_segment.hpp
+++ b/include/boost/poly_collection/detail/split_segment.hpp
@@ -315,6 +315,7 @@ private:
     i{{},typename index::allocator_type{al}}
   {
     s.reserve(1); /* --> s.data()!=nullptr */
+    i.reserve(s.capacity()+1);
     build_index();
   }
 
@@ -322,6 +323,7 @@ private:
     s{std::move(s_)},i{{},typename index::allocator_type{s.get_allocator()}}
   {
     s.reserve(1); /* --> s.data()!=nullptr */
+    i.reserve(s.capacity()+1);
     build_index();
   }
 
-- 
2.43.0


From 186ec230851908a253949d13f5b5bb0f3ec0d65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:45 +0000
Subject: [PATCH 5/8] fix: allow insertion of own elements into a full
 split_segment

---
 .../poly_collection/detail/split_segment.hpp  | 45 ++++++++++++++++---
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/include/boost/poly_collection/detail/split_segment.hpp b/include/boost/poly_collection/detail/split_segment.hpp
index c561395..16ae2b7 100644
--- a/include/boost/poly_collection/detail/split_segment.hpp
+++ b/include/boost/poly_collection/detail/split_segment.hpp
@@ -164,9 +164,15 @@ public:
   template<typename Iterator,typename... Args>
   range nv_emplace(Iterator p,Args&&... args)
   {
-    auto q=prereserve(p);
+    if(s.size()==s.capacity()){
+      auto x=element(value_holder_emplacing_ctor,std::forward<Args>(args)...);
+      auto q=prereserve(p);
+      auto it=emplace_(iterator_from(q),std::move(x.front()));
+      push_index_entry();
+      return range_from(it);
+    }
     auto it=emplace_(
-      iterator_from(q),
+      iterator_from(p),
       value_holder_emplacing_ctor,std::forward<Args>(args)...);
     push_index_entry();
     return range_from(it);
@@ -175,8 +181,13 @@ public:
   template<typename... Args>
   range nv_emplace_back(Args&&... args)
   {
-    prereserve();
-    s.emplace_back(value_holder_emplacing_ctor,std::forward<Args>(args)...);
+    if(s.size()==s.capacity()){
+      auto x=element(value_holder_emplacing_ctor,std::forward<Args>(args)...);
+      prereserve();
+      s.emplace_back(std::move(x.front()));
+    }
+    else s.emplace_back(
+      value_holder_emplacing_ctor,std::forward<Args>(args)...);
     push_index_entry();
     return range_from(s.size()-1);
   }
@@ -186,8 +197,12 @@ public:
 
   range nv_push_back(const Concrete& x)
   {
-    prereserve();
-    s.emplace_back(x);
+    if(s.size()==s.capacity()){
+      auto y=element(x);
+      prereserve();
+      s.emplace_back(std::move(y.front()));
+    }
+    else s.emplace_back(x);
     push_index_entry();
     return range_from(s.size()-1);
   }
@@ -208,7 +223,13 @@ public:
 
   range nv_insert(const_iterator p,const Concrete& x)
   {
-    p=prereserve(p);
+    if(s.size()==s.capacity()){
+      auto y=element(x);
+      p=prereserve(p);
+      auto it=emplace_(iterator_from(p),std::move(y.front()));
+      push_index_entry();
+      return range_from(it);
+    }
     auto it=emplace_(iterator_from(p),x);
     push_index_entry();
     return range_from(it);
@@ -327,6 +348,16 @@ private:
     build_index();
   }
 
+  /* for use before expanding: args may refer to elements of s */
+
+  template<typename... Args>
+  store element(Args&&... args)
+  {
+    store res{s.get_allocator()};
+    res.emplace_back(std::forward<Args>(args)...);
+    return res;
+  }
+
   template<typename... Args>
   store_iterator emplace_(store_iterator it,Args&&... args)
   {
-- 
2.43.0


From 2dd59cfee54a587bdcf9ec06d5f7c53dc92c82b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:24 +0000
Subject: [PATCH 6/8] fix: restitute previous element across segments in
 adjacent_find and unique_copy

---
 include/boost/poly_collection/algorithm.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/poly_collection/algorithm.hpp b/include/boost/poly_collection/algorithm.hpp
index 67c4fc3..ab737b7 100644
--- a/include/boost/poly_collection/algorithm.hpp
+++ b/include/boost/poly_collection/algorithm.hpp
@@ -244,7 +244,7 @@ struct adjacent_find_alg
   >
   LocalBaseIterator operator()(
     LocalIterator first,LocalIterator last,BinaryPredicate pred,
-    bool& carry,const std::type_info* prev_info, /* note the &s */
+    bool& carry,const std::type_info*& prev_info, /* note the &s */
     LocalBaseIterator& prev)const
   {
     if(first==last)return LocalBaseIterator{last};
@@ -955,7 +955,7 @@ struct unique_copy_alg
   OutputIterator operator()(
     LocalIterator first,LocalIterator last,
     OutputIterator res, BinaryPredicate pred,
-    bool& carry,const std::type_info* prev_info, /* note the &s */
+    bool& carry,const std::type_info*& prev_info, /* note the &s */
     LocalBaseIterator& prev)const
   {
     if(carry){
-- 
2.43.0


From 19f8cd9081ee58137658c20d03decb64febb1f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:24 +0000
Subject: [PATCH 7/8] fix: type_info_map copy assignment gives the cache the
 allocator of the map

With propagate_on_container_copy_assignment but not
propagate_on_container_move_assignment (or when copying an element throws),
the cache kept its former allocator while the map got the new one: its memory
came from an allocator other than the collection's, and swapping two
collections with equal allocators mixed them up.
---
 .../boost/poly_collection/detail/type_info_map.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/boost/poly_collection/detail/type_info_map.hpp b/include/boost/poly_collection/detail/type_info_map.hpp
index f983b82..2e99456 100644
--- a/include/boost/poly_collection/detail/type_info_map.hpp
+++ b/include/boost/poly_collection/detail/type_info_map.hpp
@@ -100,12 +100,13 @@ public:
   {
     if(this!=&x)try{
       map=x.map;
-      cache=make<cache_type>(map.get_allocator());
+      reset_cache();
       build_cache(x.cache);
     }
     catch(...){
       map.clear();
       cache.clear();
+      reset_cache();
       throw;
     }
     return *this;
@@ -229,6 +230,17 @@ private:
   }
 #endif
 
+  /* Empties the cache after map has been copy assigned: done by copy assignment
+   * so that the cache gets its allocator replaced exactly when map does (which
+   * depends on propagate_on_container_copy_assignment).
+   */
+
+  void reset_cache()
+  {
+    const cache_type c=make<cache_type>(map.get_allocator());
+    cache=c;
+  }
+
   void build_cache(const cache_type& x)
   {
     for(const auto& p:x)cache.insert({p.first,map.find(p.first)});
-- 
2.43.0


From 0f50bd3438977f71f3fe9b595b6534db8f52cb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:01 +0000
Subject: [PATCH 8/8] fix: leave the source of type_info_map's
 allocator-extended move usable on failure

When moving to an unequal allocator fails, the source may hold moved-from
segments and its cache iterators to nodes already destroyed. Clear both, as
move assignment does.
---
 include/boost/poly_collection/detail/type_info_map.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/poly_collection/detail/type_info_map.hpp b/include/boost/poly_collection/detail/type_info_map.hpp
index 2e99456..f1bf7e3 100644
--- a/include/boost/poly_collection/detail/type_info_map.hpp
+++ b/include/boost/poly_collection/detail/type_info_map.hpp
@@ -81,7 +81,8 @@ public:
   type_info_map(const type_info_map& x,const allocator_type& al):
     map{make(x.map,al)},cache{make<cache_type>(al)}
     {build_cache(x.cache);}
-  type_info_map(type_info_map&& x,const allocator_type& al):
+  type_info_map(type_info_map&& x,const allocator_type& al)
+  try:
     map{make(std::move(x.map),al)},
     cache{
       al==allocator_type{x.map.get_allocator()}&&x.map.empty()?
@@ -95,6 +96,11 @@ public:
     x.map.clear();
     x.cache.clear();
   }
+  catch(...){
+    x.map.clear();
+    x.cache.clear();
+    throw;
+  }
 
   type_info_map& operator=(const type_info_map& x)
   {
-- 
2.43.0

