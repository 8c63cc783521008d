From ad19bd53a8c9b48a5a70cf83bb1532be70cfaccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:25 +0000
Subject: [PATCH 1/6] fix: do not destroy a transferred value twice if
 constructing the next one throws

control_block::set() destroyed the stored value, then constructed the new one;
if that constructor threw, bvalid stayed set and the destroyed object was
destroyed again by the next set() or by the control block's destructor.
---
 include/boost/coroutine2/detail/pull_control_block_cc.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/coroutine2/detail/pull_control_block_cc.ipp b/include/boost/coroutine2/detail/pull_control_block_cc.ipp
index f511e29..66a1760 100644
--- a/include/boost/coroutine2/detail/pull_control_block_cc.ipp
+++ b/include/boost/coroutine2/detail/pull_control_block_cc.ipp
@@ -155,6 +155,8 @@ void
 pull_coroutine< T >::control_block::set( T const& t) {
     // destroy data if set
     if ( bvalid) {
+        // the constructor below might throw
+        bvalid = false;
         reinterpret_cast< T * >( std::addressof( storage) )->~T();
     }
     ::new ( static_cast< void * >( std::addressof( storage) ) ) T( t);
@@ -166,6 +168,8 @@ void
 pull_coroutine< T >::control_block::set( T && t) {
     // destroy data if set
     if ( bvalid) {
+        // the constructor below might throw
+        bvalid = false;
         reinterpret_cast< T * >( std::addressof( storage) )->~T();
     }
     ::new ( static_cast< void * >( std::addressof( storage) ) ) T( std::move( t) );
-- 
2.43.0


From 63e46ff85e88b5a6c65280995eebafdf048b5616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:25 +0000
Subject: [PATCH 2/6] fix: C++11: copy a coroutine-function passed as lvalue
 instead of moving from it

wrapper's constructor moved from its arguments even if they were lvalues; a
callable passed by name to a coroutine constructor was left moved-from.
---
 include/boost/coroutine2/detail/wrap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/coroutine2/detail/wrap.hpp b/include/boost/coroutine2/detail/wrap.hpp
index 9c32edf..bb0aef5 100644
--- a/include/boost/coroutine2/detail/wrap.hpp
+++ b/include/boost/coroutine2/detail/wrap.hpp
@@ -34,8 +34,8 @@ private:
 
 public:
     wrapper( Fn1 && fn1, Fn2 && fn2) :
-        fn1_( std::move( fn1) ),
-        fn2_( std::move( fn2) ) {
+        fn1_( std::forward< Fn1 >( fn1) ),
+        fn2_( std::forward< Fn2 >( fn2) ) {
     }
 
     wrapper( wrapper const&) = delete;
-- 
2.43.0


From e702ae91134e8b47a41e699ce42ef21becb9c72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:25 +0000
Subject: [PATCH 3/6] fix: move assignment destroys the previous coroutine and
 leaves the source empty

As documented: operator= destroys the internal data of *this, and other becomes
not-a-coroutine. It swapped them, so the source went on owning (and reported as
valid) the coroutine that had been assigned to.
---
 .../boost/coroutine2/detail/pull_coroutine.hpp    | 15 ++++++++++++---
 .../boost/coroutine2/detail/push_coroutine.hpp    | 12 +++++++++---
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/include/boost/coroutine2/detail/pull_coroutine.hpp b/include/boost/coroutine2/detail/pull_coroutine.hpp
index 767a388..8467d18 100644
--- a/include/boost/coroutine2/detail/pull_coroutine.hpp
+++ b/include/boost/coroutine2/detail/pull_coroutine.hpp
@@ -55,7 +55,10 @@ public:
     pull_coroutine( pull_coroutine &&) noexcept;
 
     pull_coroutine & operator=( pull_coroutine && other) noexcept {
-        std::swap( cb_, other.cb_);
+        if ( this == & other) return * this;
+        // destroys the previous coroutine of *this
+        pull_coroutine tmp{ std::move( other) };
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
@@ -166,7 +169,10 @@ public:
     pull_coroutine( pull_coroutine &&) noexcept;
 
     pull_coroutine & operator=( pull_coroutine && other) noexcept {
-        std::swap( cb_, other.cb_);
+        if ( this == & other) return * this;
+        // destroys the previous coroutine of *this
+        pull_coroutine tmp{ std::move( other) };
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
@@ -275,7 +281,10 @@ public:
     pull_coroutine( pull_coroutine &&) noexcept;
 
     pull_coroutine & operator=( pull_coroutine && other) noexcept {
-        std::swap( cb_, other.cb_);
+        if ( this == & other) return * this;
+        // destroys the previous coroutine of *this
+        pull_coroutine tmp{ std::move( other) };
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
diff --git a/include/boost/coroutine2/detail/push_coroutine.hpp b/include/boost/coroutine2/detail/push_coroutine.hpp
index 4b5ba5c..805c89b 100644
--- a/include/boost/coroutine2/detail/push_coroutine.hpp
+++ b/include/boost/coroutine2/detail/push_coroutine.hpp
@@ -54,7 +54,9 @@ public:
 
     push_coroutine & operator=( push_coroutine && other) noexcept {
         if ( this == & other) return * this;
-        std::swap( cb_, other.cb_);
+        // destroys the previous coroutine of *this
+        push_coroutine tmp{ std::move( other) };
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
@@ -139,7 +141,9 @@ public:
 
     push_coroutine & operator=( push_coroutine && other) noexcept {
         if ( this == & other) return * this;
-        std::swap( cb_, other.cb_);
+        // destroys the previous coroutine of *this
+        push_coroutine tmp{ std::move( other) };
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
@@ -222,7 +226,9 @@ public:
 
     push_coroutine & operator=( push_coroutine && other) noexcept {
         if ( this == & other) return * this;
-        std::swap( cb_, other.cb_);
+        // destroys the previous coroutine of *this
+        push_coroutine tmp{ std::move( other) };
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
-- 
2.43.0


From fbdd79d6ab852ad0376355a31ab880a3b8d13301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:25 +0000
Subject: [PATCH 4/6] fix: begin() of a complete push-coroutine compares equal
 to end()

As documented, an iterator first obtained from begin() compares equal to end()
if the coroutine's operator bool returns false.
---
 include/boost/coroutine2/detail/push_coroutine.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/coroutine2/detail/push_coroutine.hpp b/include/boost/coroutine2/detail/push_coroutine.hpp
index 805c89b..6c270e9 100644
--- a/include/boost/coroutine2/detail/push_coroutine.hpp
+++ b/include/boost/coroutine2/detail/push_coroutine.hpp
@@ -83,6 +83,9 @@ public:
 
         explicit iterator( push_coroutine< T > * c) noexcept :
             c_{ c } {
+            if ( ! ( * c_) ) {
+                c_ = nullptr;
+            }
         }
 
         iterator & operator=( T t) {
@@ -168,6 +171,9 @@ public:
 
         explicit iterator( push_coroutine< T & > * c) noexcept :
             c_{ c } {
+            if ( ! ( * c_) ) {
+                c_ = nullptr;
+            }
         }
 
         iterator & operator=( T & t) {
-- 
2.43.0


From 57c85c66c1ac87eada2b29d824b82c4674ed8c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:25 +0000
Subject: [PATCH 5/6] fix: align the control block for transferred types
 aligned to more than 64 bytes

The control block holds the transferred value, but was always placed at a
64 byte boundary.
---
 include/boost/coroutine2/detail/create_control_block.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/coroutine2/detail/create_control_block.ipp b/include/boost/coroutine2/detail/create_control_block.ipp
index 127ea84..fd047d4 100644
--- a/include/boost/coroutine2/detail/create_control_block.ipp
+++ b/include/boost/coroutine2/detail/create_control_block.ipp
@@ -35,7 +35,7 @@ ControlBlock * create_control_block( StackAllocator && salloc, Fn && fn) {
     void * sp = static_cast< char * >( sctx.sp) - sizeof( ControlBlock);
     const std::size_t size = sctx.size - sizeof( ControlBlock);
 #else
-    constexpr std::size_t func_alignment = 64; // alignof( ControlBlock);
+    constexpr std::size_t func_alignment = alignof( ControlBlock) > 64 ? alignof( ControlBlock) : 64;
     constexpr std::size_t func_size = sizeof( ControlBlock);
     // reserve space on stack
     void * sp = static_cast< char * >( sctx.sp) - func_size - func_alignment;
-- 
2.43.0


From 1f46e76ad2850e4cdc42ff00a578d64d80b93613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:25 +0000
Subject: [PATCH 6/6] fix: do not leak the stack if copying the
 coroutine-function throws

The callable was copied into the coroutine after its stack had been allocated,
but before anything owned that stack.
---
 include/boost/coroutine2/detail/create_control_block.ipp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/coroutine2/detail/create_control_block.ipp b/include/boost/coroutine2/detail/create_control_block.ipp
index fd047d4..ecef026 100644
--- a/include/boost/coroutine2/detail/create_control_block.ipp
+++ b/include/boost/coroutine2/detail/create_control_block.ipp
@@ -9,6 +9,7 @@
 
 #include <cstddef>
 #include <memory>
+#include <type_traits>
 #include <utility>
 
 #include <boost/assert.hpp>
@@ -29,6 +30,8 @@ namespace detail {
 
 template< typename ControlBlock, typename StackAllocator, typename Fn >
 ControlBlock * create_control_block( StackAllocator && salloc, Fn && fn) {
+    // copying the coroutine-function might throw: done before the stack gets allocated
+    typename std::decay< Fn >::type fn_( std::forward< Fn >( fn) );
     auto sctx = salloc.allocate();
     // reserve space for control structure
 #if defined(BOOST_NO_CXX11_CONSTEXPR) || defined(BOOST_NO_CXX11_STD_ALIGN)
@@ -48,7 +51,7 @@ ControlBlock * create_control_block( StackAllocator && salloc, Fn && fn) {
 #endif
     // placment new for control structure on coroutine stack
     return new ( sp) ControlBlock{ context::preallocated( sp, size, sctx),
-                                   std::forward< StackAllocator >( salloc), std::forward< Fn >( fn) };
+                                   std::forward< StackAllocator >( salloc), std::move( fn_) };
 }
 
 }}}
-- 
2.43.0

