From 5d4a79b39ab085680eda0d91a2e72a0e44392fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:08 +0000
Subject: [PATCH 1/8] fix: do not move from an lvalue coroutine-function
 (C++11)

wrapper's constructor applied std::move() to its forwarding parameters, so a
coroutine-function passed as lvalue was moved from instead of being copied.
---
 include/boost/coroutine2/detail/wrap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/coroutine2/detail/wrap.hpp b/include/boost/coroutine2/detail/wrap.hpp
index 9c32edf..bb0aef5 100644
--- a/include/boost/coroutine2/detail/wrap.hpp
+++ b/include/boost/coroutine2/detail/wrap.hpp
@@ -34,8 +34,8 @@ private:
 
 public:
     wrapper( Fn1 && fn1, Fn2 && fn2) :
-        fn1_( std::move( fn1) ),
-        fn2_( std::move( fn2) ) {
+        fn1_( std::forward< Fn1 >( fn1) ),
+        fn2_( std::forward< Fn2 >( fn2) ) {
     }
 
     wrapper( wrapper const&) = delete;
-- 
2.43.0


From 334ac7f9ea381b1aa1c9e59c9e69109f8890bc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:08 +0000
Subject: [PATCH 2/8] fix: do not destroy transferred data twice if its
 copy-/move-constructor throws

set() destroyed the old data but left it marked as valid while constructing the
new one; an exception from that constructor led to a second destructor call.
---
 include/boost/coroutine2/detail/pull_control_block_cc.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/coroutine2/detail/pull_control_block_cc.ipp b/include/boost/coroutine2/detail/pull_control_block_cc.ipp
index f511e29..7e43023 100644
--- a/include/boost/coroutine2/detail/pull_control_block_cc.ipp
+++ b/include/boost/coroutine2/detail/pull_control_block_cc.ipp
@@ -155,6 +155,8 @@ void
 pull_coroutine< T >::control_block::set( T const& t) {
     // destroy data if set
     if ( bvalid) {
+        // constructing the new data might throw
+        bvalid = false;
         reinterpret_cast< T * >( std::addressof( storage) )->~T();
     }
     ::new ( static_cast< void * >( std::addressof( storage) ) ) T( t);
@@ -166,6 +168,8 @@ void
 pull_coroutine< T >::control_block::set( T && t) {
     // destroy data if set
     if ( bvalid) {
+        // constructing the new data might throw
+        bvalid = false;
         reinterpret_cast< T * >( std::addressof( storage) )->~T();
     }
     ::new ( static_cast< void * >( std::addressof( storage) ) ) T( std::move( t) );
-- 
2.43.0


From b343d56caa2560c1df2390d39021f9a149c8bd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:08 +0000
Subject: [PATCH 3/8] fix: release the stack if copying the coroutine-function
 throws

The stack was allocated before the coroutine-function was copied and nothing
released it if the copy failed.
---
 .../coroutine2/detail/create_control_block.ipp  | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/boost/coroutine2/detail/create_control_block.ipp b/include/boost/coroutine2/detail/create_control_block.ipp
index 127ea84..c6272e8 100644
--- a/include/boost/coroutine2/detail/create_control_block.ipp
+++ b/include/boost/coroutine2/detail/create_control_block.ipp
@@ -9,6 +9,7 @@
 
 #include <cstddef>
 #include <memory>
+#include <type_traits>
 #include <utility>
 
 #include <boost/assert.hpp>
@@ -30,6 +31,20 @@ namespace detail {
 template< typename ControlBlock, typename StackAllocator, typename Fn >
 ControlBlock * create_control_block( StackAllocator && salloc, Fn && fn) {
     auto sctx = salloc.allocate();
+    // copying the coroutine-function might throw: do it while the stack can still be released
+    struct stack_guard {
+        typename std::remove_reference< StackAllocator >::type  &   salloc;
+        context::stack_context                                  &   sctx;
+        bool                                                        owns;
+
+        ~stack_guard() {
+            if ( owns) {
+                salloc.deallocate( sctx);
+            }
+        }
+    } guard{ salloc, sctx, true };
+    typename std::decay< Fn >::type fn_( std::forward< Fn >( fn) );
+    guard.owns = false;
     // reserve space for control structure
 #if defined(BOOST_NO_CXX11_CONSTEXPR) || defined(BOOST_NO_CXX11_STD_ALIGN)
     void * sp = static_cast< char * >( sctx.sp) - sizeof( ControlBlock);
@@ -48,7 +63,7 @@ ControlBlock * create_control_block( StackAllocator && salloc, Fn && fn) {
 #endif
     // placment new for control structure on coroutine stack
     return new ( sp) ControlBlock{ context::preallocated( sp, size, sctx),
-                                   std::forward< StackAllocator >( salloc), std::forward< Fn >( fn) };
+                                   std::forward< StackAllocator >( salloc), std::move( fn_) };
 }
 
 }}}
-- 
2.43.0


From 70fe2452601df6ad05608ac2ac52c01ec3b79f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:08 +0000
Subject: [PATCH 4/8] fix: align the control block for over-aligned data

The control block embeds the transferred data, but was aligned to 64 bytes only.
---
 include/boost/coroutine2/detail/create_control_block.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/coroutine2/detail/create_control_block.ipp b/include/boost/coroutine2/detail/create_control_block.ipp
index c6272e8..3bdc058 100644
--- a/include/boost/coroutine2/detail/create_control_block.ipp
+++ b/include/boost/coroutine2/detail/create_control_block.ipp
@@ -50,7 +50,7 @@ ControlBlock * create_control_block( StackAllocator && salloc, Fn && fn) {
     void * sp = static_cast< char * >( sctx.sp) - sizeof( ControlBlock);
     const std::size_t size = sctx.size - sizeof( ControlBlock);
 #else
-    constexpr std::size_t func_alignment = 64; // alignof( ControlBlock);
+    constexpr std::size_t func_alignment = alignof( ControlBlock) > 64 ? alignof( ControlBlock) : 64;
     constexpr std::size_t func_size = sizeof( ControlBlock);
     // reserve space on stack
     void * sp = static_cast< char * >( sctx.sp) - func_size - func_alignment;
-- 
2.43.0


From b04c99a641f9a39ed413e06f17519cae0c493b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:08 +0000
Subject: [PATCH 5/8] fix: move-assignment destroys the coroutine of the
 left-hand side

The operator swapped both coroutines, whereas the documentation says that it
destroys the internal data of *this and that other becomes not-a-coroutine.
---
 include/boost/coroutine2/detail/pull_coroutine.hpp | 10 +++++++---
 include/boost/coroutine2/detail/push_coroutine.hpp | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/boost/coroutine2/detail/pull_coroutine.hpp b/include/boost/coroutine2/detail/pull_coroutine.hpp
index 767a388..59215f5 100644
--- a/include/boost/coroutine2/detail/pull_coroutine.hpp
+++ b/include/boost/coroutine2/detail/pull_coroutine.hpp
@@ -9,6 +9,7 @@
 
 #include <iterator>
 #include <type_traits>
+#include <utility>
 
 #include <boost/assert.hpp>
 #include <boost/config.hpp>
@@ -55,7 +56,8 @@ public:
     pull_coroutine( pull_coroutine &&) noexcept;
 
     pull_coroutine & operator=( pull_coroutine && other) noexcept {
-        std::swap( cb_, other.cb_);
+        pull_coroutine tmp( std::move( other) );
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
@@ -166,7 +168,8 @@ public:
     pull_coroutine( pull_coroutine &&) noexcept;
 
     pull_coroutine & operator=( pull_coroutine && other) noexcept {
-        std::swap( cb_, other.cb_);
+        pull_coroutine tmp( std::move( other) );
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
@@ -275,7 +278,8 @@ public:
     pull_coroutine( pull_coroutine &&) noexcept;
 
     pull_coroutine & operator=( pull_coroutine && other) noexcept {
-        std::swap( cb_, other.cb_);
+        pull_coroutine tmp( std::move( other) );
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
diff --git a/include/boost/coroutine2/detail/push_coroutine.hpp b/include/boost/coroutine2/detail/push_coroutine.hpp
index 4b5ba5c..98e4684 100644
--- a/include/boost/coroutine2/detail/push_coroutine.hpp
+++ b/include/boost/coroutine2/detail/push_coroutine.hpp
@@ -9,6 +9,7 @@
 
 #include <iterator>
 #include <type_traits>
+#include <utility>
 
 #include <boost/assert.hpp>
 #include <boost/config.hpp>
@@ -54,7 +55,8 @@ public:
 
     push_coroutine & operator=( push_coroutine && other) noexcept {
         if ( this == & other) return * this;
-        std::swap( cb_, other.cb_);
+        push_coroutine tmp( std::move( other) );
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
@@ -139,7 +141,8 @@ public:
 
     push_coroutine & operator=( push_coroutine && other) noexcept {
         if ( this == & other) return * this;
-        std::swap( cb_, other.cb_);
+        push_coroutine tmp( std::move( other) );
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
@@ -222,7 +225,8 @@ public:
 
     push_coroutine & operator=( push_coroutine && other) noexcept {
         if ( this == & other) return * this;
-        std::swap( cb_, other.cb_);
+        push_coroutine tmp( std::move( other) );
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
-- 
2.43.0


From 998c515e0a13d0a8b4b452816660e2189056e9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:08 +0000
Subject: [PATCH 6/8] fix: output-iterator of a complete push-coroutine equals
 end

begin() of a push-coroutine that is complete or not-a-coroutine has to compare
equal to end(), as documented.
---
 include/boost/coroutine2/detail/push_coroutine.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/coroutine2/detail/push_coroutine.hpp b/include/boost/coroutine2/detail/push_coroutine.hpp
index 98e4684..112aa10 100644
--- a/include/boost/coroutine2/detail/push_coroutine.hpp
+++ b/include/boost/coroutine2/detail/push_coroutine.hpp
@@ -83,6 +83,9 @@ public:
 
         explicit iterator( push_coroutine< T > * c) noexcept :
             c_{ c } {
+            if ( nullptr != c_ && ! ( * c_) ) {
+                c_ = nullptr;
+            }
         }
 
         iterator & operator=( T t) {
@@ -167,6 +170,9 @@ public:
 
         explicit iterator( push_coroutine< T & > * c) noexcept :
             c_{ c } {
+            if ( nullptr != c_ && ! ( * c_) ) {
+                c_ = nullptr;
+            }
         }
 
         iterator & operator=( T & t) {
-- 
2.43.0


From 81a02a8b980455503547559839fb4c701b12b2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:09 +0000
Subject: [PATCH 7/8] fix: make fixedsize_stack.hpp and segmented_stack.hpp
 self-contained

Both headers included detail/coroutine.hpp before they defined
default_stack, which the coroutine templates refer to. A program whose
first coroutine2 header was one of them did not compile.
---
 include/boost/coroutine2/fixedsize_stack.hpp | 4 ++--
 include/boost/coroutine2/segmented_stack.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/coroutine2/fixedsize_stack.hpp b/include/boost/coroutine2/fixedsize_stack.hpp
index 54fc3df..be8e586 100644
--- a/include/boost/coroutine2/fixedsize_stack.hpp
+++ b/include/boost/coroutine2/fixedsize_stack.hpp
@@ -13,8 +13,6 @@
 #include <boost/config.hpp>
 #include <boost/context/fixedsize_stack.hpp>
 
-#include <boost/coroutine2/detail/coroutine.hpp>
-
 #ifdef BOOST_HAS_ABI_HEADERS
 #  include BOOST_ABI_PREFIX
 #endif
@@ -33,4 +31,6 @@ using default_stack = boost::context::default_stack;
 #  include BOOST_ABI_SUFFIX
 #endif
 
+#include <boost/coroutine2/detail/coroutine.hpp>
+
 #endif // BOOST_COROUTINES2_FIXEDSIZE_H
diff --git a/include/boost/coroutine2/segmented_stack.hpp b/include/boost/coroutine2/segmented_stack.hpp
index 24f93c8..ce0714b 100644
--- a/include/boost/coroutine2/segmented_stack.hpp
+++ b/include/boost/coroutine2/segmented_stack.hpp
@@ -13,8 +13,6 @@
 #include <boost/config.hpp>
 #include <boost/context/segmented_stack.hpp>
 
-#include <boost/coroutine2/detail/coroutine.hpp>
-
 #ifdef BOOST_HAS_ABI_HEADERS
 #  include BOOST_ABI_PREFIX
 #endif
@@ -35,4 +33,6 @@ using default_stack = boost::context::default_stack;
 #  include BOOST_ABI_SUFFIX
 #endif
 
+#include <boost/coroutine2/detail/coroutine.hpp>
+
 #endif // BOOST_COROUTINES2_SEGMENTED_H
-- 
2.43.0


From 5c1fd1b506de2c245f239e95a9438883f1a990db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:51 +0000
Subject: [PATCH 8/8] fix: transferring the stored value again reads a
 destroyed object

A pull_coroutine iterator or range-for loop hands out a reference to the
value in the control block. If the other side transfers this very object
(y( * i) ), set() destroyed it before copying from it.
---
 include/boost/coroutine2/detail/pull_control_block_cc.ipp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/boost/coroutine2/detail/pull_control_block_cc.ipp b/include/boost/coroutine2/detail/pull_control_block_cc.ipp
index 7e43023..8df9b8a 100644
--- a/include/boost/coroutine2/detail/pull_control_block_cc.ipp
+++ b/include/boost/coroutine2/detail/pull_control_block_cc.ipp
@@ -155,6 +155,10 @@ void
 pull_coroutine< T >::control_block::set( T const& t) {
     // destroy data if set
     if ( bvalid) {
+        // the stored data itself might be transferred again
+        if ( std::addressof( t) == std::addressof( get() ) ) {
+            return;
+        }
         // constructing the new data might throw
         bvalid = false;
         reinterpret_cast< T * >( std::addressof( storage) )->~T();
@@ -168,6 +172,10 @@ void
 pull_coroutine< T >::control_block::set( T && t) {
     // destroy data if set
     if ( bvalid) {
+        // the stored data itself might be transferred again
+        if ( std::addressof( t) == std::addressof( get() ) ) {
+            return;
+        }
         // constructing the new data might throw
         bvalid = false;
         reinterpret_cast< T * >( std::addressof( storage) )->~T();
-- 
2.43.0

