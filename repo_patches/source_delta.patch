From 95afe356481d62eb2e71a267ef81eb158f9f28fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 1/8] fix: sha2 update with a null pointer and zero size no
 longer calls memcpy from null

---
 include/boost/hash2/sha2.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/hash2/sha2.hpp b/include/boost/hash2/sha2.hpp
index 98493ed..a2c9d6d 100644
--- a/include/boost/hash2/sha2.hpp
+++ b/include/boost/hash2/sha2.hpp
@@ -54,6 +54,8 @@ struct sha2_base
 
         BOOST_ASSERT( m_ == n_ % N );
 
+        if( n == 0 ) return;
+
         n_ += n;
 
         if( m_ > 0 )
-- 
2.43.0


From 56a1cdec0d83bc91fa72f50040f93da81c0725f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 2/8] fix: get_integral_result from 16 to 8 bits no longer
 overflows int

---
 include/boost/hash2/get_integral_result.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/hash2/get_integral_result.hpp b/include/boost/hash2/get_integral_result.hpp
index c6742f4..3015986 100644
--- a/include/boost/hash2/get_integral_result.hpp
+++ b/include/boost/hash2/get_integral_result.hpp
@@ -144,7 +144,9 @@ template<class T, class R>
 
     constexpr auto m = detail::get_result_multiplier<U, R>();
 
-    return static_cast<T>( static_cast<U>( ( r * m ) >> ( std::numeric_limits<R>::digits - std::numeric_limits<U>::digits ) ) );
+    // m + 0u prevents a 16 bit R from being promoted to (signed) int, which can overflow
+
+    return static_cast<T>( static_cast<U>( ( r * ( m + 0u ) ) >> ( std::numeric_limits<R>::digits - std::numeric_limits<U>::digits ) ) );
 }
 
 // identity or expansion
-- 
2.43.0


From b6e09602a5898a02333293fc1db7ca1c83e83c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 3/8] fix: hash_append hashes negative zero as zero in every
 rounding mode

---
 include/boost/hash2/hash_append.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/hash2/hash_append.hpp b/include/boost/hash2/hash_append.hpp
index aacf57d..c80d4b0 100644
--- a/include/boost/hash2/hash_append.hpp
+++ b/include/boost/hash2/hash_append.hpp
@@ -213,7 +213,7 @@ template<class Hash, class Flavor, class T>
     typename std::enable_if< std::is_floating_point<T>::value && sizeof(T) == 4, void >::type
     do_hash_append( Hash& h, Flavor const& f, T const& v )
 {
-    hash2::hash_append( h, f, detail::bit_cast<std::uint32_t>( v + 0 ) );
+    hash2::hash_append( h, f, detail::bit_cast<std::uint32_t>( v == 0? T(): v ) );
 }
 
 template<class Hash, class Flavor, class T>
@@ -221,7 +221,7 @@ template<class Hash, class Flavor, class T>
     typename std::enable_if< std::is_floating_point<T>::value && sizeof(T) == 8, void >::type
     do_hash_append( Hash& h, Flavor const& f, T const& v )
 {
-    hash2::hash_append( h, f, detail::bit_cast<std::uint64_t>( v + 0 ) );
+    hash2::hash_append( h, f, detail::bit_cast<std::uint64_t>( v == 0? T(): v ) );
 }
 
 // std::nullptr_t
-- 
2.43.0


From 9a9900bcc34a8a31bb2b2ebdc52bf3f3d2cb227c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:32 +0000
Subject: [PATCH 4/8] fix: get_integral_result is constexpr and noexcept as
 documented

hash_append_unordered_range could not be used in constant expressions either, as it calls it.
---
 include/boost/hash2/get_integral_result.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/hash2/get_integral_result.hpp b/include/boost/hash2/get_integral_result.hpp
index 3015986..4fc5bfc 100644
--- a/include/boost/hash2/get_integral_result.hpp
+++ b/include/boost/hash2/get_integral_result.hpp
@@ -132,8 +132,8 @@ template<class U, class R>
 // contraction
 
 template<class T, class R>
-    typename std::enable_if<std::is_integral<R>::value && (sizeof(R) > sizeof(T)), T>::type
-    get_integral_result( R const & r )
+    BOOST_CXX14_CONSTEXPR typename std::enable_if<std::is_integral<R>::value && (sizeof(R) > sizeof(T)), T>::type
+    get_integral_result( R const & r ) noexcept
 {
     static_assert( std::is_integral<T>::value, "T must be integral" );
     static_assert( !std::is_same<typename std::remove_cv<T>::type, bool>::value, "T must not be bool" );
@@ -152,8 +152,8 @@ template<class T, class R>
 // identity or expansion
 
 template<class T, class R>
-    typename std::enable_if<std::is_integral<R>::value && (sizeof(R) <= sizeof(T)), T>::type
-    get_integral_result( R const & r )
+    BOOST_CXX14_CONSTEXPR typename std::enable_if<std::is_integral<R>::value && (sizeof(R) <= sizeof(T)), T>::type
+    get_integral_result( R const & r ) noexcept
 {
     static_assert( std::is_integral<T>::value, "T must be integral" );
     static_assert( !std::is_same<typename std::remove_cv<T>::type, bool>::value, "T must not be bool" );
@@ -170,8 +170,8 @@ template<class T, class R>
 // array-like R
 
 template<class T, class R>
-    typename std::enable_if< !std::is_integral<R>::value, T >::type
-    get_integral_result( R const & r )
+    BOOST_CXX14_CONSTEXPR typename std::enable_if< !std::is_integral<R>::value, T >::type
+    get_integral_result( R const & r ) noexcept
 {
     static_assert( std::is_integral<T>::value, "T must be integral" );
     static_assert( !std::is_same<typename std::remove_cv<T>::type, bool>::value, "T must not be bool" );
-- 
2.43.0


From c8f0d0fa3eab843d3fd01ec59ee569cc83b70e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:12 +0000
Subject: [PATCH 5/8] fix: murmur3 result() keeps the buffered tail in the
 state

---
 include/boost/hash2/legacy/murmur3.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/boost/hash2/legacy/murmur3.hpp b/include/boost/hash2/legacy/murmur3.hpp
index d04899a..964eb73 100644
--- a/include/boost/hash2/legacy/murmur3.hpp
+++ b/include/boost/hash2/legacy/murmur3.hpp
@@ -191,9 +191,11 @@ public:
         k = detail::rotl( k, 15 );
         k *= c2;
 
+        // keep the buffered tail in the state
+        h_ ^= k;
+
         std::uint32_t h = h_;
 
-        h ^= k;
         h ^= static_cast<std::uint32_t>( n_ );
 
         h ^= h >> 16; 
@@ -374,13 +376,14 @@ public:
 
         std::memset( buffer_ + m_, 0, 16 - m_ );
 
-        std::uint64_t h1 = h1_, h2 = h2_;
-
         std::uint64_t k1 = detail::read64le( buffer_ + 0 );
         std::uint64_t k2 = detail::read64le( buffer_ + 8 );
 
-        k1 *= c1; k1 = detail::rotl( k1, 31 ); k1 *= c2; h1 ^= k1;
-        k2 *= c2; k2 = detail::rotl( k2, 33 ); k2 *= c1; h2 ^= k2;
+        // keep the buffered tail in the state
+        k1 *= c1; k1 = detail::rotl( k1, 31 ); k1 *= c2; h1_ ^= k1;
+        k2 *= c2; k2 = detail::rotl( k2, 33 ); k2 *= c1; h2_ ^= k2;
+
+        std::uint64_t h1 = h1_, h2 = h2_;
 
         h1 ^= n_;
         h2 ^= n_;
-- 
2.43.0


From 8db1efc0cd8c804d0fbc18623fd81e2bd3754554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:22 +0000
Subject: [PATCH 6/8] fix: sized and unordered ranges hash the value type of
 proxy iterators

---
 include/boost/hash2/hash_append.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/hash2/hash_append.hpp b/include/boost/hash2/hash_append.hpp
index c80d4b0..59e65cd 100644
--- a/include/boost/hash2/hash_append.hpp
+++ b/include/boost/hash2/hash_append.hpp
@@ -123,7 +123,8 @@ template<class Hash, class Flavor, class It> void BOOST_CXX14_CONSTEXPR hash_app
 
     for( ; first != last; ++first, ++m )
     {
-        hash2::hash_append( h, f, *first );
+        typename std::iterator_traits<It>::value_type const& v = *first;
+        hash2::hash_append( h, f, v );
     }
 
     hash2::hash_append_size( h, f, m );
@@ -153,7 +154,9 @@ template<class Hash, class Flavor = default_flavor, class It> BOOST_CXX14_CONSTE
     for( ; first != last; ++first, ++m )
     {
         Hash h2( h );
-        hash2::hash_append( h2, f, *first );
+
+        typename std::iterator_traits<It>::value_type const& v = *first;
+        hash2::hash_append( h2, f, v );
 
         w += hash2::get_integral_result<std::uint64_t>( h2.result() );
     }
-- 
2.43.0


From fcb821071cfaed111a1d14b9d944866e16ad8b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:37 +0000
Subject: [PATCH 7/8] fix: do not use an overloaded operator& of the hashed
 type

hash_append of a std::array or boost::array of a class with an overloaded
unary & hashed (and read) whatever that operator returned instead of the
elements, and a contiguously hashable class with one was hashed from there
too. Use __builtin_addressof, which is constexpr, where there is one.
---
 include/boost/hash2/detail/addressof.hpp | 37 ++++++++++++++++++++++++
 include/boost/hash2/detail/config.hpp    | 14 +++++++++
 include/boost/hash2/hash_append.hpp      |  6 ++--
 3 files changed, 55 insertions(+), 2 deletions(-)
 create mode 100644 include/boost/hash2/detail/addressof.hpp

diff --git a/include/boost/hash2/detail/addressof.hpp b/include/boost/hash2/detail/addressof.hpp
new file mode 100644
index 0000000..ab11524
--- /dev/null
+++ b/include/boost/hash2/detail/addressof.hpp
@@ -0,0 +1,37 @@
+#ifndef BOOST_HASH2_DETAIL_ADDRESSOF_HPP_INCLUDED
+#define BOOST_HASH2_DETAIL_ADDRESSOF_HPP_INCLUDED
+
+// Copyright 2024 Peter Dimov
+// Distributed under the Boost Software License, Version 1.0.
+// https://www.boost.org/LICENSE_1_0.txt
+
+#include <boost/hash2/detail/config.hpp>
+#include <boost/config.hpp>
+
+namespace boost
+{
+namespace hash2
+{
+namespace detail
+{
+
+// same as std::addressof, but constexpr before C++17
+
+template<class T> constexpr T* addressof( T& v ) noexcept
+{
+#if defined(BOOST_HASH2_HAS_BUILTIN_ADDRESSOF)
+
+    return __builtin_addressof( v );
+
+#else
+
+    return &v;
+
+#endif
+}
+
+} // namespace detail
+} // namespace hash2
+} // namespace boost
+
+#endif // #ifndef BOOST_HASH2_DETAIL_ADDRESSOF_HPP_INCLUDED
diff --git a/include/boost/hash2/detail/config.hpp b/include/boost/hash2/detail/config.hpp
index 96ee397..b1ac8dc 100644
--- a/include/boost/hash2/detail/config.hpp
+++ b/include/boost/hash2/detail/config.hpp
@@ -31,4 +31,18 @@
 # endif
 #endif
 
+// __builtin_addressof
+
+#if defined(BOOST_MSVC) && BOOST_MSVC >= 1910
+# define BOOST_HASH2_HAS_BUILTIN_ADDRESSOF
+#endif
+
+#if defined(BOOST_GCC) && BOOST_GCC >= 70000
+# define BOOST_HASH2_HAS_BUILTIN_ADDRESSOF
+#elif defined(__has_builtin)
+# if __has_builtin(__builtin_addressof)
+#  define BOOST_HASH2_HAS_BUILTIN_ADDRESSOF
+# endif
+#endif
+
 #endif // #ifndef BOOST_HASH2_DETAIL_CONFIG_HPP_INCLUDED
diff --git a/include/boost/hash2/hash_append.hpp b/include/boost/hash2/hash_append.hpp
index 59e65cd..e79707b 100644
--- a/include/boost/hash2/hash_append.hpp
+++ b/include/boost/hash2/hash_append.hpp
@@ -16,6 +16,7 @@
 #include <boost/hash2/has_constant_size.hpp>
 #include <boost/hash2/get_integral_result.hpp>
 #include <boost/hash2/flavor.hpp>
+#include <boost/hash2/detail/addressof.hpp>
 #include <boost/hash2/detail/is_constant_evaluated.hpp>
 #include <boost/hash2/detail/bit_cast.hpp>
 #include <boost/hash2/detail/write.hpp>
@@ -285,7 +286,8 @@ template<class Hash, class Flavor, class T>
     else
     {
         // std::array<>::data() is only constexpr in C++17; boost::array<>::operator[] isn't constexpr
-        hash2::hash_append_range( h, f, &v.front(), &v.front() + v.size() );
+        auto const* p = detail::addressof( v.front() );
+        hash2::hash_append_range( h, f, p, p + v.size() );
     }
 }
 
@@ -415,7 +417,7 @@ BOOST_CXX14_CONSTEXPR void hash_append( Hash& h, Flavor const& f, T const& v )
 {
     if( !detail::is_constant_evaluated() && is_contiguously_hashable<T, Flavor::byte_order>::value )
     {
-        h.update( &v, sizeof(T) );
+        h.update( detail::addressof( v ), sizeof(T) );
     }
     else
     {
-- 
2.43.0


From bb4c260ac957a1a7d65df4f21875dfd8daa6dce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:37 +0000
Subject: [PATCH 8/8] fix: do not use an overloaded operator, of the caller's
 iterators

hash_append_sized_range and hash_append_unordered_range rejected iterators
with a deleted operator, (and called any other).
---
 include/boost/hash2/hash_append.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/hash2/hash_append.hpp b/include/boost/hash2/hash_append.hpp
index e79707b..82f32a4 100644
--- a/include/boost/hash2/hash_append.hpp
+++ b/include/boost/hash2/hash_append.hpp
@@ -122,7 +122,7 @@ template<class Hash, class Flavor, class It> void BOOST_CXX14_CONSTEXPR hash_app
 {
     typename std::iterator_traits<It>::difference_type m = 0;
 
-    for( ; first != last; ++first, ++m )
+    for( ; first != last; ++first, (void)++m )
     {
         typename std::iterator_traits<It>::value_type const& v = *first;
         hash2::hash_append( h, f, v );
@@ -152,7 +152,7 @@ template<class Hash, class Flavor = default_flavor, class It> BOOST_CXX14_CONSTE
 
     std::uint64_t w = 0;
 
-    for( ; first != last; ++first, ++m )
+    for( ; first != last; ++first, (void)++m )
     {
         Hash h2( h );
 
-- 
2.43.0

