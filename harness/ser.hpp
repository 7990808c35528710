// Independent serializer: the byte message the documentation prescribes for a value, written from the documentation
// alone (reference/hash_append.adoc, hashing_objects.adoc). Also random value generators for the same types.
#ifndef VERIF_SER_HPP
#define VERIF_SER_HPP
#include "rec.hpp"
#include <boost/hash2/hash_append.hpp>
#include <boost/hash2/flavor.hpp>
#include <boost/hash2/digest.hpp>
#include <boost/array.hpp>
#include <boost/describe.hpp>
#include <vector>
#include <deque>
#include <list>
#include <forward_list>
#include <string>
#include <array>
#include <set>
#include <map>
#include <unordered_set>
#include <unordered_map>
#include <boost/unordered_set.hpp>
#include <boost/unordered_map.hpp>
#include <tuple>
#include <utility>
#include <type_traits>
#include <limits>
#if __cplusplus >= 201703L
# include <string_view>
#endif
#if __cplusplus >= 202002L
# include <span>
#endif

namespace vf
{
namespace h2 = boost::hash2;

// user defined flavors
struct FlavB32 { using size_type = std::uint32_t; static constexpr auto byte_order = h2::endian::big; };
struct FlavL8  { using size_type = std::uint8_t;  static constexpr auto byte_order = h2::endian::little; };
struct FlavB16 { using size_type = std::uint16_t; static constexpr auto byte_order = h2::endian::big; };

// run-time description of a flavor for the oracle
struct Fl { bool be; int size; char const* name; };
template<class F> inline Fl flavor_of();
template<> inline Fl flavor_of<h2::little_endian_flavor>(){ return Fl{ false, 8, "little" }; }
template<> inline Fl flavor_of<h2::big_endian_flavor>(){ return Fl{ true, 8, "big" }; }
template<> inline Fl flavor_of<h2::default_flavor>(){ u32 one = 1; u8 b; std::memcpy( &b, &one, 1 ); return Fl{ b == 0, 8, "default" }; }
template<> inline Fl flavor_of<FlavB32>(){ return Fl{ true, 4, "big/size32" }; }
template<> inline Fl flavor_of<FlavL8>(){ return Fl{ false, 1, "little/size8" }; }
template<> inline Fl flavor_of<FlavB16>(){ return Fl{ true, 2, "big/size16" }; }

struct Ctx // serialization in progress: the whole message so far, and how an unordered element is reduced
{
    Fl f; bytes m; u64 (*reduce)( bytes const& );
    void num( u64 v, int n ){ for( int i = 0; i < n; ++i ) m.push_back( (u8)( v >> 8 * ( f.be ? n - 1 - i : i ) ) ); }
    void size( u64 n ){ num( n, f.size ); }
    void zero(){ m.push_back( 0 ); }       // stands in for "nothing"
};

template<class T, class En = void> struct Ser;
template<class T> inline void ser( Ctx& c, T const& v ){ Ser<T>::go( c, v ); }

template<class T> struct Ser<T, typename std::enable_if<std::is_integral<T>::value>::type> { static void go( Ctx& c, T const& v ){ c.num( (u64)v, (int)sizeof( T ) ); } };
template<class T> struct Ser<T, typename std::enable_if<std::is_enum<T>::value>::type> { static void go( Ctx& c, T const& v ){ c.num( (u64)static_cast<typename std::underlying_type<T>::type>( v ), (int)sizeof( T ) ); } };
template<class T> struct Ser<T, typename std::enable_if<std::is_pointer<T>::value>::type> { static void go( Ctx& c, T const& v ){ c.num( (u64)reinterpret_cast<std::uintptr_t>( v ), (int)sizeof( T ) ); } };
template<> struct Ser<std::nullptr_t> { static void go( Ctx& c, std::nullptr_t const& ){ c.num( 0, (int)sizeof( void* ) ); } };
template<> struct Ser<float> { static void go( Ctx& c, float const& v ){ u32 b; std::memcpy( &b, &v, 4 ); if( b == 0x80000000u ) b = 0; c.num( b, 4 ); } };
template<> struct Ser<double> { static void go( Ctx& c, double const& v ){ u64 b; std::memcpy( &b, &v, 8 ); if( b == 0x8000000000000000ull ) b = 0; c.num( b, 8 ); } };

// containers whose size varies: the elements, then the size
template<class V> inline void ser_sized( Ctx& c, V const& v ){ u64 n = 0; for( auto it = v.begin(); it != v.end(); ++it, ++n ){ typename V::value_type const& e = *it; ser( c, e ); } c.size( n ); }
#define VF_SIZED( ... ) { static void go( Ctx& c, __VA_ARGS__ const& v ){ ser_sized( c, v ); } };
template<class T> struct Ser<std::vector<T>> VF_SIZED( std::vector<T> )
template<class T> struct Ser<std::deque<T>> VF_SIZED( std::deque<T> )
template<class T> struct Ser<std::list<T>> VF_SIZED( std::list<T> )
template<class T> struct Ser<std::forward_list<T>> VF_SIZED( std::forward_list<T> )
template<class T> struct Ser<std::basic_string<T>> VF_SIZED( std::basic_string<T> )
template<class T> struct Ser<std::set<T>> VF_SIZED( std::set<T> )
template<class T> struct Ser<std::multiset<T>> VF_SIZED( std::multiset<T> )
template<class K, class V> struct Ser<std::map<K, V>> { static void go( Ctx& c, std::map<K, V> const& v ){ ser_sized( c, v ); } };
template<class K, class V> struct Ser<std::multimap<K, V>> { static void go( Ctx& c, std::multimap<K, V> const& v ){ ser_sized( c, v ); } };
#if __cplusplus >= 201703L
template<class T> struct Ser<std::basic_string_view<T>> VF_SIZED( std::basic_string_view<T> )
#endif
// fixed size: the elements only; a null byte when there are none
template<class It> inline void ser_fixed( Ctx& c, It f, It l ){ if( f == l ) c.zero(); for( ; f != l; ++f ) ser( c, *f ); }
template<class T, std::size_t N> struct Ser<std::array<T, N>> { static void go( Ctx& c, std::array<T, N> const& v ){ ser_fixed( c, v.begin(), v.end() ); } };
template<class T, std::size_t N> struct Ser<boost::array<T, N>> { static void go( Ctx& c, boost::array<T, N> const& v ){ ser_fixed( c, v.begin(), v.end() ); } };
template<class T, std::size_t N> struct Ser<T[N]> { static void go( Ctx& c, T const (&v)[N] ){ ser_fixed( c, v + 0, v + N ); } };
template<std::size_t N> struct Ser<h2::digest<N>> { static void go( Ctx& c, h2::digest<N> const& v ){ ser_fixed( c, v.begin(), v.end() ); } };
// tuples
template<class T, std::size_t I, std::size_t N> struct SerTuple { static void go( Ctx& c, T const& v ){ using std::get; ser( c, get<I>( v ) ); SerTuple<T, I + 1, N>::go( c, v ); } };
template<class T, std::size_t N> struct SerTuple<T, N, N> { static void go( Ctx& c, T const& ){ if( N == 0 ) c.zero(); } };
template<class A, class B> struct Ser<std::pair<A, B>> { static void go( Ctx& c, std::pair<A, B> const& v ){ ser( c, v.first ); ser( c, v.second ); } };
template<class... T> struct Ser<std::tuple<T...>>: SerTuple<std::tuple<T...>, 0, sizeof...( T )> {};
// unordered: the sum of the hashes each element would give on its own from here, then the size
template<class V> inline void ser_unordered( Ctx& c, V const& v )
{
    u64 w = 0, n = 0;
    for( auto it = v.begin(); it != v.end(); ++it, ++n ){ Ctx e( c ); ser( e, *it ); w += c.reduce( e.m ); }
    c.num( w, 8 ); c.size( n );
}
#define VF_UNORD1( X ) template<class T> struct Ser<X<T>> { static void go( Ctx& c, X<T> const& v ){ ser_unordered( c, v ); } };
#define VF_UNORD2( X ) template<class K, class V> struct Ser<X<K, V>> { static void go( Ctx& c, X<K, V> const& v ){ ser_unordered( c, v ); } };
VF_UNORD1( std::unordered_set ) VF_UNORD1( std::unordered_multiset ) VF_UNORD1( boost::unordered_set ) VF_UNORD1( boost::unordered_multiset )
VF_UNORD2( std::unordered_map ) VF_UNORD2( std::unordered_multimap ) VF_UNORD2( boost::unordered_map ) VF_UNORD2( boost::unordered_multimap )
template<class T> struct Ser<T const>: Ser<T> {};

template<class F, class R, class T> inline bytes expected( T const& v, bytes const& before = bytes() )
{
    Ctx c; c.f = flavor_of<F>(); c.m = before; c.reduce = &R::reduce; ser( c, v ); return bytes( c.m.begin() + before.size(), c.m.end() );
}

// ---------------------------------------------------------------- random values
template<class T, class En = void> struct Gen;
template<class T> inline T gen( Rng& r ){ return Gen<T>::go( r ); }
struct GenNest { static int& depth(){ static thread_local int d = 0; return d; } GenNest(){ ++depth(); } ~GenNest(){ --depth(); } };   // inside a container being generated
inline std::size_t gen_count( Rng& r )
{
    if( GenNest::depth() == 0 && r.chance( 1, 12 ) ) switch( r.below( 4 ) ){ case 0: return 15 + r.below( 4 ); case 1: return 31 + r.below( 4 ); case 2: return 60 + r.below( 70 ); default: return 20 + r.below( 290 ); }   // now and then a long one
    if( GenNest::depth() == 0 && r.chance( 1, 170 ) ) return r.chance( 1, 10 ) ? 65530 + r.below( 12 ) : ( (std::size_t)512 << r.below( 4 ) ) + r.below( 5 ) - 2;   // rarely a very long one
    switch( r.below( 6 ) ){ case 0: return 0; case 1: return 1; case 2: return 2; case 3: return r.below( 5 ); case 4: return r.below( 9 ); default: return r.below( GenNest::depth() > 2 ? 5 : 20 ); }
}

template<class T> struct Gen<T, typename std::enable_if<std::is_integral<T>::value>::type> { static T go( Rng& r )
{
    u64 x;
    switch( r.below( 8 ) )
    {
    case 0: x = 0; break; case 1: x = r.below( 3 ); break; case 2: x = ~0ull - r.below( 3 ); break; case 3: x = 1ull << r.below( 64 ); break;
    case 4: x = 0x0102030405060708ull; break; case 5: x = (u64)std::numeric_limits<T>::max() + r.below( 2 ); break; default: x = r.next();
    }
    return (T)x;
} };
template<> struct Gen<bool> { static bool go( Rng& r ){ return r.chance( 1, 2 ); } };
template<class T> struct Gen<T, typename std::enable_if<std::is_enum<T>::value>::type> { static T go( Rng& r ){ return static_cast<T>( gen<typename std::underlying_type<T>::type>( r ) ); } };
template<class T> struct Gen<T*> { static T* go( Rng& r ){ return r.chance( 1, 4 ) ? nullptr : reinterpret_cast<T*>( (std::uintptr_t)( r.next() >> r.below( 56 ) ) ); } };
template<> struct Gen<std::nullptr_t> { static std::nullptr_t go( Rng& ){ return nullptr; } };
template<class T> struct Gen<T, typename std::enable_if<std::is_floating_point<T>::value>::type> { static T go( Rng& r )
{
    typedef std::numeric_limits<T> L;
    switch( r.below( 10 ) )
    {
    case 0: return T( 0 ); case 1: return -T( 0 ); case 2: return T( 1 ); case 3: return -T( 3.5 ); case 4: return L::max(); case 5: return L::min(); case 6: return L::denorm_min() * ( 1 + (int)r.below( 9 ) ); case 7: return r.chance( 1, 2 ) ? L::infinity() : -L::infinity();
    default: { typename std::conditional<sizeof( T ) == 4, u32, u64>::type b; do { b = (decltype( b ))r.next(); T t; std::memcpy( &t, &b, sizeof( T ) ); if( t == t ) return t; } while( true ); }
    }
} };
template<class V> inline V gen_seq( Rng& r ){ V v; std::size_t n = gen_count( r ); GenNest nest; while( n-- ) v.push_back( gen<typename V::value_type>( r ) ); return v; }
#define VF_GSEQ( ... ) { static __VA_ARGS__ go( Rng& r ){ return gen_seq<__VA_ARGS__>( r ); } };
template<class T> struct Gen<std::vector<T>> VF_GSEQ( std::vector<T> )
template<class T> struct Gen<std::deque<T>> VF_GSEQ( std::deque<T> )
template<class T> struct Gen<std::list<T>> VF_GSEQ( std::list<T> )
template<class T> struct Gen<std::basic_string<T>> VF_GSEQ( std::basic_string<T> )
template<class T> struct Gen<std::forward_list<T>> { static std::forward_list<T> go( Rng& r ){ std::forward_list<T> v; std::size_t n = gen_count( r ); GenNest nest; while( n-- ) v.push_front( gen<T>( r ) ); return v; } };
template<class V> inline V gen_set( Rng& r ){ V v; std::size_t n = gen_count( r ); GenNest nest; while( n-- ){ auto e = gen<typename V::value_type>( r ); v.insert( e ); if( r.chance( 1, 5 ) ) v.insert( e ); } return v; }
template<class V> inline V gen_map( Rng& r ){ V v; std::size_t n = gen_count( r ); GenNest nest; while( n-- ){ auto k = gen<typename V::key_type>( r ); auto x = gen<typename V::mapped_type>( r ); v.insert( typename V::value_type( k, x ) ); if( r.chance( 1, 5 ) ) v.insert( typename V::value_type( k, x ) ); } return v; }
#define VF_GSET( X ) template<class T> struct Gen<X<T>> { static X<T> go( Rng& r ){ return gen_set<X<T>>( r ); } };
#define VF_GMAP( X ) template<class K, class V> struct Gen<X<K, V>> { static X<K, V> go( Rng& r ){ return gen_map<X<K, V>>( r ); } };
VF_GSET( std::set ) VF_GSET( std::multiset ) VF_GSET( std::unordered_set ) VF_GSET( std::unordered_multiset ) VF_GSET( boost::unordered_set ) VF_GSET( boost::unordered_multiset )
VF_GMAP( std::map ) VF_GMAP( std::multimap ) VF_GMAP( std::unordered_map ) VF_GMAP( std::unordered_multimap ) VF_GMAP( boost::unordered_map ) VF_GMAP( boost::unordered_multimap )
template<class T, std::size_t N> struct Gen<std::array<T, N>> { static std::array<T, N> go( Rng& r ){ std::array<T, N> a; for( std::size_t i = 0; i < N; ++i ) a[i] = gen<T>( r ); return a; } };
template<class T, std::size_t N> struct Gen<boost::array<T, N>> { static boost::array<T, N> go( Rng& r ){ boost::array<T, N> a; for( std::size_t i = 0; i < N; ++i ) a.elems[i] = gen<T>( r ); return a; } };
template<class T> struct Gen<std::array<T, 0>> { static std::array<T, 0> go( Rng& ){ return std::array<T, 0>(); } };
template<class T> struct Gen<boost::array<T, 0>> { static boost::array<T, 0> go( Rng& ){ return boost::array<T, 0>(); } };
template<std::size_t N> struct Gen<h2::digest<N>> { static h2::digest<N> go( Rng& r ){ h2::digest<N> d; for( std::size_t i = 0; i < N; ++i ) d[i] = (u8)r.next(); return d; } };
template<class A, class B> struct Gen<std::pair<A, B>> { static std::pair<A, B> go( Rng& r ){ A a = gen<A>( r ); return std::pair<A, B>( a, gen<B>( r ) ); } };
template<class... T> struct Gen<std::tuple<T...>> { static std::tuple<T...> go( Rng& r ){ (void)r; return std::tuple<T...>{ gen<T>( r )... }; } };
template<class T, std::size_t N> inline void gen_array( Rng& r, T (&a)[N] );
template<class T> inline void gen_into( Rng& r, T& v ){ v = gen<T>( r ); }
template<class T, std::size_t N> inline void gen_into( Rng& r, T (&a)[N] ){ for( std::size_t i = 0; i < N; ++i ) gen_into( r, a[i] ); }
} // namespace vf
#endif
