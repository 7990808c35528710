// C16: unordered containers. The result depends only on the multiset of elements: not on insertion order, bucket
// count, erasures, rehashes, hasher seed or iteration order; and it does depend on every element and its multiplicity.
#include "algs.hpp"
#include "types.hpp"
#include <algorithm>
using namespace vf;

// hasher with a run-time salt: the same elements end up in different buckets and iterate in different orders
template<class T> struct SaltHash { u64 salt; explicit SaltHash( u64 s = 0 ): salt( s ){} std::size_t operator()( T const& v ) const { Ctx c; c.f = Fl{ false, 8, "" }; c.reduce = &Rec::reduce; ser( c, v ); return (std::size_t)( fp( c.m.data(), c.m.size() ) * ( salt | 1 ) >> ( salt % 23 ) ); } };
template<class K, class V> struct UMap: std::unordered_map<K, V, SaltHash<K>> { using std::unordered_map<K, V, SaltHash<K>>::unordered_map; };

// the library's algorithms, plus recorders
template<class H> static bytes digest_of( H h ){ return rbytes( h.result() ); }
template<class H, class F, class C> static bytes hash1( C const& c, bytes const& pre ){ H h; if( !pre.empty() ) h.update( pre.data(), pre.size() ); h2::hash_append( h, F(), c ); bytes r = rbytes( h.result() ), q = rbytes( h.result() ); r.insert( r.end(), q.begin(), q.end() ); return r; }

template<class C> static std::string order( C const& c ){ std::string s; int n = 0; for( auto const& e: c ){ Ctx x; x.f = Fl{ false, 8, "" }; x.reduce = &Rec::reduce; ser( x, e ); s += hex( x.m, 6 ) + ","; if( ++n > 12 ){ s += ".."; break; } } return s; }
template<class C> static u64 order_fp( C const& c ){ u64 f = 1; for( auto const& e: c ){ Ctx x; x.f = Fl{ false, 8, "" }; x.reduce = &Rec::reduce; ser( x, e ); f = fp( x.m.data(), x.m.size(), f ); } return f; }

struct Fam { std::string n; std::vector<std::string> why; };
static u64 g_orders = 0, g_perms = 0, g_exact = 0;

// compare all containers of one family (all equal as multisets) under one algorithm
template<class H, class F, class C> static void same( char const* hn, char const* cn, std::vector<C> const& fam, bytes const& pre )
{
    bytes w = hash1<H, F>( fam[0], pre );
    for( std::size_t i = 1; i < fam.size(); ++i ){ bytes g = hash1<H, F>( fam[i], pre ); lg().distinct( fpv( order_fp( fam[i] ), fp( std::string( hn ) + cn ) ) ); if( g != w ) { lg().violation( std::string( "order " ) + hn + " " + cn, std::string( cn ) + " with " + hn + ": iteration order " + order( fam[0] ) + " gives " + hex( w ) + ", " + order( fam[i] ) + " gives " + hex( g ) ); return; } }
}
template<class H, class F, class C> static void differ( char const* hn, char const* cn, C const& a, C const& b, bytes const& pre, char const* what )
{
    if( sizeof( typename H::result_type ) < 8 ) return; // 32 bit hashes may collide by accident
    bytes x = hash1<H, F>( a, pre ), y = hash1<H, F>( b, pre ); lg().eval(); if( x == y ) lg().violation( std::string( "insensitive " ) + hn + " " + cn, std::string( cn ) + " with " + hn + ": unequal containers (" + what + ") " + order( a ) + " and " + order( b ) + " hash the same" );
}
#define EACH_ALG( M ) M( h2::fnv1a_64 ) M( h2::xxhash_64 ) M( h2::siphash_64 ) M( h2::md5_128 ) M( h2::sha1_160 ) M( h2::sha2_256 ) M( h2::sha2_512 ) M( h2::sha2_512_224 ) M( h2::ripemd_160 ) M( h2::ripemd_128 ) M( h2::hmac_sha2_256 ) M( h2::hmac_md5_128 ) M( h2::fnv1a_32 ) M( h2::xxhash_32 ) M( h2::siphash_32 ) M( h2::murmur3_128 ) M( h2::spooky2_128 ) M( h2::murmur3_32 )

template<class C> static void family( char const* cn, std::vector<C> const& fam, C const* bigger, C const* other, Rng& r )
{
    u64 f0 = order_fp( fam[0] ); for( auto const& c: fam ){ ++g_perms; g_orders += order_fp( c ) != f0; }
    bytes pre = r.chance( 1, 2 ) ? r.buf( r.below( 80 ) ) : bytes();
#define M( H ) { same<H, h2::default_flavor>( #H, cn, fam, pre ); if( bigger ) differ<H, h2::default_flavor>( #H, cn, fam[0], *bigger, pre, "one more element" ); if( other ) differ<H, h2::default_flavor>( #H, cn, fam[0], *other, pre, "one element replaced" ); }
    EACH_ALG( M ) M( Rec ) M( RecA )
#undef M
    same<h2::xxhash_64, h2::big_endian_flavor>( "xxhash_64 big", cn, fam, pre ); same<h2::sha2_256, FlavB32>( "sha2_256 size32", cn, fam, pre );
}

template<class C> static C build( std::vector<typename C::value_type> e, Rng& r, int how )
{
    typedef typename C::hasher Hs; for( std::size_t i = e.size(); i > 1; --i ) std::swap( const_cast<typename std::remove_const<typename C::value_type>::type&>( e[ i - 1 ] ), const_cast<typename std::remove_const<typename C::value_type>::type&>( e[ r.below( i ) ] ) );
    C c( 1 + r.below( how == 1 ? 700 : 8 ) ); (void)sizeof( Hs ); if( how == 2 ) c.max_load_factor( 20 );
    for( auto const& x: e ) c.insert( x );
    return c;
}
template<class E> static void shuffle( std::vector<E>& v, Rng& r ){ for( std::size_t i = v.size(); i > 1; --i ) std::swap( v[ i - 1 ], v[ r.below( i ) ] ); }

template<class T> static void sets( char const* cn, Rng& r, bool multi )
{
    typedef std::unordered_set<T, SaltHash<T>> S; typedef std::unordered_multiset<T, SaltHash<T>> MS;
    std::vector<T> e; std::set<T> seen; std::size_t n = r.below( 14 ); if( r.chance( 1, 20 ) ) n = 100 + r.below( 300 );
    for( std::size_t i = 0; i < n; ++i ){ T t = gen<T>( r ); if( seen.insert( t ).second ) e.push_back( t ); if( multi && r.chance( 1, 2 ) && !e.empty() ) e.push_back( e[ r.below( e.size() ) ] ); }
    T extra = gen<T>( r ); while( seen.count( extra ) ) extra = gen<T>( r );
    auto mk = [&]( auto tag, std::vector<T> v, int how ){ typedef decltype( tag ) C; shuffle( v, r ); C c( 1 + r.below( how == 1 ? 900 : 4 ), SaltHash<T>( r.next() ) ); if( how == 2 ) c.max_load_factor( 50 ); for( auto const& x: v ) c.insert( x );
        if( how == 3 ){ T t = extra; c.insert( t ); c.erase( c.find( t ) ); } if( how == 4 ) c.rehash( 1 + r.below( 400 ) ); return c; };
    auto go = [&]( auto tag ){ typedef decltype( tag ) C; std::vector<C> fam; for( int i = 0; i < 5; ++i ) fam.push_back( mk( C(), e, i ) ); { C t; t = fam[1]; fam.push_back( t ); C u( fam[2] ); fam.push_back( u ); }
        std::vector<T> b = e; b.push_back( extra ); C bigger = mk( C(), b, 0 ); std::vector<T> o = e; C other = bigger; bool ho = !e.empty(); if( ho ){ o[0] = extra; other = mk( C(), o, 0 ); }
        family( cn, fam, &bigger, ho ? &other : nullptr, r );
        if( multi && !e.empty() ){ std::vector<T> d = e; d.push_back( e[0] ); C dup = mk( C(), d, 0 ); differ<h2::siphash_64, h2::default_flavor>( "siphash_64", cn, fam[0], dup, bytes(), "multiplicity" ); differ<h2::sha2_256, h2::default_flavor>( "sha2_256", cn, fam[0], dup, bytes(), "multiplicity" ); differ<h2::fnv1a_64, h2::big_endian_flavor>( "fnv1a_64", cn, fam[0], dup, bytes(), "multiplicity" );
            // {a,a,b} and {a,b,b}, {a,a} and {b,b}, {a,b} and {a,b,a,b}
            T x = e[0], y = extra; C p = mk( C(), { x, x, y }, 0 ), q = mk( C(), { x, y, y }, 0 ); differ<h2::siphash_64, h2::default_flavor>( "siphash_64", cn, p, q, bytes(), "aab abb" ); C p2 = mk( C(), { x, x }, 0 ), q2 = mk( C(), { y, y }, 0 ); differ<h2::siphash_64, h2::default_flavor>( "siphash_64", cn, p2, q2, bytes(), "aa bb" ); C p3 = mk( C(), { x, y }, 0 ), q3 = mk( C(), { x, y, x, y }, 0 ); differ<h2::siphash_64, h2::default_flavor>( "siphash_64", cn, p3, q3, bytes(), "ab abab" ); C p4 = mk( C(), {}, 0 ); differ<h2::md5_128, h2::default_flavor>( "md5_128", cn, p4, p2, bytes(), "empty aa" ); } };
    if( multi ) go( MS() ); else go( S() );
}
template<class K, class V> static void maps( char const* cn, Rng& r, bool multi )
{
    typedef std::unordered_map<K, V, SaltHash<K>> S; typedef std::unordered_multimap<K, V, SaltHash<K>> MS;
    std::vector<std::pair<K, V>> e; std::set<K> seen; std::size_t n = r.below( 12 );
    for( std::size_t i = 0; i < n; ++i ){ K k = gen<K>( r ); if( seen.insert( k ).second ) e.push_back( { k, gen<V>( r ) } ); if( multi && !e.empty() && r.chance( 1, 2 ) ) e.push_back( { e[ r.below( e.size() ) ].first, gen<V>( r ) } ); }
    K extra = gen<K>( r ); while( seen.count( extra ) ) extra = gen<K>( r );
    auto mk = [&]( auto tag, std::vector<std::pair<K, V>> v, int how ){ typedef decltype( tag ) C; shuffle( v, r ); C c( 1 + r.below( how == 1 ? 900 : 4 ), SaltHash<K>( r.next() ) ); if( how == 2 ) c.max_load_factor( 50 ); for( auto const& x: v ) c.insert( x ); if( how == 3 ){ c.insert( { extra, V() } ); c.erase( c.find( extra ) ); } if( how == 4 ) c.rehash( 1 + r.below( 400 ) ); return c; };
    auto go = [&]( auto tag ){ typedef decltype( tag ) C; std::vector<C> fam; for( int i = 0; i < 5; ++i ) fam.push_back( mk( C(), e, i ) ); auto b = e; b.push_back( { extra, gen<V>( r ) } ); C bigger = mk( C(), b, 0 ), other = bigger; bool ho = !e.empty(); if( ho ){ auto o = e; o[0].first = extra; other = mk( C(), o, 0 ); } family( cn, fam, &bigger, ho ? &other : nullptr, r );
        if( e.size() >= 2 && e[0].first != e[1].first ){ auto o = e; std::swap( o[0].second, o[1].second ); Ctx x, y; x.f = y.f = Fl{ false, 8, "" }; x.reduce = y.reduce = &Rec::reduce; ser( x, o[0].second ); ser( y, o[1].second ); if( x.m != y.m && !multi ){ C sw = mk( C(), o, 0 ); differ<h2::siphash_64, h2::default_flavor>( "siphash_64", cn, fam[0], sw, bytes(), "values exchanged between keys" ); differ<h2::xxhash_64, h2::default_flavor>( "xxhash_64", cn, fam[0], sw, bytes(), "values exchanged between keys" ); } } };
    if( multi ) go( MS() ); else go( S() );
}
template<class R, class F> static void exact( Rng& r ) // ranges, not containers: the same multiset in every permutation, against the formula
{
    std::vector<std::string> v; for( std::size_t n = r.below( 6 ); n--; ) v.push_back( gen<std::string>( r ) ); std::sort( v.begin(), v.end() ); bytes pre = r.buf( r.below( 50 ) ); Ctx c; c.f = flavor_of<F>(); c.m = pre; c.reduce = &R::reduce; ser_unordered( c, v ); bytes want( c.m.begin() + pre.size(), c.m.end() );
    do
    {
        R h; h.update( pre.data(), pre.size() ); h2::hash_append_unordered_range( h, F(), v.begin(), v.end() ); bytes got( h.log.begin() + pre.size(), h.log.end() ); u64 f = 3; for( auto& s: v ) f = fp( s, f ); lg().distinct( f ); ++g_exact;
        if( got != want ) lg().violation( "unordered range message", std::to_string( v.size() ) + " strings, flavor " + c.f.name + ": " + hex( got ) + " expected " + hex( want ) );
        if( h.results != 0 ) lg().violation( "unordered range finalizes", "result() was called on the object being appended to" );
    } while( std::next_permutation( v.begin(), v.end() ) );
}
// iterators that give proxies: what counts is their value type, as in the same elements stored in a vector
struct WideIt { template<class U> void operator,( U&& ) const = delete; typedef std::forward_iterator_tag iterator_category; typedef long long value_type; typedef std::ptrdiff_t difference_type; typedef void pointer; typedef short reference; short const* p; short operator*() const { return *p; } WideIt& operator++(){ ++p; return *this; } WideIt operator++( int ){ WideIt t( *this ); ++p; return t; } bool operator==( WideIt const& o ) const { return p == o.p; } bool operator!=( WideIt const& o ) const { return p != o.p; } };
template<class F> static void proxies( Rng& r )
{
    std::vector<short> v = gen<std::vector<short>>( r ); std::vector<long long> w( v.begin(), v.end() ); std::vector<bool> b; for( short x: v ) b.push_back( x & 1 ); shuffle( w, r ); std::deque<bool> d( b.begin(), b.end() );
    Rec h, g; h2::hash_append_unordered_range( h, F(), WideIt{ v.data() }, WideIt{ v.data() + v.size() } ); h2::hash_append_unordered_range( g, F(), w.begin(), w.end() ); lg().distinct( fp( g.log.data(), g.log.size() ) ); if( h.log != g.log ) lg().violation( "unordered proxies", "shorts presented as long long: " + hex( h.log ) + " expected " + hex( g.log ) );
    Rec i, j; h2::hash_append_unordered_range( i, F(), b.begin(), b.end() ); h2::hash_append_unordered_range( j, F(), d.rbegin(), d.rend() ); lg().eval(); if( i.log != j.log ) lg().violation( "unordered bits", "vector<bool>: " + hex( i.log ) + " and deque<bool>, reversed: " + hex( j.log ) );
}
// get_integral_result applied to algorithms with narrower results: the reduced value is the documented one
template<class H> static void formula( char const* hn, Rng& r )
{
    std::vector<int> v = gen<std::vector<int>>( r ); bytes pre = r.buf( r.below( 70 ) ); H a, b; a.update( pre.data(), pre.size() ); b.update( pre.data(), pre.size() );
    h2::hash_append_unordered_range( a, h2::little_endian_flavor(), v.begin(), v.end() );
    u64 w = 0; for( int x: v ){ H t( b ); u8 q[4]; for( int i = 0; i < 4; ++i ) q[i] = (u8)( (u32)x >> 8 * i ); t.update( q, 4 ); w += h2::get_integral_result<u64>( t.result() ); }
    bytes m = le8( w ); b.update( m.data(), 8 ); m = le8( v.size() ); b.update( m.data(), 8 ); bytes x = rbytes( a.result() ), y = rbytes( b.result() ); lg().distinct( fp( pre.data(), pre.size(), fp( hn ) ) ); if( x != y ) lg().violation( std::string( "formula " ) + hn, std::string( hn ) + ": unordered range of " + std::to_string( v.size() ) + " ints after " + std::to_string( pre.size() ) + " bytes: " + hex( x ) + " expected " + hex( y ) );
}
// large ranges and containers: the same elements ascending, descending, rotated and shuffled, and in the container's order
template<class H, class F, class T> static void large( char const* hn, std::vector<T> v, Rng& r )
{
    bytes pre = r.buf( r.below( 40 ) ), want; std::size_t const n = v.size();
    auto range = [&]( std::vector<T> const& x ){ H h; h.update( pre.data(), pre.size() ); h2::hash_append_unordered_range( h, F(), x.begin(), x.end() ); bytes a = rbytes( h.result() ), b = rbytes( h.result() ); a.insert( a.end(), b.begin(), b.end() ); return a; };
    auto judge = [&]( bytes const& g, std::string const& what ){ lg().distinct( fpv( n, fp( hn + what ) ) ); if( want.empty() ) want = g; else if( g != want ) lg().violation( std::string( "large " ) + hn + " " + what, std::string( hn ) + ": " + std::to_string( n ) + " elements, " + what + " gives " + hex( g ) + ", the first order " + hex( want ) ); };
    judge( range( v ), "first order" ); std::reverse( v.begin(), v.end() ); judge( range( v ), "reversed" ); std::rotate( v.begin(), v.begin() + n / 3, v.end() ); judge( range( v ), "rotated" );
    for( int i = 0; i < 2; ++i ){ shuffle( v, r ); judge( range( v ), "shuffled" ); }
    auto cont = [&]( std::unordered_multiset<T, SaltHash<T>> c, char const* what ){ for( auto const& x: v ) c.insert( x ); H h; h.update( pre.data(), pre.size() ); h2::hash_append( h, F(), c ); bytes a = rbytes( h.result() ), b = rbytes( h.result() ); a.insert( a.end(), b.begin(), b.end() ); judge( a, what ); };
    cont( std::unordered_multiset<T, SaltHash<T>>( 16, SaltHash<T>( r.next() ) ), "unordered_multiset" ); cont( std::unordered_multiset<T, SaltHash<T>>( 3 * n + 1, SaltHash<T>( r.next() ) ), "unordered_multiset, many buckets" );
    if( n > 1 )
    {
        bytes same = want; want.clear(); std::vector<T> u( v ); u[ n / 2 ] = v[ 0 ]; bool const alike = v[ n / 2 ] == v[ 0 ]; if( !alike && range( u ) == same && sizeof( typename H::result_type ) >= 8 ) lg().violation( std::string( "large insensitive " ) + hn, std::string( hn ) + ": replacing one of " + std::to_string( n ) + " elements changes nothing" );
        u = v; u.pop_back(); if( range( u ) == same && sizeof( typename H::result_type ) >= 8 ) lg().violation( std::string( "large insensitive " ) + hn, std::string( hn ) + ": removing one of " + std::to_string( n ) + " elements changes nothing" );
    }
}
// a range of n copies of one int without storage, and an algorithm that can afford four thousand million of them
struct Same { template<class U> void operator,( U&& ) const = delete; typedef std::input_iterator_tag iterator_category; typedef int value_type; typedef std::ptrdiff_t difference_type; typedef int const* pointer; typedef int const& reference; int const* v; u64 i; int const& operator*() const { return *v; } Same& operator++(){ ++i; return *this; } Same operator++( int ){ Same t( *this ); ++i; return t; } friend bool operator==( Same const& a, Same const& b ){ return a.i == b.i; } friend bool operator!=( Same const& a, Same const& b ){ return a.i != b.i; } };
struct Cheap { typedef u64 result_type; u64 s, last; Cheap(): s( 1 ), last( 0 ){} explicit Cheap( std::uint64_t x ): s( x + 1 ), last( 0 ){} Cheap( unsigned char const*, std::size_t n ): s( n + 1 ), last( 0 ){} void update( void const* p, std::size_t n ){ u64 w = 0; std::memcpy( &w, p, n < 8 ? n : 8 ); s = s * 3 + last; last = w; } u64 result(){ return s * 0x9E3779B97F4A7C15ull + last; } };
static void huge()
{
    int const x = 77; for( u64 n: { ( 1ull << 32 ) + 3, ( 1ull << 32 ), 65536ull, 5ull } )
    {
        Cheap h, e; h2::hash_append_unordered_range( h, h2::little_endian_flavor(), Same{ &x, 0 }, Same{ &x, n } );
        Cheap t( e ); bytes q = { 77, 0, 0, 0 }; t.update( q.data(), 4 ); u64 w = n * t.result(); bytes m = le8( w ); e.update( m.data(), 8 ); m = le8( n ); e.update( m.data(), 8 ); u64 g = h.result(), want = e.result(); lg().distinct( fpv( n, fp( "huge" ) ) );
        if( g != want ) lg().violation( "huge unordered range", std::to_string( n ) + " elements: " + std::to_string( g ) + " expected " + std::to_string( want ) );
    }
    lg().count( "elements of the longest unordered range", ( 1ull << 32 ) + 3 );
}
int main( int argc, char** argv )
{
    int part = argc > 1 ? std::atoi( argv[1] ) : 0; Rng r( seed() * 217645199 + part ); u64 const sc = scale(); if( part == 100 ){ huge(); return lg().finish(); }
    if( part < 6 ) for( std::size_t n: { std::size_t( 255 + part ), std::size_t( 512 ), std::size_t( 1000 + r.below( 60 ) ), std::size_t( 4097 ), std::size_t( 10000 + r.below( 9000 ) ), std::size_t( thorough() ? 300001 : 66000 ) } )
    {
        std::vector<int> v; for( std::size_t i = 0; i < n; ++i ) v.push_back( (int)( i * 7 ) ); std::vector<std::string> w; for( std::size_t i = 0; i < n / 4 + 1; ++i ) w.push_back( std::to_string( i * i ) + std::string( i % 11, 'x' ) ); std::vector<unsigned char> u = r.buf( n );
        switch( part ){
        case 0: large<h2::fnv1a_64, h2::default_flavor>( "fnv1a_64", v, r ); large<h2::xxhash_64, h2::default_flavor>( "xxhash_64", w, r ); large<h2::hmac_sha2_256, h2::default_flavor>( "hmac_sha2_256", std::vector<int>( v.begin(), v.begin() + v.size() / 8 ), r ); break;
        case 1: large<h2::siphash_64, h2::big_endian_flavor>( "siphash_64 big", v, r ); large<h2::xxhash_64, FlavB32>( "xxhash_64 size32", u, r ); break;
        case 2: large<h2::xxhash_32, h2::default_flavor>( "xxhash_32", v, r ); large<h2::siphash_32, h2::default_flavor>( "siphash_32", w, r ); large<h2::sha2_512_224, h2::default_flavor>( "sha2_512_224", std::vector<int>( v.begin(), v.begin() + v.size() / 8 ), r ); break;
        case 3: large<h2::sha2_256, h2::default_flavor>( "sha2_256", v, r ); large<h2::fnv1a_32, h2::default_flavor>( "fnv1a_32", u, r ); break;
        case 4: large<h2::md5_128, h2::default_flavor>( "md5_128", w, r ); large<h2::ripemd_160, h2::big_endian_flavor>( "ripemd_160 big", v, r ); break;
        case 5: large<h2::murmur3_128, h2::default_flavor>( "murmur3_128", v, r ); large<h2::spooky2_128, h2::default_flavor>( "spooky2_128", w, r ); large<h2::sha1_160, h2::default_flavor>( "sha1_160", v, r ); break;
        }
    }
    for( u64 k = 0; k < 60 * sc; ++k )
    {
        sets<int>( "unordered_set<int>", r, false ); sets<std::string>( "unordered_set<string>", r, false ); sets<int>( "unordered_multiset<int>", r, true ); sets<std::string>( "unordered_multiset<string>", r, true ); sets<unsigned char>( "unordered_multiset<uchar>", r, true );
        maps<int, std::string>( "unordered_map<int,string>", r, false ); maps<std::string, double>( "unordered_map<string,double>", r, false ); maps<short, std::vector<int>>( "unordered_multimap<short,vector>", r, true ); maps<int, std::unordered_set<int>>( "unordered_map<int,unordered_set>", r, false );
        for( int i = 0; i < 3; ++i ){ exact<Rec, h2::default_flavor>( r ); exact<Rec, h2::big_endian_flavor>( r ); exact<RecA, FlavL8>( r ); exact<RecA, FlavB32>( r ); }
        proxies<h2::default_flavor>( r ); proxies<h2::big_endian_flavor>( r ); proxies<FlavL8>( r );
        for( int i = 0; i < 6; ++i ){
#define M( H ) formula<H>( #H, r );
        EACH_ALG( M )
#undef M
        }
    }
    lg().count( "containers presented in some iteration order", g_perms ); lg().count( "explicit permutations of ranges", g_exact ); lg().count( "orders different from the first of their family", g_orders );
    if( g_orders < g_perms / 20 ) { std::fprintf( stderr, "workload produced too few distinct orders\n" ); return 3; }
    lg().sample( "families of 5-7 equal containers (shuffled insertion, bucket counts 1..900, load factor 50, insert+erase, rehash, copies) under 18 algorithms" );
    return lg().finish();
}
