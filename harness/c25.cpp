// C25: hash function objects written as the documentation shows, for many key types and all algorithms, in all three
// ways of seeding. Values are compared with the algorithm's model fed the key's expected message; equal keys built in
// different ways must agree; containers keyed with them are driven through random histories against a list of pairs;
// values of many keys must fill buckets evenly and not collide beyond chance. -DVF_GROUP selects the algorithms.
#include "algs.hpp"
#include "types.hpp"
#include <boost/hash2/get_integral_result.hpp>
#include <boost/unordered/unordered_flat_map.hpp>
#include <boost/unordered/unordered_map.hpp>
#include <boost/unordered/unordered_node_set.hpp>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <cmath>
#include <thread>
using namespace vf;
#ifndef VF_GROUP
# define VF_GROUP 0
#endif
#if VF_GROUP == 0
# define ALGS( X ) X( fnv1a_32 ) X( fnv1a_64 ) X( xxhash_32 ) X( xxhash_64 ) X( siphash_32 ) X( siphash_64 )
#elif VF_GROUP == 1
# define ALGS( X ) X( md5_128 ) X( sha1_160 ) X( sha2_256 ) X( sha2_512 ) X( sha2_384 ) X( ripemd_160 ) X( ripemd_128 )
#elif VF_GROUP == 2
# define ALGS( X ) X( sha2_224 ) X( sha2_512_256 ) X( sha2_512_224 ) X( hmac_md5_128 ) X( hmac_sha2_256 ) X( hmac_sha2_512 ) X( hmac_ripemd_160 )
#else
# define ALGS( X ) X( murmur3_32 ) X( murmur3_128 ) X( spooky2_128 ) X( hmac_sha1_160 ) X( hmac_sha2_384 ) X( hmac_ripemd_128 )
#endif

namespace
{
// as in the documentation
template<class T, class H> class hash
{
    H h_;
public:
    hash(): h_() {}
    explicit hash( std::uint64_t seed ): h_( seed ) {}
    hash( unsigned char const* p, std::size_t n ): h_( p, n ) {}
    std::size_t operator()( T const& v ) const { H h( h_ ); boost::hash2::hash_append( h, {}, v ); return boost::hash2::get_integral_result<std::size_t>( h.result() ); }
};
// any such object, so that the containers are instantiated once per key type
template<class T> struct Any { struct B { virtual ~B(){} virtual std::size_t go( T const& ) const = 0; }; template<class F> struct D: B { F f; explicit D( F const& f_ ): f( f_ ){} std::size_t go( T const& v ) const override { return f( v ); } }; std::shared_ptr<B const> p; Any(){} template<class F> static Any make( F const& f ){ Any a; a.p = std::make_shared<D<F>>( f ); return a; } std::size_t operator()( T const& v ) const { return p->go( v ); } };

// equal values built differently
template<class T> T twin( T const& v, Rng& ){ return v; }
inline std::string twin( std::string const& v, Rng& r ){ std::string s; s.reserve( v.size() + r.below( 200 ) ); for( char c: v ) s += c; if( r.chance( 1, 2 ) ){ s += "tail"; s.resize( v.size() ); } return s; }
template<class T> std::vector<T> twin( std::vector<T> const& v, Rng& r ){ std::vector<T> s; s.reserve( v.size() + r.below( 50 ) ); for( std::size_t i = 0; i < v.size(); ++i ) s.push_back( v[i] ); return s; }
inline double twin( double const& v, Rng& r ){ return v == 0 && r.chance( 1, 2 ) ? -v : v; }
inline float twin( float const& v, Rng& r ){ return v == 0 && r.chance( 1, 2 ) ? -v : v; }
template<class A, class B> std::pair<A, B> twin( std::pair<A, B> const& v, Rng& r ){ return std::pair<A, B>( twin( v.first, r ), twin( v.second, r ) ); }
template<class T> std::unordered_set<T> twin( std::unordered_set<T> const& v, Rng& r ){ std::vector<T> e( v.begin(), v.end() ); for( std::size_t i = e.size(); i > 1; --i ) std::swap( e[i - 1], e[r.below( i )] ); std::unordered_set<T> s( r.below( 200 ) ); for( T const& x: e ) s.insert( x ); return s; }
template<class K, class V> std::unordered_map<K, V> twin( std::unordered_map<K, V> const& v, Rng& r ){ std::vector<std::pair<K, V>> e( v.begin(), v.end() ); std::unordered_map<K, V> s( r.below( 100 ) ); for( std::size_t i = e.size(); i > 0; --i ) s.insert( e[i - 1] ); return s; }
template<class T> std::set<T> twin( std::set<T> const& v, Rng& ){ std::set<T> s; for( auto i = v.rbegin(); i != v.rend(); ++i ) s.insert( *i ); return s; }
template<class T> struct Unordered: std::false_type {}; template<class T> struct Unordered<std::unordered_set<T>>: std::true_type {}; template<class K, class V> struct Unordered<std::unordered_map<K, V>>: std::true_type {}; template<class A, class B> struct Unordered<std::pair<A, B>>: std::integral_constant<bool, Unordered<A>::value || Unordered<B>::value> {};
template<class T> bytes message( T const& v, std::false_type ){ return expected<h2::default_flavor, Rec>( v ); }
template<class T> bytes message( T const&, std::true_type ){ return bytes(); }
// keys with small domains come again and again, others are drawn from a pool
template<class T> T key( Rng& r ){ return gen<T>( r ); }
template<> double key<double>( Rng& r ){ return r.chance( 1, 6 ) ? ( r.chance( 1, 2 ) ? 0.0 : -0.0 ) : (double)r.below( 64 ) / 4; }
template<> float key<float>( Rng& r ){ return r.chance( 1, 6 ) ? ( r.chance( 1, 2 ) ? 0.0f : -0.0f ) : (float)r.below( 64 ) / 8; }

template<class R> typename std::enable_if<std::is_integral<R>::value, R>::type to_result( bytes const& b, R* ){ u64 v = 0; for( std::size_t i = 0; i < b.size(); ++i ) v |= (u64)b[i] << 8 * i; return (R)v; }
template<class R> typename std::enable_if<!std::is_integral<R>::value, R>::type to_result( bytes const& b, R* ){ R r = {}; std::memcpy( r.data(), b.data(), r.size() ); return r; }
Alg const& alg( std::string const& n ){ for( Alg const& a: all_algs() ) if( n == a.name ) return a; std::exit( 3 ); }

// a random history over one container type against a list of pairs
template<class M, class T> void history( char const* cn, std::string const& who, Any<T> const& h, std::vector<T> const& pool, Rng& r )
{
    M m( r.below( 40 ), h ); std::vector<std::pair<T, int>> model; auto at = [&]( T const& k ){ std::size_t i = 0; while( i < model.size() && !( model[i].first == k ) ) ++i; return i; };
    auto bad = [&]( std::string const& w ){ lg().violation( who + " container", who + ": in a " + cn + ", " + w ); };
    for( int step = 0; step < 260; ++step )
    {
        T k = twin( r.pick( pool ), r ); std::size_t i = at( k ); int x = (int)r.below( 1000 ); lg().eval();
        switch( r.below( 12 ) )
        {
        case 0: case 1: case 2: case 3: { auto p = m.emplace( k, x ); if( p.second != ( i == model.size() ) ) return bad( "inserting a key that is " + std::string( i < model.size() ? "" : "not " ) + "there " + ( p.second ? "succeeds" : "fails" ) ); if( p.second ) model.emplace_back( k, x ); break; }
        case 4: { m[k] = x; if( i == model.size() ) model.emplace_back( k, x ); else model[i].second = x; break; }
        case 5: { std::size_t e = m.erase( k ); if( e != ( i < model.size() ) ) return bad( "erasing a key removes " + std::to_string( e ) + " elements" ); if( i < model.size() ) model.erase( model.begin() + (std::ptrdiff_t)i ); break; }
        case 6: if( step % 40 == 7 ) m.rehash( r.below( 500 ) ); break;
        case 7: if( step % 20 == 3 ){ M c( m ); M d; d = c; m.swap( d ); } break;
        default: { auto f = m.find( k ); if( ( f != m.end() ) != ( i < model.size() ) ) return bad( std::string( "a key that is " ) + ( i < model.size() ? "" : "not " ) + "there is " + ( f != m.end() ? "found" : "not found" ) ); if( f != m.end() && f->second != model[i].second ) return bad( "a key has the value of another" ); }
        }
        if( m.size() != model.size() ) return bad( "size is " + std::to_string( m.size() ) + ", expected " + std::to_string( model.size() ) );
    }
    for( auto const& e: model ) if( m.count( e.first ) != 1 ) return bad( "a key that was inserted is not found at the end" );
    lg().count( "container histories" );
}
template<class T> struct Contained: std::false_type {}; template<> struct Contained<int>: std::true_type {}; template<> struct Contained<std::string>: std::true_type {}; template<> struct Contained<double>: std::true_type {}; template<> struct Contained<std::unordered_set<int>>: std::true_type {}; template<> struct Contained<std::vector<int>>: std::true_type {}; template<> struct Contained<std::pair<int, std::string>>: std::true_type {};
template<class T, class F> void histories( std::string const&, F const&, std::vector<T> const&, Rng&, std::false_type ){}
template<class T, class F> void histories( std::string const& who, F const& f, std::vector<T> const& small, Rng& r, std::true_type )
{
    Any<T> any = Any<T>::make( f );
    history<std::unordered_map<T, int, Any<T>>>( "std::unordered_map", who, any, small, r ); history<boost::unordered_map<T, int, Any<T>>>( "boost::unordered_map", who, any, small, r ); history<boost::unordered_flat_map<T, int, Any<T>>>( "boost::unordered_flat_map", who, any, small, r );
}
template<class T, class H> void one( char const* tn, Alg const& a, Ctor const& c )
{
    typedef hash<T, H> F; F f = c.k == Ctor::DEF ? F() : c.k == Ctor::SEED ? F( c.seed ) : F( c.b.data(), c.b.size() ); F copy( f ), assigned; assigned = f;
    std::string who = std::string( "hash<" ) + tn + ", " + a.name + ">"; Rng r( seed() * 69621 + fp( who + c.str() ) ); bool const un = Unordered<T>::value;
    std::vector<T> pool; for( int i = 0; i < 60; ++i ) pool.push_back( key<T>( r ) );
    std::vector<std::size_t> vals;
    for( T const& k: pool )
    {
        std::size_t const v = f( k ); vals.push_back( v ); T const t = twin( k, r ); lg().distinct( fpv( v, fp( who ) ) );
        if( !( t == k ) ) { lg().count( "twins not equal" ); continue; }
        if( f( t ) != v ) lg().violation( who + " equal keys", who + c.str() + ": equal keys have the values " + std::to_string( v ) + " and " + std::to_string( f( t ) ) );
        if( f( k ) != v || copy( k ) != v || assigned( k ) != v ) lg().violation( who + " repeated", who + c.str() + ": the value of a key changes from call to call, or between copies of the function object" );
        if( un ) continue;
        bytes msg = message( k, Unordered<T>() ); std::size_t want;
        if( a.legacy() ){ H h = c.k == Ctor::DEF ? H() : c.k == Ctor::SEED ? H( c.seed ) : H( c.b.data(), c.b.size() ); h.update( msg.data(), msg.size() ); want = h2::get_integral_result<std::size_t>( h.result() ); }
        else { auto m = make_model( a, c ); m->update( msg.data(), msg.size() ); want = h2::get_integral_result<std::size_t>( to_result( m->result(), (typename H::result_type*)nullptr ) ); }
        if( v != want ) lg().violation( who + " value", who + c.str() + ": a key with the message " + hex( msg, 100 ) + " has the value " + std::to_string( v ) + ", expected " + std::to_string( want ) );
    }
    for( std::size_t i = 0; i < pool.size(); ++i ) if( f( pool[i] ) != vals[i] ) lg().violation( who + " repeated", who + c.str() + ": the value of a key changes after other keys" );
    std::vector<T> small; for( std::size_t i = 0; i < pool.size() && small.size() < 45; ++i ) if( pool[i] == pool[i] ) small.push_back( pool[i] );
    histories<T>( who, f, small, r, Contained<T>() );
}
// values of many keys: collisions and balance
template<class T, class H, class G> void spread( char const* tn, Alg const& a, Ctor const& c, G g )
{
    typedef hash<T, H> F; F f = c.k == Ctor::DEF ? F() : c.k == Ctor::SEED ? F( c.seed ) : F( c.b.data(), c.b.size() ); std::string who = std::string( "hash<" ) + tn + ", " + a.name + ">";
    std::size_t const N = 8192; std::vector<std::size_t> v; for( std::size_t i = 0; i < N; ++i ) v.push_back( f( g( i ) ) ); lg().eval( N ); lg().count( "spread keys", N );
    bool const narrow = sizeof( typename H::result_type ) == 4;
    // other seeds, far and near
    std::vector<F> others; std::vector<std::string> how; if( c.k == Ctor::DEF ){ others.push_back( F( (std::uint64_t)1 ) ); how.push_back( "1" ); others.push_back( F( (std::uint64_t)1 << 63 ) ); how.push_back( "2^63" ); } else if( c.k == Ctor::SEED ){ others.push_back( F() ); how.push_back( "none" ); for( int bit: { 0, 17, 31, 32, 46, 63 } ){ others.push_back( F( c.seed ^ (std::uint64_t)1 << bit ) ); how.push_back( "bit " + std::to_string( bit ) + " flipped" ); } }
    else { others.push_back( F() ); how.push_back( "none" ); for( std::size_t i: { (std::size_t)0, c.b.size() / 2, c.b.size() - 1 } ) for( int bit: { 0, 7 } ){ bytes b = c.b; b[i] ^= (u8)( 1 << bit ); others.push_back( F( b.data(), b.size() ) ); how.push_back( "bit " + std::to_string( bit ) + " of byte " + std::to_string( i ) + " flipped" ); } }
    for( std::size_t o = 0; o < others.size(); ++o ){ std::size_t same = 0, eq = 0; for( std::size_t i = 0; i < N; i += 32 ){ std::size_t x = others[o]( g( i ) ); same += x == v[i]; ++eq; } lg().eval( eq ); if( same > ( narrow ? 1u : 0u ) ) lg().violation( who + " seeds", who + c.str() + ": " + std::to_string( same ) + " of " + std::to_string( eq ) + " keys have the same value with another seed (" + how[o] + ")" ); }
    std::vector<std::size_t> s( v ); std::sort( s.begin(), s.end() ); std::size_t coll = 0; for( std::size_t i = 1; i < N; ++i ) coll += s[i] == s[i - 1]; if( coll > ( narrow ? 5u : 0u ) ) lg().violation( who + " collisions", who + c.str() + ": " + std::to_string( coll ) + " collisions among " + std::to_string( N ) + " keys" );
    if( a.kind == K_FNV32 || a.kind == K_FNV64 ) return;      // not balanced for short keys, by its definition
    if( !narrow ) for( int i = 0; i < 64; i += 8 ) for( int j = 0; j < i; j += 8 ){ std::vector<int> b( 256 ); for( std::size_t x: v ) ++b[( ( x >> i ) ^ ( x >> j ) ) & 255]; double chi = 0; for( int n: b ) chi += ( n - N / 256.0 ) * ( n - N / 256.0 ) / ( N / 256.0 ); if( chi > 255 + 12 * std::sqrt( 510.0 ) ) lg().violation( who + " balance", who + c.str() + ": bits " + std::to_string( i ) + ".. and " + std::to_string( j ) + ".. of the values of " + std::to_string( N ) + " keys depend on each other (chi square " + std::to_string( chi ) + " with 255 degrees of freedom)" ); }
    for( int sh: { 0, 8, 16, 27, 32, 40, 48, 56 } ){ std::vector<int> b( 256 ); for( std::size_t x: v ) ++b[( x >> sh ) & 255]; double chi = 0; for( int n: b ) chi += ( n - N / 256.0 ) * ( n - N / 256.0 ) / ( N / 256.0 ); if( chi > 255 + 12 * std::sqrt( 510.0 ) ) lg().violation( who + " balance", who + c.str() + ": bits " + std::to_string( sh ) + " to " + std::to_string( sh + 7 ) + " of the values of " + std::to_string( N ) + " keys are not balanced (chi square " + std::to_string( chi ) + " with 255 degrees of freedom)" ); }
}
#if defined(BOOST_DESCRIBE_CXX14)
struct Point { int x; short y; std::string label; bool operator==( Point const& o ) const { return x == o.x && y == o.y && label == o.label; } }; BOOST_DESCRIBE_STRUCT( Point, (), ( x, y, label ) )
#endif
}
#if defined(BOOST_DESCRIBE_CXX14)
namespace vf { template<> struct Ser<Point> { static void go( Ctx& c, Point const& v ){ ser( c, v.x ); ser( c, v.y ); ser( c, v.label ); } }; template<> struct Gen<Point> { static Point go( Rng& r ){ int x = gen<int>( r ); short y = gen<short>( r ); return Point{ x, y, gen<std::string>( r ) }; } }; }
#endif
namespace
{
template<class H> void algorithm( Alg const& a )
{
    Rng r( seed() * 40503 + fp( std::string( a.name ) ) ); std::vector<Ctor> cs( 4 ); cs[1].k = Ctor::SEED; cs[1].seed = r.next(); cs[2].k = Ctor::BYTES; cs[2].b = r.buf( 16 ); cs[3].k = Ctor::BYTES; cs[3].b = r.buf( 1 + r.below( 150 ) );
    for( u64 rep = 0; rep < scale(); ++rep ) for( std::size_t i = 0; i < cs.size(); ++i )
    {
        Ctor const& c = cs[i];
#define X( ... ) one<__VA_ARGS__, H>( #__VA_ARGS__, a, c );
        X( int ) X( unsigned char ) X( std::string ) X( std::vector<int> )
        if( i % 2 ){ X( unsigned long long ) X( double ) X( std::pair<int, std::string> ) X( std::unordered_set<int> ) X( std::pair<double, float> ) X( h2::digest<16> ) X( int* ) X( std::set<int> ) }
        else { X( char32_t ) X( float ) X( ut::ES ) X( std::tuple<std::string, double, char> ) X( std::array<int, 4> ) X( std::unordered_map<int, std::string> ) X( std::vector<std::string> ) X( std::u16string ) X( std::vector<bool> ) }
#if defined(BOOST_DESCRIBE_CXX14)
        X( Point )
#endif
#undef X
        if( rep ) continue;
        spread<int, H>( "int", a, c, []( std::size_t k ){ return (int)k; } ); spread<u64, H>( "u64", a, c, []( std::size_t k ){ return (u64)k << 32; } ); spread<std::string, H>( "std::string", a, c, []( std::size_t k ){ return "key" + std::to_string( k ); } );
        spread<double, H>( "double", a, c, []( std::size_t k ){ return (double)k; } ); spread<std::pair<short, short>, H>( "std::pair<short, short>", a, c, []( std::size_t k ){ return std::pair<short, short>( (short)( k % 91 ), (short)( k / 91 ) ); } ); spread<std::string, H>( "std::string of zeros", a, c, []( std::size_t k ){ return std::string( 1 + k % 2048, (char)( k / 2048 ) ); } );
        spread<std::vector<int>, H>( "std::vector<int>", a, c, []( std::size_t k ){ return std::vector<int>( 1 + k % 64, (int)( k / 64 ) ); } );
    }
}
}
int main( int argc, char** argv )
{
    std::string only = argc > 1 ? argv[1] : "";
#define X( A ) if( only.empty() || only == #A ) algorithm<h2::A>( alg( #A ) );
    ALGS( X )
#undef X
    lg().sample( "hash<T, H> of 21 key types, values against models, twins, copies, three containers, seven spreads" );
    return lg().finish();
}
