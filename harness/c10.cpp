// C10: threads work on distinct hash objects and on shared constant ones; ThreadSanitizer watches for races, and every
// job's value is compared with the one a single thread computes afterwards. The threads run first, so that whatever the
// library might initialize on first use is reached concurrently.
#include "algs.hpp"
#include <functional>
#include "usertypes.hpp"
#include <boost/hash2/get_integral_result.hpp>
#include <thread>
#include <atomic>
#include <sstream>
#include <iterator>
#include <algorithm>
using namespace vf;

struct Job { std::string name; std::function<u64( u64 )> f; };
static std::vector<Job>& jobs(){ static std::vector<Job> v; return v; }
template<class R> static u64 rv( R const& r ){ bytes b = rbytes( r ); return fp( b.data(), b.size() ); }

// a history of its own: construction, updates, copies, results
template<class H> static u64 hist( u64 salt, std::size_t B )
{
    Rng r( salt ); u64 f = salt; std::size_t m = r.below( 70 ); bytes s = r.buf( m );
    H h = salt % 3 == 0 ? H() : salt % 3 == 1 ? H( (std::uint64_t)r.next() ) : H( s.data(), m );
    for( int i = 0; i < 6; ++i )
    {
        bytes d = r.buf( gen_any( r, B, 3 * B + 20 ) ); unsigned op = (unsigned)r.below( 6 );
        if( op < 3 ) h.update( (void const*)d.data(), d.size() ); else if( op == 3 ){ H c( h ); c.update( d.data(), d.size() ); f = fpv( rv( c.result() ), f ); h = c; } else { f = fpv( rv( h.result() ), f ); f = fpv( h2::get_integral_result<unsigned short>( h.result() ), f ); }
    }
    return fpv( rv( h.result() ), f );
}
template<class H> struct Protos { std::vector<H> v; Protos(){ Rng r( 99 ); for( int i = 0; i < 4; ++i ){ bytes s = r.buf( i * 21 ); H h = i == 0 ? H() : i == 1 ? H( (std::uint64_t)77 ) : H( s.data(), s.size() ); bytes d = r.buf( i == 2 ? 7000 + r.below( 300 ) : r.below( 300 ) ); h.update( d.data(), d.size() ); v.push_back( h ); } } };
template<class H> static Protos<H> const* protos(){ static Protos<H> const* const p = new Protos<H>; return p; }
// many threads copy one unmodified object
template<class H> static u64 copies( Protos<H> const* p, u64 salt )
{
    H h( p->v[ salt % 4 ] ), g; g = p->v[ ( salt / 4 ) % 4 ]; u64 x = salt; h.update( &x, 8 ); g.update( (unsigned char const*)&x, 3 ); u64 f = fpv( rv( h.result() ), rv( g.result() ) ); h = p->v[ ( salt / 16 ) % 4 ]; return fpv( rv( h.result() ), f );
}
// many threads hash one constant value
template<class T> struct Pool { std::vector<T> v; Pool( char const* n ){ Rng r( fp( n ) ); for( int i = 0; i < 6; ++i ) v.push_back( gen<T>( r ) ); } };
template<class H, class F, class T> static u64 value( Pool<T> const* p, u64 salt ){ H h( (std::uint64_t)( salt % 5 ) ); h2::hash_append( h, F(), p->v[ salt % p->v.size() ] ); h2::hash_append( h, F(), p->v[ ( salt / 8 ) % p->v.size() ] ); return rv( h.result() ); }

struct Shared { bytes d; std::vector<h2::digest<20>> g; std::vector<h2::digest<64>> g64; std::vector<std::string> hexs; std::list<std::string> l; std::vector<int> ints; Shared(){ Rng r( 5 ); d = r.buf( 5000 ); for( int i = 0; i < 5; ++i ){ h2::digest<20> x; r.fill( x.data(), 20 ); g.push_back( x ); h2::digest<64> y; r.fill( y.data(), 64 ); g64.push_back( y ); } for( int i = 0; i < 20; ++i ){ l.push_back( gen<std::string>( r ) ); ints.push_back( (int)r.next() ); } } };

static void add( std::string n, std::function<u64( u64 )> f ){ jobs().push_back( { n, f } ); }

int main( int argc, char** argv )
{
    unsigned const part = argc > 1 ? std::atoi( argv[1] ) : 0, NT = argc > 2 ? std::atoi( argv[2] ) : 8;
#define X( c, k, m ) { Protos<h2::c> const* p = nullptr; (void)p; add( "history " #c, []( u64 s ){ return hist<h2::c>( s, ref_block( k, ref::m ) ); } ); }
    VF_ALL( X )
#undef X
    // shared constant objects are set up by this thread, before the others exist
#define X( c, k, m ) { Protos<h2::c> const* p = nullptr; if( part % 2 ) { p = protos<h2::c>(); add( "copies of a shared " #c, [p]( u64 s ){ return copies<h2::c>( p, s ); } ); } }
    VF_ALL( X )
#undef X
#define V( H, F, ... ) { auto p = new Pool<__VA_ARGS__>( #__VA_ARGS__ ); add( "shared " #__VA_ARGS__ " by " #H, [p]( u64 s ){ return value<h2::H, h2::F, __VA_ARGS__>( p, s ); } ); }
    V( xxhash_64, default_flavor, int ) V( sha2_256, big_endian_flavor, std::string ) V( siphash_64, little_endian_flavor, std::vector<unsigned char> ) V( fnv1a_32, big_endian_flavor, std::vector<int> ) V( md5_128, default_flavor, std::vector<std::string> )
    V( xxhash_32, default_flavor, std::unordered_set<int> ) V( sha1_160, big_endian_flavor, std::unordered_map<int, std::string> ) V( hmac_sha2_512, default_flavor, ut::D2 ) V( ripemd_160, default_flavor, ut::DMulti ) V( siphash_32, big_endian_flavor, ut::TI ) V( fnv1a_64, default_flavor, std::map<std::string, std::vector<int>> )
    V( sha2_512, little_endian_flavor, std::array<double, 4> ) V( ripemd_128, default_flavor, std::tuple<int, std::string, double> ) V( spooky2_128, default_flavor, std::list<std::deque<unsigned char>> ) V( murmur3_128, big_endian_flavor, std::vector<bool> ) V( sha2_384, default_flavor, boost::unordered_map<int, int> ) V( sha2_512_224, default_flavor, float ) V( hmac_md5_128, default_flavor, std::array<int, 0> ) V( murmur3_32, default_flavor, ut::DEnum ) V( sha2_512_256, big_endian_flavor, ut::TS )
    Shared const* sh = new Shared;
    add( "shared digests", [sh]( u64 s ){ auto const& g = sh->g[ s % 5 ]; auto const& k = sh->g64[ s / 5 % 5 ]; u64 f = fp( h2::to_string( g ) ); f = fp( to_string( k ), f ); std::ostringstream o; o << g << k; f = fp( o.str(), f ); char b[ 129 ]; to_chars( k, b ); f = fp( b, 128, f ); char c[ 60 ]; h2::to_chars( g, c, c + 60 ); f = fp( c, 40, f ); for( auto& x: sh->g ) f = fpv( x == g, f ); for( u8 x: k ) f = fpv( x, f ); h2::digest<20> q( g ); q.back() ^= 1; f = fpv( q != g, f ); return fpv( h2::get_integral_result<int>( g ), f ); } );
    add( "shared ranges", [sh]( u64 s ){ h2::sha2_256 h; std::size_t a = s % 1000, n = s / 1000 % 3000; h2::hash_append_range( h, {}, sh->d.data() + a, sh->d.data() + a + n ); h2::hash_append_sized_range( h, h2::big_endian_flavor(), sh->l.begin(), sh->l.end() ); h2::hash_append_unordered_range( h, {}, sh->ints.begin(), sh->ints.end() ); h2::hash_append_size( h, {}, s ); return rv( h.result() ); } );
    add( "shared buffer, every algorithm", [sh]( u64 s ){ u64 f = s; std::size_t a = s % 1000, n = s / 1000 % 700;
#define X( c, k, m ) { h2::c h( sh->d.data() + a / 2, a % 200 ); h.update( sh->d.data() + a, n ); f = fpv( rv( h.result() ), f ); }
        VF_ALL( X )
#undef X
        return f; } );

    u64 const rounds = ( thorough() ? 60 : 6 ) * envnum( "VF_MULT", 1 ); std::size_t const J = jobs().size();
    struct Res { std::size_t job; u64 salt, v; u32 ticket; }; std::vector<std::vector<Res>> res( NT );
    for( u64 rd = 0; rd < rounds; ++rd )
    {
        std::atomic<unsigned> ready( 0 ), tick( 0 ); std::atomic<bool> go( false ); std::vector<std::thread> th; for( auto& v: res ) v.clear();
        for( unsigned t = 0; t < NT; ++t ) th.emplace_back( [&, t]{
            Rng r( seed() * 7777 + part * 131 + rd * 17 + ( rd % 2 ? t : 0 ) ), z( t + rd * 31 + part );    // in even rounds all threads run the same jobs in the same order
            std::vector<std::size_t> ord( J ); for( std::size_t i = 0; i < J; ++i ) ord[i] = i; for( std::size_t i = J; i > 1; --i ) std::swap( ord[ i - 1 ], ord[ r.below( i ) ] );
            res[t].reserve( J ); ready.fetch_add( 1, std::memory_order_relaxed ); while( !go.load( std::memory_order_relaxed ) ) {}
            for( std::size_t i: ord ){ u64 s = r.next() >> 8; if( z.chance( 1, 4 ) ) std::this_thread::yield(); for( volatile int d = (int)z.below( 200 ); d > 0; d = d - 1 ); u64 v = jobs()[i].f( s ); res[t].push_back( { i, s, v, tick.fetch_add( 1, std::memory_order_relaxed ) } ); }   // relaxed: adds no ordering that would hide a race
        } );
        while( ready.load( std::memory_order_relaxed ) != NT ) std::this_thread::yield();
        go.store( true, std::memory_order_relaxed ); for( auto& t: th ) t.join();
        std::vector<std::pair<u32, u32>> inter; for( unsigned t = 0; t < NT; ++t ) for( Res const& x: res[t] ) inter.push_back( { x.ticket, t } );
        std::sort( inter.begin(), inter.end() ); u64 f = rd, sw = 0; for( std::size_t i = 0; i < inter.size(); ++i ){ f = fpv( inter[i].second, f ); sw += i && inter[i].second != inter[ i - 1 ].second; }
        lg().distinct( f ); lg().count( "switches between threads observed", sw ); lg().count( "jobs run concurrently", inter.size() );
        for( unsigned t = 0; t < NT; ++t ) for( Res const& x: res[t] ){ u64 w = jobs()[ x.job ].f( x.salt ); lg().eval(); if( w != x.v ) lg().violation( "interference " + jobs()[ x.job ].name, jobs()[ x.job ].name + " (salt " + std::to_string( x.salt ) + ") gave another value among " + std::to_string( NT ) + " threads than alone" ); }
    }
    lg().count( "rounds", rounds ); lg().sample( std::to_string( J ) + " jobs per thread, " + std::to_string( NT ) + " threads, e.g. " + jobs()[ 3 ].name + "; " + jobs()[ J - 5 ].name + "; " + jobs()[ J - 1 ].name );
    return lg().finish();
}
