// C09, uninitialized reads: runs under MemorySanitizer (and harmlessly without). Only header-only library code and
// plain C output are used, because the installed C++ runtime is not instrumented.
#include <boost/hash2/fnv1a.hpp>
#include <boost/hash2/xxhash.hpp>
#include <boost/hash2/siphash.hpp>
#include <boost/hash2/md5.hpp>
#include <boost/hash2/sha1.hpp>
#include <boost/hash2/sha2.hpp>
#include <boost/hash2/ripemd.hpp>
#include <boost/hash2/hmac.hpp>
#include <boost/hash2/digest.hpp>
#include <boost/hash2/legacy/murmur3.hpp>
#include <boost/hash2/legacy/spooky2.hpp>
#include <boost/hash2/hash_append.hpp>
#include <boost/hash2/get_integral_result.hpp>
#include <boost/describe.hpp>
#include <vector>
#include <array>
#include <tuple>
#include <new>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#if defined(__has_feature)
# if __has_feature(memory_sanitizer)
#  include <sanitizer/msan_interface.h>
#  define CHECK(p,n) __msan_check_mem_is_initialized((p),(n))
#  define POISON(p,n) __msan_poison((p),(n))
# endif
#endif
#if !defined(CHECK)
# define CHECK(p,n) ((void)0)
# define POISON(p,n) ((void)0)
#endif
namespace h2 = boost::hash2; typedef unsigned long long u64; typedef unsigned char u8;
static u64 st; static u64 rnd(){ st += 0x9E3779B97F4A7C15ull; u64 z = st; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static u64 below( u64 n ){ return rnd() % n; }
static u64 evals = 0, hists = 0; static std::vector<u64>* seen;

struct Rec { typedef std::uint64_t result_type; u64 s = 1; Rec(){} explicit Rec( std::uint64_t x ): s( x ){} Rec( unsigned char const* p, std::size_t n ){ update( p, n ); } void update( void const* p, std::size_t n ){ CHECK( p, n ); u8 const* q = (u8 const*)p; for( std::size_t i = 0; i < n; ++i ) s = ( s ^ q[i] ) * 0x100000001B3ull; } std::uint64_t result(){ return s *= 5; } };
struct Pad { char c; double d; short s; int a[2]; }; BOOST_DESCRIBE_STRUCT( Pad, (), ( c, d, s, a ) )
struct Pad2: Pad { char t; std::pair<char, long> p; }; BOOST_DESCRIBE_STRUCT( Pad2, ( Pad ), ( t, p ) )

template<class H> static void histories( u64 n, std::size_t B )
{
    static u8 in[ 16384 ]; for( auto& x: in ) x = (u8)rnd();
    for( u64 k = 0; k < n; ++k )
    {
        alignas( 16 ) static u8 mem[ sizeof( H ) + 16 ], mem2[ sizeof( H ) + 16 ]; POISON( mem, sizeof mem ); POISON( mem2, sizeof mem2 );
        // inputs exactly initialized in the given range, poisoned around it
        std::vector<u8> buf( 16384 ); auto give = [&]( std::size_t m ){ std::size_t off = below( 16 ); POISON( buf.data(), buf.size() ); std::memcpy( buf.data() + off, in + below( 512 ), m ); return buf.data() + off; };
        H* o; u64 f = 0; switch( below( 3 ) ){ case 0: o = ::new( (void*)mem ) H; break; case 1: o = ::new( (void*)mem ) H( (std::uint64_t)rnd() ); break; default: { std::size_t m = below( 3 * B + 30 ); if( below( 3 ) == 0 ) m = below( 2 ) ? 16 : 8; o = ::new( (void*)mem ) H( (unsigned char const*)give( m ), m ); f = m; } }
        for( u64 i = 1 + below( 10 ); i--; )
        {
            switch( below( 6 ) )
            {
            case 0: { auto r = o->result(); CHECK( &r, sizeof r ); ++evals; break; }
            case 1: { POISON( mem2, sizeof mem2 ); H* c = ::new( (void*)mem2 ) H( *o ); POISON( mem, sizeof mem ); o = ::new( (void*)mem ) H; *o = *c; break; }
            default: { std::size_t m = below( 4 ) ? below( 2 * B + 9 ) : below( below( 8 ) ? 700 : 15000 ); u8* p = give( m ); f = f * 31 + m; if( below( 2 ) ) o->update( (unsigned char const*)p, m ); else o->update( (void const*)p, m ); }
            }
        }
        for( int i = 0; i < 2; ++i ){ auto r = o->result(); CHECK( &r, sizeof r ); auto x = h2::get_integral_result<std::size_t>( r ); CHECK( &x, sizeof x ); if( x == 42 ) f++; ++evals; }
        ++hists;
    }
}
template<class H, class F> static void appends( u64 n )
{
    for( u64 k = 0; k < n; ++k )
    {
        H h; F f; char c = (char)rnd(); h2::hash_append( h, f, c ); h2::hash_append( h, f, (short)rnd() ); h2::hash_append( h, f, (int)rnd() ); h2::hash_append( h, f, rnd() ); h2::hash_append( h, f, (float)rnd() ); h2::hash_append( h, f, (double)rnd() ); h2::hash_append( h, f, (bool)( rnd() & 1 ) ); h2::hash_append( h, f, &c ); h2::hash_append( h, f, nullptr );
        { alignas( 16 ) u8 m[ sizeof( Pad2 ) ]; POISON( m, sizeof m ); Pad2* p = ::new( (void*)m ) Pad2; p->c = 1; p->d = 2; p->s = 3; p->a[0] = 4; p->a[1] = (int)k; p->t = 5; p->p.first = 6; p->p.second = 7; h2::hash_append( h, f, *p ); }
        { std::pair<char, double> p; POISON( &p, sizeof p ); p.first = c; p.second = 1; h2::hash_append( h, f, p ); std::tuple<char, int, double> t( 'a', 1, 2.0 ); h2::hash_append( h, f, t ); }
        std::vector<int> v; for( u64 i = below( 9 ); i--; ) v.push_back( (int)rnd() ); v.reserve( 20 ); h2::hash_append( h, f, v ); std::vector<std::vector<u8>> w( 2, std::vector<u8>( below( 5 ), 3 ) ); h2::hash_append( h, f, w ); std::array<short, 3> a = { { 1, 2, 3 } }; h2::hash_append( h, f, a ); std::array<int, 0> z; h2::hash_append( h, f, z ); h2::digest<20> d; h2::hash_append( h, f, d ); std::vector<bool> vb( below( 70 ), true ); h2::hash_append( h, f, vb ); int ca[2][2] = { { 1, 2 }, { 3, 4 } }; h2::hash_append( h, f, ca ); h2::hash_append_unordered_range( h, f, v.begin(), v.end() ); std::vector<double> vd( below( 4 ), -0.0 ); h2::hash_append( h, f, vd );
        auto r = h.result(); CHECK( &r, sizeof r ); auto x = h2::get_integral_result<short>( r ); CHECK( &x, sizeof x ); ++evals; ++hists;
        char t[ 41 ]; POISON( t, sizeof t ); to_chars( d, t ); CHECK( t, 41 ); h2::digest<20> d2( d ); if( !( d == d2 ) ) std::abort();
    }
}
int main()
{
    char const* s = std::getenv( "VERIF_SEED" ); st = s ? std::strtoull( s, nullptr, 10 ) * 77777 : 77777; char const* t = std::getenv( "VERIF_TIER" ); u64 n = t && t[0] == 't' ? 20000 : 1500;
    histories<h2::fnv1a_32>( n, 1 ); histories<h2::fnv1a_64>( n, 1 ); histories<h2::xxhash_32>( n, 16 ); histories<h2::xxhash_64>( n, 32 ); histories<h2::siphash_32>( n, 4 ); histories<h2::siphash_64>( n, 8 ); histories<h2::md5_128>( n, 64 ); histories<h2::sha1_160>( n, 64 ); histories<h2::sha2_256>( n, 64 ); histories<h2::sha2_224>( n, 64 ); histories<h2::sha2_512>( n, 128 ); histories<h2::sha2_384>( n, 128 ); histories<h2::sha2_512_256>( n, 128 ); histories<h2::sha2_512_224>( n, 128 ); histories<h2::ripemd_160>( n, 64 ); histories<h2::ripemd_128>( n, 64 );
    histories<h2::hmac_md5_128>( n, 64 ); histories<h2::hmac_sha1_160>( n, 64 ); histories<h2::hmac_sha2_256>( n, 64 ); histories<h2::hmac_sha2_512>( n, 128 ); histories<h2::hmac_sha2_384>( n, 128 ); histories<h2::hmac_ripemd_160>( n, 64 ); histories<h2::murmur3_32>( n, 4 ); histories<h2::murmur3_128>( n, 16 ); histories<h2::spooky2_128>( n, 192 );
    appends<Rec, h2::default_flavor>( n ); appends<Rec, h2::big_endian_flavor>( n ); appends<h2::sha2_256, h2::big_endian_flavor>( n ); appends<h2::siphash_64, h2::default_flavor>( n );
    char const* fn = std::getenv( "VERIF_OUT" ); std::FILE* f = fn && *fn ? std::fopen( fn, "a" ) : stdout; if( !f ) return 3;
    std::fprintf( f, "C histories under the uninitialized-read monitor\t%llu\nC evaluations\t%llu\nC distinct\t%llu\nE done\n", hists, evals, hists ); std::fflush( f ); return 0;
}
