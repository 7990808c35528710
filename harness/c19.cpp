// C19: reducing results to integers. The monitor tallies the complete image of all narrow results and structured
// samples of 64 bit ones; the oracle is the distribution itself, not a formula of the reduction.
#include "common.hpp"
#include <boost/hash2/get_integral_result.hpp>
#include <boost/hash2/digest.hpp>
#include <boost/hash2/fnv1a.hpp>
#include <boost/hash2/xxhash.hpp>
#include <boost/hash2/siphash.hpp>
#include <boost/hash2/md5.hpp>
#include <boost/hash2/sha2.hpp>
#include <boost/hash2/ripemd.hpp>
#include <array>
#include <algorithm>
#include <cmath>
#include <type_traits>
#include <limits>
using namespace vf;
namespace h2 = boost::hash2;

static std::string nm( int rb, int tb ){ return std::to_string( rb * 8 ) + "->" + std::to_string( tb * 8 ); }

// every T of one width is the same reduction, reinterpreted
template<class T, class R> static u64 red( R r ){ return (u64)(typename std::make_unsigned<T>::type)h2::get_integral_result<T>( r ); }
template<class U, class T, class R> static void same1( char const* tn, R r )
{
    u64 a = red<U>( r ), b = red<T>( r ); lg().eval();
    if( a != b ) lg().violation( "target types " + nm( sizeof( R ), sizeof( T ) ) + " " + tn, std::string( "result " ) + std::to_string( (u64)r ) + " as " + tn + " has bits " + std::to_string( b ) + ", as the unsigned type of the same width " + std::to_string( a ) );
}
template<class R> static void targets( R r )
{
    same1<u8, signed char>( "signed char", r ); same1<u8, char>( "char", r );
    same1<u16, short>( "short", r ); same1<u16, char16_t>( "char16_t", r );
    same1<u32, int>( "int", r ); same1<u32, char32_t>( "char32_t", r ); same1<u32, wchar_t>( "wchar_t", r );
    same1<unsigned long, long>( "long", r ); same1<unsigned long, long long>( "long long", r ); same1<unsigned long, unsigned long long>( "unsigned long long", r );
}
template<class R2, class R> static void alias1( char const* rn, R r ) // result types of one width
{
    lg().eval( 4 );
    if( red<u8>( (R2)r ) != red<u8>( r ) || red<u16>( (R2)r ) != red<u16>( r ) || red<u32>( (R2)r ) != red<u32>( r ) || red<u64>( (R2)r ) != red<u64>( r ) ) lg().violation( std::string( "result types " ) + rn, std::string( rn ) + " reduces differently from the other unsigned type of its width for " + std::to_string( (u64)r ) );
}
template<class R> static void typed( R r ){ targets( r ); }

// narrowing of all results of up to 32 bits: exactly uniform
template<class T, class R> static void narrow()
{
    u64 const n = 1ull << 8 * sizeof( R ), tn = 1ull << 8 * sizeof( T ); std::vector<u32> c( tn );
    for( u64 i = 0; i < n; ++i ) ++c[ red<T>( (R)i ) ];
    lg().eval( n );
    u64 w = n / tn; for( u64 t = 0; t < tn; ++t ){ lg().seen.insert( fpv( t, fp( nm( sizeof( R ), sizeof( T ) ) ) ) ); if( c[t] != w ) { lg().violation( "not uniform " + nm( sizeof( R ), sizeof( T ) ), "of all " + std::to_string( n ) + " results, " + std::to_string( c[t] ) + " give " + std::to_string( t ) + " instead of " + std::to_string( w ) ); break; } }
    // no bit of the result is ignored
    Rng r( seed() * 17 ); for( unsigned b = 0; b < 8 * sizeof( R ); ++b ){ u64 d = 0; for( int i = 0; i < 4000; ++i ){ R x = (R)r.next(); d += red<T>( x ) != red<T>( (R)( x ^ (R)( 1ull << b ) ) ); } lg().eval( 4000 ); if( d < 400 ) lg().violation( "ignored bit " + nm( sizeof( R ), sizeof( T ) ), "flipping bit " + std::to_string( b ) + " of the result changes the target in only " + std::to_string( d ) + " of 4000 cases" ); }
    lg().count( "complete images tallied" );
}
// widening: distinct results stay distinct, every bit of the target varies
template<class T, class R> static void widen_small()
{
    u64 const n = 1ull << 8 * sizeof( R ); std::vector<u64> v; std::vector<u64> ones( 64 );
    for( u64 i = 0; i < n; ++i ){ u64 x = red<T>( (R)i ); v.push_back( x ); for( unsigned b = 0; b < 8 * sizeof( T ); ++b ) ones[b] += x >> b & 1; }
    lg().eval( n ); std::sort( v.begin(), v.end() ); for( u64 x: v ) lg().seen.insert( fpv( x, fp( nm( sizeof( R ), sizeof( T ) ) ) ) );
    if( std::unique( v.begin(), v.end() ) != v.end() ) lg().violation( "not injective " + nm( sizeof( R ), sizeof( T ) ), "two results give the same value" );
    for( unsigned b = 0; b < 8 * sizeof( T ); ++b ) if( ones[b] * 8 < n || ones[b] * 8 > 7 * n ) lg().violation( "constant bit " + nm( sizeof( R ), sizeof( T ) ), "bit " + std::to_string( b ) + " of the target is set for " + std::to_string( ones[b] ) + " of " + std::to_string( n ) + " results" );
    lg().count( "complete images tallied" );
}
static void widen_32_64()
{
    u64 const n = 1ull << 32; std::vector<u64> ones( 64 );
    // distinct low or high halves prove distinct values; only if neither does, look at classes of the full values
    bool ok = false;
    for( int half = 0; half < 2 && !ok; ++half ){ std::vector<u64> bm( n / 64 ); ok = true; for( u64 i = 0; i < n; ++i ){ u32 y = (u32)( red<u64>( (u32)i ) >> 32 * half ); u64 m = 1ull << ( y & 63 ); if( bm[ y >> 6 ] & m ){ ok = false; break; } bm[ y >> 6 ] |= m; } lg().eval( n ); }
    if( !ok ) for( u64 cls = 0; cls < 2; ++cls ){ std::vector<u64> v; for( u64 i = 0; i < n; ++i ){ u64 x = red<u64>( (u32)i ); if( ( x * 0x9E3779B97F4A7C15ull >> 57 ) == cls ) v.push_back( x ); if( v.size() > ( 1u << 27 ) ) break; } std::sort( v.begin(), v.end() ); if( std::unique( v.begin(), v.end() ) != v.end() ) { lg().violation( "not injective 32->64", "two 32 bit results give the same 64 bit value" ); break; } }
    Rng r( seed() ); u64 const k = 1 << 20; for( u64 i = 0; i < k; ++i ){ u64 x = red<u64>( (u32)r.next() ); lg().seen.insert( fpv( x, 1 ) ); for( int b = 0; b < 64; ++b ) ones[b] += x >> b & 1; }
    for( int b = 0; b < 64; ++b ) if( ones[b] * 8 < k || ones[b] * 8 > 7 * k ) lg().violation( "constant bit 32->64", "bit " + std::to_string( b ) + " of the target is set for " + std::to_string( ones[b] ) + " of " + std::to_string( k ) + " results" );
    lg().count( "complete images tallied" );
}
// narrowing 64 bit results: chi-square over random, counting and windowed results; influence of every bit
template<class T> static void narrow64()
{
    std::string const n = nm( 8, sizeof( T ) ); unsigned const tb = 8 * sizeof( T ); unsigned const kb = tb < 16 ? tb : 16; u64 const cells = 1ull << kb;
    Rng r( seed() * 31 + sizeof( T ) ); u64 const per = 64, N = cells * per * ( kb == 8 ? 64 : 1 );
    auto chi = [&]( std::string const& what, auto&& source, int shift )
    {
        std::vector<u32> c( cells ); for( u64 i = 0; i < N; ++i ){ u64 x = red<T>( source( i ) ); ++c[ x >> shift & ( cells - 1 ) ]; }
        lg().eval( N ); double e = (double)N / cells, s = 0; for( u32 x: c ) s += ( x - e ) * ( x - e ) / e;
        double z = ( s - ( cells - 1 ) ) / std::sqrt( 2.0 * ( cells - 1 ) ); lg().seen.insert( fp( n + what ) );
        if( z > 12 ) lg().violation( "not uniform " + n + " " + what, what + ": chi-square is " + std::to_string( s ) + " over " + std::to_string( cells ) + " cells, " + std::to_string( z ) + " standard deviations too much" );
    };
    for( int sh = 0; sh + (int)kb <= (int)tb; sh += sh + 2 * kb > tb && sh + kb < tb ? tb - kb - sh : kb ) chi( "random results, target bits from " + std::to_string( sh ), [&]( u64 ){ return r.next(); }, sh );
    // each source bit influences the target
    for( int b = 0; b < 64; ++b ){ u64 d = 0; for( int i = 0; i < 4000; ++i ){ u64 x = r.next(); d += red<T>( x ) != red<T>( x ^ 1ull << b ); } lg().eval( 4000 ); lg().seen.insert( fpv( b, fp( n ) ) ); if( d < 400 ) lg().violation( "ignored bit " + n, "flipping bit " + std::to_string( b ) + " of the result changes the target in only " + std::to_string( d ) + " of 4000 cases" ); }
    // results that differ only in one window of the target's width spread over a good part of the target
    for( int b = 0; b + (int)tb <= 64; b += tb == 8 ? 1 : 4 )
    {
        u64 const m = tb <= 16 ? 1ull << tb : 1 << 20; u64 base = r.next(); u64 mask = ( tb == 64 ? ~0ull : ( ( 1ull << tb ) - 1 ) ) << b; std::vector<u64> v; for( u64 i = 0; i < m; ++i ) v.push_back( red<T>( ( base & ~mask ) | ( ( tb <= 16 ? i : r.next() ) << b & mask ) ) );
        lg().eval( m ); std::sort( v.begin(), v.end() ); u64 d = std::unique( v.begin(), v.end() ) - v.begin(); lg().seen.insert( fpv( b, fp( n + "w" ) ) ); if( std::getenv( "VF_SHOW" ) ) std::fprintf( stderr, "%s window %d: %g\n", n.c_str(), b, (double)d / m );
        if( d * 16 < m ) lg().violation( "clustered " + n, "results differing only in the " + std::to_string( tb ) + " bits from " + std::to_string( b ) + " give only " + std::to_string( d ) + " distinct values out of " + std::to_string( m ) );
    }
}
// array-likes of every size from 8 bytes on: digests, arrays and a user type that offers just data() and size()
template<std::size_t N> struct UserArr { unsigned char d[ N ] = {}; constexpr unsigned char const* data() const { return d; } constexpr unsigned char* data(){ return d; } constexpr std::size_t size() const { return N; } };
template<class T, std::size_t N> struct Sizes
{
    template<class O> static void run( O const& one, Rng& r )
    {
        unsigned char m[ N ]; int how = (int)r.below( 3 ); for( std::size_t i = 0; i < N; ++i ) m[i] = how == 0 ? (u8)( 0x80 | r.next() ) : how == 1 ? (u8)( i + 1 ) : (u8)r.next();
        h2::digest<N> a( m ); one( m, N, h2::get_integral_result<T>( a ), "digest" ); std::array<unsigned char, N> b; std::memcpy( b.data(), m, N ); one( m, N, h2::get_integral_result<T>( b ), "array" ); UserArr<N> c; std::memcpy( c.d, m, N ); one( m, N, h2::get_integral_result<T>( c ), "user array" );
        Sizes<T, N + 1>::run( one, r );
    }
};
template<class T> struct Sizes<T, 73> { template<class O> static void run( O const&, Rng& ){} };
template<class T> static void array_like()
{
    Rng r( seed() * 77 + sizeof( T ) );
    auto one = [&]( auto const& a, char const* an ){ u64 x = 0; for( int i = 0; i < 8; ++i ) x |= (u64)a.data()[i] << 8 * i; T w = (T)x, g = h2::get_integral_result<T>( a ); lg().distinct( fpv( x, fp( an ) ) ); if( g != w ) lg().violation( std::string( "array-like " ) + an, std::string( an ) + " starting " + hex( a.data(), 8 ) + " as a " + std::to_string( 8 * sizeof( T ) ) + " bit integer: " + std::to_string( (long long)g ) + " instead of " + std::to_string( (long long)w ) ); };
    for( int k = 0; k < 3000 * (int)scale(); ++k )
    {
        auto fill = [&]( auto& a ){ int how = (int)r.below( 4 ); for( std::size_t i = 0; i < a.size(); ++i ) a.data()[i] = how == 0 ? (u8)( 0x80 | r.next() ) : how == 1 ? (u8)( i == (std::size_t)( k % 8 ) ? r.next() : 0 ) : how == 2 ? (u8)( i + 1 ) : (u8)r.next(); };
        h2::digest<8> a; fill( a ); one( a, "digest<8>" ); h2::digest<16> b; fill( b ); one( b, "digest<16>" ); h2::digest<20> c; fill( c ); one( c, "digest<20>" ); h2::digest<64> d; fill( d ); one( d, "digest<64>" );
        std::array<unsigned char, 8> e; fill( e ); one( e, "array<8>" ); std::array<unsigned char, 31> f; fill( f ); one( f, "array<31>" ); 
    }
}
template<class T> static void sizes()
{
    Rng r( seed() * 79 + sizeof( T ) );
    auto one = [&]( unsigned char const* m, std::size_t n, T g, char const* what ){ u64 x = 0; for( int i = 0; i < 8; ++i ) x |= (u64)m[i] << 8 * i; lg().distinct( fpv( x, n ) ); if( g != (T)x ) lg().violation( std::string( "array-like " ) + what + " of " + std::to_string( n ), std::string( what ) + " of " + std::to_string( n ) + " bytes " + hex( m, n ) + " as a " + std::to_string( 8 * sizeof( T ) ) + " bit integer: " + std::to_string( (long long)g ) + " expected " + std::to_string( (long long)(T)x ) ); };
    for( int k = 0; k < 50 * (int)scale(); ++k ) Sizes<T, 8>::run( one, r );
}
// the documented use: hash functions over a set of keys do not collapse in small integers
template<class H> static void tables( char const* hn )
{
    u64 const n = 40000; std::vector<u32> c( 256 ), w( 65536 ); for( u64 i = 0; i < n; ++i ){ H h; u8 q[8]; for( int k = 0; k < 8; ++k ) q[k] = (u8)( i >> 8 * k ); h.update( q, 8 ); auto x = h.result(); ++c[ (u8)h2::get_integral_result<signed char>( x ) ]; ++w[ (u16)h2::get_integral_result<short>( x ) ]; }
    lg().eval( 2 * n ); lg().seen.insert( fp( hn ) ); double e = n / 256.0; u64 used = 0; for( u32 x: w ) used += x != 0; for( u32 x: c ) if( x > 3 * e ) { lg().violation( std::string( "clustered hash " ) + hn, "one of 256 values is taken " + std::to_string( x ) + " times of " + std::to_string( n ) ); break; }
    if( used < 15000 ) lg().violation( std::string( "clustered hash " ) + hn, std::to_string( n ) + " keys fall on " + std::to_string( used ) + " of 65536 values" );
}

int main( int argc, char** argv )
{
    int part = argc > 1 ? std::atoi( argv[1] ) : -1; Rng r( seed() * 5 );
    if( part == 1 || part == -1 ){ narrow<u8, u32>(); }
    if( part == 2 || part == -1 ){ narrow<u16, u32>(); }
    if( part == 3 || part == -1 ) widen_32_64();
    if( part == 0 || part == -1 )
    {
        narrow<u8, u16>(); widen_small<u16, u8>(); widen_small<u32, u8>(); widen_small<u64, u8>(); widen_small<u32, u16>(); widen_small<u64, u16>();
        for( u64 i = 0; i < 65536; ++i ){ targets( (u16)i ); if( i < 256 ) targets( (u8)i ); lg().eval(); if( red<u16>( (u16)i ) != i || ( i < 256 && red<u8>( (u8)i ) != i ) ) lg().violation( "equal width", "an 8 or 16 bit result is not preserved" ); alias1<char16_t>( "char16_t", (u16)i ); }
        for( u64 i = 0; i < 400000 * scale(); ++i )
        {
            u64 x = r.next(); if( i % 3 == 0 ) x >>= r.below( 64 ); if( i % 5 == 0 ) x = ~x; targets( (u32)x ); targets( x ); targets( (unsigned long long)x ); lg().distinct( x );
            if( red<u32>( (u32)x ) != (u32)x || red<u64>( x ) != x || red<int>( (u32)x ) != (u32)x || red<long long>( x ) != x ) lg().violation( "equal width", "a 32 or 64 bit result is not preserved: " + std::to_string( x ) );
            alias1<unsigned long long>( "unsigned long long", x ); alias1<char32_t>( "char32_t", (u32)x );
        }
        narrow64<u8>(); narrow64<u16>(); narrow64<u32>();
        array_like<signed char>(); array_like<u8>(); array_like<short>(); array_like<u16>(); array_like<int>(); array_like<u32>(); array_like<long>(); array_like<u64>(); array_like<char>(); array_like<char16_t>(); array_like<wchar_t>();
        sizes<u64>(); sizes<int>(); sizes<signed char>(); sizes<u16>();
        tables<h2::fnv1a_32>( "fnv1a_32" ); tables<h2::fnv1a_64>( "fnv1a_64" ); tables<h2::xxhash_32>( "xxhash_32" ); tables<h2::xxhash_64>( "xxhash_64" ); tables<h2::siphash_32>( "siphash_32" ); tables<h2::siphash_64>( "siphash_64" ); tables<h2::md5_128>( "md5_128" ); tables<h2::sha2_256>( "sha2_256" ); tables<h2::ripemd_160>( "ripemd_160" );
        lg().sample( "all results of 8, 16 and 32 bits reduced to every other width; 64 bit ones by chi-square, bit influence and bit windows" );
    }
    return lg().finish();
}
