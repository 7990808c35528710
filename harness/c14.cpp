// C14: floating point. Every float bit pattern, in four rounding modes; doubles by class. Zeros of both signs give the
// message of +0; every other non-NaN value its own object representation in the flavor's order.
#include "types.hpp"
#include "bigarr.hpp"
#include <cfenv>
using namespace vf;
struct Fix { typedef u64 result_type; u8 b[16]; std::size_t n = 0; Fix(){} explicit Fix( u64 ){} Fix( unsigned char const*, std::size_t ){} void update( void const* p, std::size_t k ){ if( n + k <= sizeof b && k ) std::memcpy( b + n, p, k ); n += k; } u64 result(){ return 0; } };
template<class F, class T, class U> static inline bool ok( T const& v, U bits, bool nan )
{
    Fix h; h2::hash_append( h, F(), v ); if( h.n != sizeof( T ) ) return false;
    U w = 0; std::memcpy( &w, h.b, sizeof( T ) ); if( flavor_of<F>().be ) w = sizeof( T ) == 4 ? (U)__builtin_bswap32( (u32)w ) : (U)__builtin_bswap64( (u64)w );   // the host is little-endian
    if( w == bits ) return true;
    return nan && w == ( bits | ( sizeof( T ) == 4 ? (U)0x00400000u : (U)( 1ull << 51 ) ) );   // a signalling NaN may come out quiet
}
static int const modes[] = { FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO };
static char const* const mname[] = { "to nearest", "downward", "upward", "toward zero" };

template<class T, class U> static void one( U bits, int mi )
{
    T v; std::memcpy( &v, &bits, sizeof( T ) ); U const mag = (U)( bits << 1 ) >> 1, inf = sizeof( T ) == 4 ? (U)0x7F800000u : (U)( 0x7FFull << 52 ); bool nan = mag > inf; U want = mag == 0 ? 0 : bits;
    char const* f = nullptr;
    if( !ok<h2::default_flavor>( v, want, nan ) ) f = "default"; else if( !ok<h2::little_endian_flavor>( v, want, nan ) ) f = "little"; else if( !ok<h2::big_endian_flavor>( v, want, nan ) ) f = "big";
    if( f ) lg().violation( std::string( sizeof( T ) == 4 ? "float " : "double " ) + ( mag == 0 ? "zero " : nan ? "nan " : mag < ( sizeof( T ) == 4 ? (U)0x00800000u : (U)( 1ull << 52 ) ) ? "subnormal " : "normal " ) + f, std::string( sizeof( T ) == 4 ? "float" : "double" ) + " with bits " + std::to_string( (unsigned long long)bits ) + " in flavor " + f + ", rounding " + mname[ mi ] + ": wrong message" );
}

int main( int argc, char** argv )
{
    int part = argc > 1 ? std::atoi( argv[1] ) : 0, parts = argc > 2 ? std::atoi( argv[2] ) : 1; u64 const coarse = argc > 3 ? std::atoi( argv[3] ) : 1; // stride multiplier, for slow builds
    // floats: exhaustive to nearest; the other modes on every 16th pattern in quick runs (offset by the seed), all in thorough ones
    u64 n = 0;
    for( int m = 0; m < 4; ++m )
    {
        std::fesetround( modes[m] ); u64 const step = ( m == 0 || thorough() ? 1 : 16 ) * coarse;
        u64 lo = 0x100000000ull * part / parts, hi = 0x100000000ull * ( part + 1 ) / parts;
        for( u64 b = lo + ( step > 1 ? ( seed() * 7 + m ) % step : 0 ); b < hi; b += step ){ one<float, u32>( (u32)b, m ); ++n; }
        std::fesetround( FE_TONEAREST );
    }
    lg().count( "float bit patterns", n ); lg().eval( n );
    // doubles
    Rng r( seed() * 122949823 + part ); u64 dn = 0;
    for( int m = 0; m < 4; ++m )
    {
        std::fesetround( modes[m] );
        auto d = [&]( u64 b ){ one<double, u64>( b, m ); ++dn; if( ( dn & 1023 ) == 0 ) lg().distinct( b ); };
        for( u64 s = 0; s < 2; ++s ) for( u64 e = 0; e < 2048; ++e ) { u64 b = s << 63 | e << 52; d( b ); d( b | 1 ); d( b | ( ( 1ull << 52 ) - 1 ) ); for( int i = 0; i < 52; ++i ) d( b | 1ull << i ); for( int i = 0; i < 20; ++i ) d( b | r.next() >> 12 ); }
        for( u64 i = 0; i < 4000000 * scale() / coarse; ++i ) d( r.next() );
        // exactly representable integers, halves, floats widened
        for( int i = 0; i < 100000; ++i ){ double x = (double)(long long)( r.next() >> r.below( 60 ) ); u64 b; std::memcpy( &b, &x, 8 ); d( b ); x = -x / 2; std::memcpy( &b, &x, 8 ); d( b ); u32 fb = (u32)r.next(); float f; std::memcpy( &f, &fb, 4 ); x = f; std::memcpy( &b, &x, 8 ); d( b ); }
        std::fesetround( FE_TONEAREST );
    }
    lg().count( "double bit patterns", dn ); lg().eval( dn ); lg().distinct( 1 );
    // equal values, equal messages: zeros computed at run time, in containers and structures
    for( int m = 0; m < 4; ++m )
    {
        std::fesetround( modes[m] ); volatile double one_ = 1, z = 0; double nz[4] = { -z, z * -one_, -z / one_, std::copysign( 0.0, -1.0 ) };
        for( double x: nz ){ Rec a, b; std::vector<double> va = { x, 1, x }, vb = { 0.0, 1, 0.0 }; h2::hash_append( a, {}, va ); h2::hash_append( b, {}, vb ); lg().eval(); if( a.log != b.log ) lg().violation( "zero in vector", std::string( "negative zero in a vector, rounding " ) + mname[m] ); 
            Rec c, e; h2::hash_append( c, {}, std::make_pair( (float)x, x ) ); h2::hash_append( e, {}, std::make_pair( 0.0f, 0.0 ) ); if( c.log != e.log ) lg().violation( "zero in pair", std::string( "negative zero in a pair, rounding " ) + mname[m] ); }
        std::fesetround( FE_TONEAREST );
    }
    lg().sample( "float bits [" + std::to_string( part ) + "/" + std::to_string( parts ) + ") to nearest exhaustively, others sampled; doubles: every exponent x single mantissa bits" );
    if( part == 0 ) float_arrays();
    return lg().finish();
}
