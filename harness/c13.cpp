// C13: scalars. All values of the 8 and 16 bit types, wide samples of the others, in every flavor.
#include "types.hpp"
using namespace vf;

struct Fix { typedef u64 result_type; u8 b[32]; std::size_t n = 0; u64 calls = 0; Fix(){} explicit Fix( u64 ){} Fix( unsigned char const*, std::size_t ){} void update( void const* p, std::size_t k ){ ++calls; if( n + k <= sizeof b ) { if( k ) std::memcpy( b + n, p, k ); } n += k; } u64 result(){ return 0; } };

template<class F, class T> static inline bool check( T const& v, u64 bits )
{
    static Fl const fl = flavor_of<F>(); Fix h; h2::hash_append( h, F(), v ); bool ok = h.n == sizeof( T ) && h.calls > 0;
    for( std::size_t i = 0; ok && i < sizeof( T ); ++i ) ok = h.b[i] == (u8)( bits >> 8 * ( fl.be ? sizeof( T ) - 1 - i : i ) );
    return ok;
}
template<class T> static void all( char const* tn, T const& v, u64 bits )
{
    char const* bad = nullptr; lg().eval( 6 );
    if( !check<h2::default_flavor>( v, bits ) ) bad = "default"; else if( !check<h2::little_endian_flavor>( v, bits ) ) bad = "little"; else if( !check<h2::big_endian_flavor>( v, bits ) ) bad = "big";
    else if( !check<FlavB32>( v, bits ) ) bad = "big/size32"; else if( !check<FlavL8>( v, bits ) ) bad = "little/size8"; else if( !check<FlavB16>( v, bits ) ) bad = "big/size16";
    if( bad ) lg().violation( std::string( "scalar " ) + tn + " " + bad, std::string( tn ) + " with bits " + hex( &bits, 8 ) + " (little-endian hex) in flavor " + bad + ": wrong message" );
}
template<class T> static void ints( char const* tn, std::true_type ) // small: every value
{
    for( long x = sizeof( T ) == 1 ? -128 : -32768; x <= ( sizeof( T ) == 1 ? 255 : 65535 ); ++x ){ T v = (T)x; lg().distinct( fpv( (u64)(unsigned short)x, fp( tn ) ) ); all( tn, v, (u64)v ); }
    lg().count( "types exhausted" );
}
template<class T> static void ints( char const* tn, std::false_type )
{
    Rng r( seed() * 472882027 + fp( tn ) ); std::vector<u64> vs;
    for( int i = 0; i < 64; ++i ){ vs.push_back( 1ull << i ); vs.push_back( ( 1ull << i ) - 1 ); vs.push_back( ~( 1ull << i ) ); vs.push_back( 0ull - ( 1ull << i ) ); }
    for( int i = 0; i < 8; ++i ) for( int b = 0; b < 256; ++b ) vs.push_back( (u64)b << 8 * i );
    for( u64 i = 0; i < 200000 * scale(); ++i ) vs.push_back( r.next() >> ( i & 3 ? 0 : r.below( 64 ) ) );
    for( u64 x: vs ){ T v = (T)x; if( lg().distinct( fpv( (u64)v, fp( tn ) ) ) ) all( tn, v, (u64)v ); }
}
template<class T> static void enums( char const* tn ){ typedef typename std::underlying_type<T>::type U; Rng r( seed() + fp( tn ) ); for( u64 i = 0; i < 70000 * scale(); ++i ){ U u = (U)( i < 65536 ? (u64)i : r.next() ); if( std::is_same<U, bool>::value ) u = (U)( i & 1 ); T v = (T)u; lg().distinct( fpv( (u64)u, fp( tn ) ) ); all( tn, v, (u64)u ); } }
template<class T> static void ptrs( char const* tn ){ Rng r( seed() + fp( tn ) ); for( u64 i = 0; i < 50000 * scale(); ++i ){ u64 x = i == 0 ? 0 : r.next() >> r.below( 60 ); T v = reinterpret_cast<T>( (std::uintptr_t)x ); lg().distinct( fpv( x, fp( tn ) ) ); all( tn, v, x ); } }

static void somefn( int ){}
struct Bits { unsigned a: 3; int b: 5; unsigned long long c: 40; };

int main()
{
    for( int b = 0; b < 2; ++b ){ bool v = b; all( "bool", v, b ); lg().distinct( b ); }
#define X( T ) ints<T>( #T, std::integral_constant<bool, sizeof( T ) <= 2>() );
    X( char ) X( signed char ) X( unsigned char ) X( wchar_t ) X( char16_t ) X( char32_t ) X( short ) X( unsigned short ) X( int ) X( unsigned ) X( long ) X( unsigned long ) X( long long ) X( unsigned long long )
#if defined(__cpp_char8_t)
    X( char8_t )
#endif
#undef X
#define X( T ) enums<T>( #T );
    VF_ENUMS( X )
#undef X
    ptrs<int*>( "int*" ); ptrs<void const*>( "void const*" ); ptrs<void**>( "void**" ); ptrs<std::string const*>( "string const*" );
    { void (*f)( int ) = somefn; all( "function pointer", f, (u64)reinterpret_cast<std::uintptr_t>( f ) ); f = nullptr; all( "function pointer", f, 0 ); int x = 0; int* p = &x; all( "int*", p, (u64)reinterpret_cast<std::uintptr_t>( p ) ); char const* s = "literal"; all( "char const*", s, (u64)reinterpret_cast<std::uintptr_t>( s ) ); }
    { std::nullptr_t n = nullptr; void* p = nullptr; (void)p; Rec a, b; h2::hash_append( a, {}, n ); h2::hash_append( b, {}, p ); lg().eval(); if( a.log != b.log || a.log != bytes( sizeof( void* ) ) ) lg().violation( "nullptr", "nullptr_t message is " + hex( a.log ) ); Rec c; h2::hash_append( c, h2::big_endian_flavor(), n ); if( c.log != bytes( sizeof( void* ) ) ) lg().violation( "nullptr", "nullptr_t message (big) is " + hex( c.log ) ); }
    // enum and its underlying type, pointer and its integer value: the same message
    { Rng r( seed() ); for( u64 i = 0; i < 20000; ++i ){ long long x = (long long)r.next(); ut::EL e = (ut::EL)x; Rec a, b; h2::hash_append( a, h2::big_endian_flavor(), e ); h2::hash_append( b, h2::big_endian_flavor(), x ); lg().eval(); if( a.log != b.log ) lg().violation( "enum as integer", "enum and underlying value differ for " + std::to_string( x ) ); } }
    // bit fields and rvalues bind to the same path
    { Rng r( seed() + 5 ); for( int i = 0; i < 1000; ++i ){ Bits s; s.a = (unsigned)r.next(); s.b = (int)r.below( 16 ); s.c = r.next(); Rec a, b; h2::hash_append( a, {}, (unsigned)s.a ); h2::hash_append( a, {}, (int)s.b ); h2::hash_append( a, {}, (unsigned long long)s.c ); unsigned x = s.a; int y = s.b; unsigned long long z = s.c; h2::hash_append( b, {}, x ); h2::hash_append( b, {}, y ); h2::hash_append( b, {}, z ); lg().eval(); if( a.log != b.log ) lg().violation( "bit fields", "rvalue and lvalue differ" ); } }
    // hash_append_size: the value converted to the flavor's size type
    { Rng r( seed() + 9 ); for( int i = 0; i < 20000; ++i ){ u64 s = r.next() >> r.below( 64 ); auto t = [&]( char const* n, bytes const& got, int w, bool be ){ bytes e; for( int k = 0; k < w; ++k ) e.push_back( (u8)( s >> 8 * ( be ? w - 1 - k : k ) ) ); lg().eval(); if( got != e ) lg().violation( std::string( "size " ) + n, "hash_append_size(" + std::to_string( s ) + ") in " + n + ": " + hex( got ) + " expected " + hex( e ) ); };
        { Rec h; h2::hash_append_size( h, h2::little_endian_flavor(), s ); t( "little", h.log, 8, false ); } { Rec h; h2::hash_append_size( h, h2::big_endian_flavor(), s ); t( "big", h.log, 8, true ); } { Rec h; h2::hash_append_size( h, FlavB32(), s ); t( "big/size32", h.log, 4, true ); }
        { Rec h; h2::hash_append_size( h, FlavL8(), s ); t( "little/size8", h.log, 1, false ); } { Rec h; h2::hash_append_size( h, FlavB16(), (unsigned short)s ); s &= 0xFFFF; t( "big/size16", h.log, 2, true ); } { Rec h; int q = (int)( s & 0x7FFF ); h2::hash_append_size( h, h2::default_flavor(), q ); s = q; t( "default", h.log, 8, flavor_of<h2::default_flavor>().be ); } } }
    lg().sample( "all 65536 values of short, unsigned short, char16_t; all values of the 8 bit types; 200000+ of each wider type; 6 flavors" );
    return lg().finish();
}
