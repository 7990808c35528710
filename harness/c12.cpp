// C12: writes a transcript of results (VF_TRANSCRIPT); the runner compares transcripts across compilers, language
// standards, optimization and target options, and across run-time environments.
#include "algs.hpp"
#include "types.hpp"
namespace vf { template<> struct Gen<char> { static char go( Rng& r ){ return (char)Gen<unsigned char>::go( r ); } }; template<> struct Gen<wchar_t> { static wchar_t go( Rng& r ){ return (wchar_t)Gen<unsigned>::go( r ); } }; }   // the same values whatever the signedness
#include <boost/hash2/get_integral_result.hpp>
#include <functional>
#include <algorithm>
#include <cfenv>
#include <clocale>
#include <locale>
#include <sstream>
using namespace vf;
static std::FILE* tr;
static void put( std::string const& k, u64 v ){ std::fprintf( tr, "%s\t%016llx\n", k.c_str(), (unsigned long long)v ); lg().distinct( fp( k, v ) ); }
template<class R> static u64 rv( R const& r ){ bytes b = rbytes( r ); return fp( b.data(), b.size() ); }
static std::vector<std::pair<std::string, std::function<void()>>> secs;

// 64 bit result, independent of everything but the bytes
template<class H> static void histories( char const* n, std::size_t B, int cnt )
{
    Rng r( 1000 + seed() + fp( n ) );
    for( int k = 0; k < cnt; ++k )
    {
        bytes s = r.buf( gen_len( r, B, B + 30 ) ); u64 sd = r.next() >> r.below( 64 ); int how = (int)r.below( 3 ); u8 z = 0;
        H h = how == 0 ? H() : how == 1 ? H( (std::uint64_t)sd ) : H( s.empty() ? &z : s.data(), s.size() ); u64 f = 1; int len = (int)r.below( 6 );
        for( int i = 0; i < len; ++i )
        {
            bytes d = gen_msg( r, gen_len( r, B, 4 * B + 50 ) ); int op = (int)r.below( 8 );
            if( op < 4 ) h.update( (void const*)d.data(), d.size() ); else if( op < 6 ) h.update( (unsigned char const*)d.data(), d.size() ); else if( op == 6 ){ H c( h ); c.update( d.data(), d.size() ); f = fpv( rv( c.result() ), f ); h = c; } else f = fpv( rv( h.result() ), f );
        }
        auto x = h.result(); f = fpv( rv( x ), f );
        f = fpv( (u64)(u8)h2::get_integral_result<char>( x ), f ); f = fpv( (u64)(u8)h2::get_integral_result<unsigned char>( x ), f ); f = fpv( (u64)(u16)h2::get_integral_result<short>( x ), f ); f = fpv( (u64)(u32)h2::get_integral_result<int>( x ), f ); f = fpv( (u64)h2::get_integral_result<long>( x ), f ); f = fpv( (u64)h2::get_integral_result<unsigned long long>( x ), f ); f = fpv( (u64)(u32)h2::get_integral_result<wchar_t>( x ), f ); f = fpv( (u64)(u32)h2::get_integral_result<char32_t>( x ), f );
        put( std::string( "history " ) + n + " #" + std::to_string( k ), f );
    }
}
// updates of many blocks at once, from buffers at every alignment: vector units take over where there is enough to do
template<class H> static void long_history( char const* n, std::size_t B )
{
    Rng r( 6000 + seed() + fp( n ) ); std::vector<u8> buf( 40000 ); r.fill( buf.data(), buf.size() );
    for( int k = 0; k < 14; ++k )
    {
        std::size_t len = k < 9 ? ( std::size_t( 3 ) << k ) * B + r.below( B + 1 ) : 1000 + r.below( 36000 ); if( len > 39000 ) len = 39000 - r.below( B + 1 ); std::size_t off = r.below( 65 ), pre = k % 2 ? r.below( B ) : 0; u8 const* p = buf.data() + off;
        H h( (std::uint64_t)( k % 3 ) ); h.update( buf.data(), pre ); if( k % 4 < 2 ) h.update( p, len ); else h.update( (void const*)p, len ); u64 f = fpv( rv( h.result() ), 1 ); h.update( p, len / 3 ); f = fpv( rv( h.result() ), f ); H g( p, len / 2 ); f = fpv( rv( g.result() ), f );
        put( std::string( "long " ) + n + " #" + std::to_string( k ), f );
    }
}
template<class T, class F> static u64 msg( T const& v ){ Rec h; h2::hash_append( h, F(), v ); return fp( h.log.data(), h.log.size(), h.log.size() ); }
template<class T> static void values( char const* n, int cnt )
{
    Rng r( 2000 + seed() + fp( n ) );
    for( int k = 0; k < cnt; ++k )
    {
        T v = gen<T>( r ); u64 f = msg<T, h2::default_flavor>( v ); f = fpv( msg<T, h2::big_endian_flavor>( v ), f ); f = fpv( msg<T, FlavB32>( v ), f ); f = fpv( msg<T, FlavL8>( v ), f );
        h2::xxhash_64 h( (std::uint64_t)k ); h2::hash_append( h, {}, v ); f = fpv( h.result(), f ); h2::sha2_256 g; h2::hash_append( g, h2::little_endian_flavor(), v ); f = fpv( rv( g.result() ), f );
        put( std::string( "value " ) + n + " #" + std::to_string( k ), f );
    }
    typedef typename std::remove_cv<T>::type U; u64 t = 0;
    t = t * 2 + h2::is_contiguously_hashable<U, h2::endian::little>::value; t = t * 2 + h2::is_contiguously_hashable<U, h2::endian::big>::value; t = t * 2 + h2::is_contiguously_hashable<U const, h2::endian::native>::value; t = t * 2 + h2::is_trivially_equality_comparable<U>::value; t = t * 2 + h2::is_endian_independent<U>::value; t = t * 2 + h2::has_constant_size<U>::value; t = t * 2 + h2::is_trivially_equality_comparable<U const>::value; t = t * 2 + h2::is_endian_independent<U const>::value; t = t * 2 + h2::has_constant_size<U const>::value;
    put( std::string( "traits " ) + n, t );
}
// comparing a signaling NaN, or converting, can trap where the environment asks for it: floating elements are taken from plain numbers
template<class E> static E element( Rng& r, std::false_type ){ return gen<E>( r ); }
template<class E> static E element( Rng& r, std::true_type ){ int k = (int)r.below( 6 ); E x = (E)( (int)r.below( 2000001 ) - 1000000 ); return k == 0 ? (E)0 : k == 1 ? -(E)0 : k == 2 ? x / 1024 : x; }
// sequences of many elements
template<class T> static void many( char const* n )
{
    typedef typename T::value_type E; Rng r( 7000 + seed() + fp( n ) );
    for( std::size_t m: { std::size_t( 63 ), std::size_t( 64 ), std::size_t( 300 ), std::size_t( 1025 ), std::size_t( 4100 ) } )
    {
        std::vector<E> e; e.reserve( m ); for( std::size_t i = 0; i < m; ++i ) e.push_back( element<E>( r, std::is_floating_point<E>() ) ); T v( e.begin(), e.end() ); u64 f = msg<T, h2::default_flavor>( v ); f = fpv( msg<T, h2::big_endian_flavor>( v ), f ); f = fpv( msg<T, FlavL8>( v ), f );
        { h2::fnv1a_32 h; h2::hash_append( h, {}, v ); f = fpv( h.result(), f ); } { h2::siphash_64 h( (std::uint64_t)m ); h2::hash_append_range( h, h2::little_endian_flavor(), v.begin(), v.end() ); h2::hash_append_unordered_range( h, h2::big_endian_flavor(), v.begin(), v.end() ); f = fpv( h.result(), f ); }
        put( std::string( "many " ) + n + " #" + std::to_string( m ), f );
    }
}
template<class T> static void arrays( char const* n )
{
    Rng r( 3000 + seed() + fp( n ) );
    for( int k = 0; k < 6; ++k ){ T a[ 3 ], b[ 2 ][ 2 ]; gen_into( r, a ); gen_into( r, b ); u64 f = msg<T[3], h2::default_flavor>( a ); f = fpv( msg<T[3], h2::big_endian_flavor>( a ), f ); f = fpv( msg<T[2][2], FlavB16>( b ), f ); Rec h; h2::hash_append_range( h, h2::big_endian_flavor(), a, a + 3 ); h2::hash_append_sized_range( h, {}, a + 0, a + k % 4 ); h2::hash_append_unordered_range( h, {}, a, a + 3 ); h2::hash_append_size( h, FlavB16(), k ); f = fp( h.log.data(), h.log.size(), f ); put( std::string( "array " ) + n + " #" + std::to_string( k ), f ); }
}
template<std::size_t N> static void digests()
{
    Rng r( 4000 + seed() + N );
    for( int k = 0; k < 8; ++k )
    {
        h2::digest<N> d; for( std::size_t i = 0; i < N; ++i ) d[i] = (u8)( k == 0 ? 255 : r.next() ); u64 f = fp( h2::to_string( d ) ); std::ostringstream o; o << d; f = fp( o.str(), f ); char b[ 2 * N + 3 ]; std::memset( b, 1, sizeof b ); h2::to_chars( d, b, b + 2 * N + ( k % 3 ) - 1 ); f = fp( b, sizeof b, f ); char w[ 2 * N + 1 ]; h2::to_chars( d, w ); f = fp( w, sizeof w, f );
        h2::digest<N> e( d ); f = fpv( d == e, f ); e[ k % N ] ^= 128; f = fpv( d == e, f ); f = fpv( d != e, f ); for( u8 c: d ) f = fpv( c, f ); put( "digest<" + std::to_string( N ) + "> #" + std::to_string( k ), f );
    }
}
static void reductions()
{
    Rng r( 5000 + seed() );
    for( int k = 0; k < 200; ++k )
    {
        u64 x = k < 20 ? (u64)k : k < 40 ? ~(u64)( k - 20 ) : r.next(), f = 0;
#define Q( R, T ) f = fpv( (u64)(std::make_unsigned<T>::type)h2::get_integral_result<T>( (R)x ), f );
#define QQ( R ) Q( R, signed char ) Q( R, char ) Q( R, short ) Q( R, u16 ) Q( R, int ) Q( R, u32 ) Q( R, long ) Q( R, u64 ) Q( R, wchar_t )
        QQ( unsigned char ) QQ( u16 ) QQ( u32 ) QQ( u64 ) QQ( unsigned long )
        put( "reduction #" + std::to_string( k ), f );
    }
}

int main()
{
    char const* fn = std::getenv( "VF_TRANSCRIPT" ); tr = fn ? std::fopen( fn, "w" ) : stdout; if( !tr ) return 3;
    int const cnt = thorough() ? 200 : 60, vc = thorough() ? 40 : 15;
#define X( c, k, m ) secs.push_back( { #c, [=]{ histories<h2::c>( #c, ref_block( k, ref::m ), cnt ); } } );
    VF_ALL( X )
#undef X
#define X( c, k, m ) secs.push_back( { "long " #c, [=]{ long_history<h2::c>( #c, ref_block( k, ref::m ) ); } } );
    VF_ALL( X )
#undef X
#define X( ... ) secs.push_back( { #__VA_ARGS__, [=]{ values<__VA_ARGS__>( #__VA_ARGS__, vc ); } } );
#if !defined(VF_PART) || VF_PART == 0
    X( bool ) X( signed char ) X( unsigned char ) X( char ) X( wchar_t ) X( char16_t ) X( char32_t ) X( short ) X( int ) X( long ) X( unsigned long long ) X( float ) X( double ) X( void* ) X( int const* ) X( std::nullptr_t ) X( ut::E0 ) X( ut::E8 ) X( ut::ES ) X( ut::EBool )
    X( std::string ) X( std::wstring ) X( std::u16string ) X( std::vector<char> ) X( std::vector<unsigned char> ) X( std::vector<bool> ) X( std::vector<int> ) X( std::vector<double> ) X( std::deque<short> ) X( std::list<unsigned char> ) X( std::forward_list<float> ) X( std::vector<std::string> ) X( std::set<int> ) X( std::map<std::string, std::vector<int>> )
    X( std::array<unsigned char, 3> ) X( std::array<int, 4> ) X( std::array<int, 0> ) X( std::array<double, 2> ) X( boost::array<short, 3> ) X( h2::digest<20> ) X( std::unordered_set<int> ) X( std::unordered_map<int, std::string> ) X( boost::unordered_multiset<short> ) X( std::pair<char, std::string> ) X( std::tuple<> ) X( std::tuple<char, double, std::string> ) X( ut::UTup )
    X( ut::TI ) X( ut::TS ) X( ut::Contig ) X( ut::Contig1 ) X( std::vector<ut::Contig> ) X( std::array<ut::Contig1, 2> ) X( ut::CRange<int> ) X( ut::LRange<int> ) X( ut::FRange<int, 3> )
#if defined(BOOST_DESCRIBE_CXX14)
    X( ut::D0 ) X( ut::D1 ) X( ut::D2 ) X( ut::DPad ) X( ut::DPriv ) X( ut::DMulti ) X( ut::DArr ) X( std::vector<ut::DPad> ) X( std::pair<ut::D0, ut::D0> )
#endif
#endif
#undef X
#define X( ... ) secs.push_back( { "many " #__VA_ARGS__, []{ many<__VA_ARGS__>( #__VA_ARGS__ ); } } );
    X( std::string ) X( std::vector<unsigned char> ) X( std::vector<short> ) X( std::vector<int> ) X( std::vector<unsigned long long> ) X( std::vector<float> ) X( std::vector<double> ) X( std::vector<bool> ) X( std::vector<ut::ES> ) X( std::deque<int> ) X( std::list<short> ) X( std::u16string ) X( std::set<int> ) X( std::vector<std::string> )
#undef X
#define X( T ) secs.push_back( { "array " #T, []{ arrays<T>( #T ); } } );
    X( unsigned char ) X( char ) X( bool ) X( short ) X( int ) X( float ) X( double ) X( long long ) X( ut::ES ) X( char16_t ) X( wchar_t )
#undef X
    secs.push_back( { "digest", []{ digests<1>(); digests<4>(); digests<16>(); digests<20>(); digests<48>(); digests<64>(); } } ); secs.push_back( { "reductions", reductions } );
    // the environment under which the same transcript must come out
    std::string env = std::getenv( "VF_ENV" ) ? std::getenv( "VF_ENV" ) : ""; auto has = [&]( char const* s ){ return env.find( s ) != std::string::npos; };
    if( has( "shuffle" ) ){ Rng r( seed() + 5 ); for( std::size_t i = secs.size(); i > 1; --i ) std::swap( secs[ i - 1 ], secs[ r.below( i ) ] ); }
    if( has( "twice" ) ){ std::FILE* t = tr; tr = std::tmpfile(); if( !tr ) tr = std::fopen( "/dev/null", "w" ); for( auto& s: secs ) s.second(); tr = t; }
    if( has( "up" ) ) std::fesetround( FE_UPWARD ); if( has( "down" ) ) std::fesetround( FE_DOWNWARD ); if( has( "zero" ) ) std::fesetround( FE_TOWARDZERO );
#if defined(__GLIBC__)
    if( has( "trap" ) ) feenableexcept( FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW );
#endif
    if( has( "locale" ) )
    {
        std::setlocale( LC_ALL, "" ); std::setlocale( LC_ALL, "C.UTF-8" );
#if defined(__cpp_rtti)     // libstdc++ installs facets with dynamic_cast
        struct Np: std::numpunct<char> { char do_decimal_point() const override { return ';'; } char do_thousands_sep() const override { return '\''; } std::string do_grouping() const override { return "\1"; } std::string do_truename() const override { return "wahr"; } };
        struct Ct: std::ctype<char> { char do_toupper( char c ) const override { return c == 'a' ? 'Z' : std::ctype<char>::do_toupper( c ); } char do_widen( char c ) const override { return c; } };
        std::locale::global( std::locale( std::locale( std::locale::classic(), new Np ), new Ct ) );
#endif
    }
    std::vector<std::vector<int>> junk; if( has( "heap" ) ) for( int i = 0; i < 2000; ++i ) junk.push_back( std::vector<int>( i * 37 % 501, -1 ) );
    if( has( "stack" ) ){ volatile char a[ 70001 ]; std::memset( (void*)a, 0xEE, sizeof a ); (void)a; }
    for( auto& s: secs ) s.second();
    std::fclose( tr ); lg().count( "transcript sections", secs.size() ); lg().sample( "environment '" + env + "', first section " + secs[0].first );
    return lg().finish();
}
