// C20: digests as values and their text forms. Guard bytes and guard pages watch every output buffer.
#include "common.hpp"
#include <boost/hash2/digest.hpp>
#include <sstream>
#include <iomanip>
#include <locale>
#include <algorithm>
#include <new>
#include <memory>
#include <sys/mman.h>
using namespace vf;
namespace h2 = boost::hash2;

static std::string text( u8 const* p, std::size_t n ){ std::string s; for( std::size_t i = 0; i < n; ++i ){ char b[3]; std::snprintf( b, 3, "%02x", p[i] ); s += b; } return s; }
struct Punct: std::numpunct<char> { char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\1"; } };

// a writable page followed by an inaccessible one
static char* guard_end(){ static char* p = nullptr; if( !p ){ p = (char*)mmap( nullptr, 3 * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 ); if( p == MAP_FAILED || mprotect( p, 4096, PROT_NONE ) || mprotect( p + 8192, 4096, PROT_NONE ) ) std::exit( 3 ); } return p + 8192; }

template<std::size_t N> struct T
{
    typedef h2::digest<N> D;
    static void bad( char const* what, u8 const* w, std::string const& m ){ lg().violation( std::string( what ) + " digest<" + std::to_string( N ) + ">", std::string( what ) + " of a digest<" + std::to_string( N ) + "> holding " + hex( w, N, 140 ) + ": " + m ); }
    static void contents( char const* how, D const& d, u8 const* w )
    {
        D& m = const_cast<D&>( d ); bool ok = d.size() == N && d.max_size() == N && d.data() == d.begin() && d.end() == d.begin() + N && m.begin() == d.begin() && m.end() == d.end() && m.data() == d.data() && &d.front() == d.data() && &m.front() == d.data() && &d.back() == d.data() + N - 1 && &m.back() == d.data() + N - 1;
        for( std::size_t i = 0; i < N; ++i ) ok = ok && d[i] == w[i] && d.data()[i] == w[i] && &m[i] == d.data() + i && &d[i] == d.data() + i;
        std::size_t k = 0; for( unsigned char c: d ){ ok = ok && k < N && c == w[k]; ++k; } ok = ok && k == N;
        lg().eval(); if( !ok ) bad( "contents", w, std::string( how ) + ": element access disagrees, data() holds " + hex( d.data(), N, 140 ) );
    }
    template<std::size_t M> static void array_form( D const& d, u8 const* w, std::string const& t )
    {
        struct { char pre[16]; char b[ M ]; char post[16]; } g; for( int fill: { 0x00, 0x5A, 0xFF } )
        {
            std::memset( &g, fill, sizeof( g ) ); to_chars( d, g.b ); lg().eval();
            bool ok = std::memcmp( g.b, t.data(), 2 * N ) == 0 && g.b[ 2 * N ] == 0; for( std::size_t i = 2 * N + 1; i < M; ++i ) ok = ok && (u8)g.b[i] == (u8)fill; for( int i = 0; i < 16; ++i ) ok = ok && (u8)g.pre[i] == (u8)fill && (u8)g.post[i] == (u8)fill;
            if( !ok ) bad( "to_chars(array)", w, "char[" + std::to_string( M ) + "] filled with " + std::to_string( fill ) + " now holds " + hex( g.b, M, 300 ) );
        }
    }
    static void pointer_form( D const& d, u8 const* w, std::string const& t, char* buf, std::size_t cap, char const* where )
    {
        u8 const fill = 0xC3; std::vector<char> before( cap + 32 );
        std::memset( buf, fill, cap ); char* e = to_chars( d, buf, buf + cap ); lg().distinct( fpv( cap, fpv( N, fp( w, N ) ) ) );
        std::size_t used = 0;
        if( cap < 2 * N ){ if( e != nullptr ) bad( "to_chars(short)", w, std::string( where ) + ": a buffer of " + std::to_string( cap ) + " did not give a null pointer" ); }
        else { used = 2 * N; if( e != buf + 2 * N ) bad( "to_chars(end)", w, std::string( where ) + ": buffer of " + std::to_string( cap ) + ": returned " + ( e ? "offset " + std::to_string( e - buf ) : std::string( "null" ) ) ); if( std::memcmp( buf, t.data(), 2 * N ) != 0 ) bad( "to_chars(text)", w, std::string( where ) + ": buffer of " + std::to_string( cap ) + " holds " + std::string( buf, 2 * N ) ); }
        for( std::size_t i = used; i < cap; ++i ) if( (u8)buf[i] != fill ){ bad( "to_chars(extra)", w, std::string( where ) + ": buffer of " + std::to_string( cap ) + ": byte " + std::to_string( i ) + " was overwritten" ); break; }
    }
    static void stream( D const& d, u8 const* w, std::string const& t, Rng& r )
    {
        std::ostringstream os; int fl = (int)r.below( 64 ); if( fl & 1 ) os << std::uppercase; if( fl & 2 ) os << std::hex << std::showbase; if( fl & 4 ) os << std::oct; if( fl & 8 ) os << std::showpos << std::boolalpha; if( fl & 16 ) os.imbue( std::locale( std::locale::classic(), new Punct ) ); if( fl & 32 ) os << std::setfill( '*' );
        int adj = (int)r.below( 3 ); os << ( adj == 0 ? std::left : adj == 1 ? std::right : std::internal ); std::size_t width = r.below( 3 ) ? 0 : r.below( 2 * N + 9 ); char f = os.fill(); os << "<"; os.width( width ); std::ios::fmtflags ff = os.flags();
        std::ostream& ret = ( os << d ); bool same = &ret == &os && os.good() && os.flags() == ff; os << ">"; std::string g = os.str(), want = t; if( width > t.size() ) want = adj == 0 ? t + std::string( width - t.size(), f ) : std::string( width - t.size(), f ) + t;
        lg().distinct( fp( g, fl ) ); if( !same ) bad( "operator<<", w, "stream state changed or another stream returned" );
        if( g != "<" + want + ">" && g != "<" + t + ">" ) bad( "operator<<", w, "wrote " + g );
    }
    static void run()
    {
        Rng r( seed() * 8191 + N );
        { alignas( D ) u8 st[ sizeof( D ) ]; u8 z[ N ] = {}; for( int fill: { 0xFF, 0x5A } ){ std::memset( st, fill, sizeof( st ) ); D* d = new( st ) D(); contents( "value-initialized", *d, z ); std::memset( st, fill, sizeof( st ) ); d = new( st ) D; contents( "default-initialized", *d, z ); D e; contents( "default", e, z ); D f{}; contents( "braces", f, z ); if( sizeof( D ) != N ) lg().count( "digest size differs from its element count" ); } }
        for( u64 k = 0; k < ( N <= 8 ? 4000 : 700 ) * scale(); ++k )
        {
            unsigned char w[ N ]; if( k < 256 ) std::memset( w, (int)k, N ); else if( k < 512 ){ std::memset( w, 0, N ); w[ r.below( N ) ] = (u8)k; } else if( k % 4 == 0 ) for( auto& x: w ) x = (u8)( 0x80 | r.next() ); else r.fill( w, N );
            unsigned char save[ N ]; std::memcpy( save, w, N ); D const d( w ); for( auto& x: w ) x = (u8)~x; std::memcpy( w, save, N ); contents( "from array", d, w );
            std::string const t = text( w, N );
            // equality: equal to copies, different from anything that differs anywhere
            D c( d ), a; a = d; contents( "copy", c, w ); contents( "assignment", a, w ); lg().eval( 2 ); if( !( c == d ) || c != d || !( d == c ) || !( a == c ) || !( d == d ) || d != d ) bad( "equality", w, "unequal to its copy" );
            for( std::size_t i = 0; i < N; ++i ){ if( N > 16 && k >= 16 && r.chance( 7, 8 ) ) continue; D e( d ); u8 x = (u8)( 1u << r.below( 8 ) ); if( r.chance( 1, 3 ) ) x = (u8)r.range( 1, 255 ); switch( r.below( 4 ) ){ case 0: e[i] ^= x; break; case 1: e.data()[i] ^= x; break; case 2: *( e.begin() + i ) ^= x; break; default: if( i == 0 ) e.front() ^= x; else if( i == N - 1 ) e.back() ^= x; else e[i] ^= x; }
                unsigned char v[ N ]; std::memcpy( v, w, N ); v[i] ^= x; contents( "modified", e, v ); contents( "original of a modified copy", d, w ); lg().eval(); if( e == d || !( e != d ) || d == e ) bad( "equality", w, "equal to a digest differing in byte " + std::to_string( i ) + " by " + std::to_string( x ) ); }
            { D e; unsigned char v[ N ]; r.fill( v, N ); bool eq = std::memcmp( v, w, N ) == 0; e = D( v ); lg().eval(); if( ( e == d ) != eq || ( e != d ) == eq ) bad( "equality", w, "wrong answer against " + hex( v, N ) ); std::swap( e, c ); contents( "swap", c, v ); contents( "swap", e, w ); c = c; contents( "self-assignment", c, v ); }
            // text
            if( to_string( d ) != t ) bad( "to_string", w, "gives " + to_string( d ) ); lg().distinct( fp( t ) );
            array_form<2 * N + 1>( d, w, t ); array_form<2 * N + 2>( d, w, t ); array_form<2 * N + 33>( d, w, t );
            std::vector<char> buf( 2 * N + 80, (char)0xC3 );
            for( std::size_t cap = k < 40 ? 0 : 2 * N - ( N > 1 ? 2 : 1 ); cap <= 2 * N + 3; ++cap ){ std::size_t off = r.below( 16 ); pointer_form( d, w, t, &buf[ off ], cap, "heap" ); for( std::size_t i = 0; i < off; ++i ) if( (u8)buf[i] != 0xC3 ) bad( "to_chars(before)", w, "byte before the buffer written" ); for( std::size_t i = off + cap; i < buf.size(); ++i ) if( (u8)buf[i] != 0xC3 ){ bad( "to_chars(beyond)", w, "byte beyond a buffer of " + std::to_string( cap ) + " written" ); break; } std::fill( buf.begin(), buf.end(), (char)0xC3 ); }
            for( std::size_t cap: { std::size_t( 0 ), 2 * N - 1, 2 * N, 2 * N + 1 } ) pointer_form( d, w, t, guard_end() - cap, cap, "before an unmapped page" );
            { char* p = guard_end() - 4096; pointer_form( d, w, t, p, 2 * N + 20, "after an unmapped page" ); }
            stream( d, w, t, r );
            // text forms are consistent whatever the global locale
            if( k % 64 == 0 ){ std::locale old = std::locale::global( std::locale( std::locale::classic(), new Punct ) ); if( to_string( d ) != t ) bad( "to_string", w, "depends on the global locale" ); std::locale::global( old ); }
        }
        lg().count( "digest sizes" );
    }
};
// caller's buffers of 2^31 bytes and more (reserved, hardly any of it touched): only the text is written, its end returned
template<std::size_t N> void huge_buffers( char* base, std::size_t room )
{
    Rng r( seed() * 77 + N ); u8 w[ N ]; r.fill( w, N ); h2::digest<N> const d( w ); std::string const t = text( w, N );
    for( std::size_t n: { std::size_t( 1 ) << 31, ( std::size_t( 1 ) << 31 ) - 1, ( std::size_t( 1 ) << 31 ) + 2 * N, std::size_t( 1 ) << 32, ( std::size_t( 1 ) << 32 ) + 1, ( std::size_t( 1 ) << 32 ) + 2 * N - 1, ( std::size_t( 1 ) << 32 ) + 2 * N, ( std::size_t( 3 ) << 31 ) + 7, std::size_t( 1 ) << 33 } )
    {
        std::memset( base, 0x5A, 4096 ); char* e = to_chars( d, base, base + n ); lg().eval(); lg().count( "buffers of 2^31 bytes and more" );
        bool ok = n <= room && e == base + 2 * N && std::memcmp( base, t.data(), 2 * N ) == 0; for( std::size_t i = 2 * N; i < 4096; ++i ) ok = ok && base[i] == 0x5A; for( int i = 1; i <= 64; ++i ) ok = ok && base[ n - i ] == 0;
        if( !ok ) lg().violation( "to_chars(huge) digest<" + std::to_string( N ) + ">", "a buffer of " + std::to_string( n ) + " bytes: returned " + ( e ? "offset " + std::to_string( e - base ) : std::string( "null" ) ) + ", the buffer starts with " + hex( (u8*)base, 40, 80 ) );
    }
}
// a digest far larger than any of the algorithms'
template<std::size_t N> void large_digest()
{
    typedef h2::digest<N> D; Rng r( seed() * 5 + N ); struct A { u8 b[ N ]; }; std::unique_ptr<A> a( new A ); auto& w = a->b; r.fill( w, N ); std::unique_ptr<D> d( new D( w ) ), c( new D( *d ) ); std::string const t = text( w, N );
    lg().eval( 6 ); lg().count( "digests of more than 65535 bytes" );
    auto bad = []( char const* m ){ lg().violation( std::string( m ) + " large digest", std::string( m ) + " is wrong for a digest<" + std::to_string( N ) + ">" ); };
    if( std::memcmp( d->data(), w, N ) || d->size() != N || std::size_t( d->end() - d->begin() ) != N ) bad( "contents" );
    if( to_string( *d ) != t ) bad( "to_string" );
    std::vector<char> b( 2 * N + 2, 'x' ); if( to_chars( *d, b.data(), b.data() + 2 * N ) != b.data() + 2 * N || std::memcmp( b.data(), t.data(), 2 * N ) || b[ 2 * N ] != 'x' ) bad( "to_chars" ); if( to_chars( *d, b.data(), b.data() + 2 * N - 1 ) ) bad( "to_chars(short)" );
    std::ostringstream os; os << *d; if( os.str() != t ) bad( "operator<<" );
    for( std::size_t i: { std::size_t( 0 ), std::size_t( 255 ), std::size_t( 256 ), std::size_t( 65535 ), std::size_t( 65536 ), N - 1 } ){ if( !( *c == *d ) || *c != *d ) bad( "equality" ); ( *c )[i] ^= 1; if( *c == *d || !( *c != *d ) ) bad( "inequality" ); ( *c )[i] ^= 1; }
}
int main()
{
    std::size_t const room = ( std::size_t( 1 ) << 33 ) + 4096; char* huge = (char*)mmap( nullptr, room, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
    if( huge == (char*)MAP_FAILED ){ std::perror( "mmap" ); return 2; }
    huge_buffers<1>( huge, room ); huge_buffers<4>( huge, room ); huge_buffers<16>( huge, room ); huge_buffers<20>( huge, room ); huge_buffers<32>( huge, room ); huge_buffers<64>( huge, room ); munmap( huge, room );
    large_digest<70001>();
    T<1>::run(); T<2>::run(); T<3>::run(); T<4>::run(); T<7>::run(); T<8>::run(); T<9>::run(); T<16>::run(); T<20>::run(); T<28>::run(); T<32>::run(); T<33>::run(); T<48>::run(); T<64>::run(); T<100>::run(); T<128>::run(); T<255>::run(); T<256>::run(); T<300>::run();
    { unsigned char a[2] = { 0x0f, 0xf0 }; lg().sample( "digest<2>{0f,f0} -> " + to_string( h2::digest<2>( a ) ) ); }
    return lg().finish();
}
