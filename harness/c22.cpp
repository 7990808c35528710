// C22: the legacy MurmurHash3 and SpookyHash V2 objects against independent one-shot references, for every length, seed
// and split; byte-sequence seeding, copies and repeated results are functions of what was fed, not of how.
#include "algs.hpp"
using namespace vf;

struct Par { std::string s; u64 a, b; };
static u64 pickseed( Rng& r ){ static u64 const sp[] = { 0, 1, 0xFF, 0x80000000ull, 0xFFFFFFFFull, 0x100000000ull, 0x8000000000000000ull, ~0ull, 0xdeadbeefdeadbeefull }; return r.chance( 1, 3 ) ? sp[ r.below( 9 ) ] : r.next() >> ( r.chance( 1, 4 ) ? r.below( 64 ) : 0 ); }

template<class H> struct T;
template<> struct T<h2::murmur3_32>
{
    enum { B = 4 }; static char const* n(){ return "murmur3_32"; }
    static h2::murmur3_32 make( Rng& r, Par& p, int how ){ if( how == 0 ){ p = { "()", 0, 0 }; return h2::murmur3_32(); } p.a = (u32)pickseed( r ); p.s = "(" + std::to_string( p.a ) + ")"; return h2::murmur3_32( (std::uint64_t)p.a ); }
    static bytes want( Par const& p, bytes const& m ){ return ref::murmur32( (u32)p.a, m ); }
};
template<> struct T<h2::murmur3_128>
{
    enum { B = 16 }; static char const* n(){ return "murmur3_128"; }
    static h2::murmur3_128 make( Rng& r, Par& p, int how )
    {
        if( how == 0 ){ p = { "()", 0, 0 }; return h2::murmur3_128(); }
        p.a = pickseed( r ); if( how == 1 ){ p.b = p.a; p.s = "(" + std::to_string( p.a ) + ")"; return h2::murmur3_128( (std::uint64_t)p.a ); }
        p.b = pickseed( r ); p.s = "(" + std::to_string( p.a ) + "," + std::to_string( p.b ) + ")"; return h2::murmur3_128( (std::uint64_t)p.a, (std::uint64_t)p.b );
    }
    static bytes want( Par const& p, bytes const& m ){ return ref::murmur128( p.a, p.b, m ); }
};
template<> struct T<h2::spooky2_128>
{
    enum { B = 192 }; static char const* n(){ return "spooky2_128"; }
    static h2::spooky2_128 make( Rng& r, Par& p, int how )
    {
        if( how == 0 ){ p = { "()", 0, 0 }; return h2::spooky2_128(); }
        p.a = pickseed( r ); if( how == 1 ){ p.b = 0; p.s = "(" + std::to_string( p.a ) + ")"; return h2::spooky2_128( (std::uint64_t)p.a ); }
        p.b = pickseed( r ); p.s = "(" + std::to_string( p.a ) + "," + std::to_string( p.b ) + ")"; return h2::spooky2_128( (std::uint64_t)p.a, (std::uint64_t)p.b );
    }
    static bytes want( Par const& p, bytes const& m ){ return ref::spooky128( p.a, p.b, m ); }
};

// feeds m in one or many updates, through either pointer type, with empty updates in between
template<class H> static std::string feed( H& h, Rng& r, bytes const& m, std::size_t B, int how )
{
    u8 const* p = m.data(); std::size_t n = m.size(), i = 0; std::string s;
    if( how == 0 ){ if( n || r.chance( 1, 2 ) ) h.update( (void const*)p, n ); return "whole"; }
    if( how == 1 ){ for( ; i < n; ++i ) h.update( p + i, 1 ); return "byte by byte"; }
    while( i < n ){ std::size_t k = r.chance( 1, 6 ) ? 0 : 1 + gen_len( r, B / ( r.chance( 1, 2 ) ? 2 : 1 ), n - i - 1 ); if( k == 0 && r.chance( 1, 2 ) ) h.update( (void const*)nullptr, 0 ); else h.update( p + i, k ); i += k; s += " " + std::to_string( k ); }
    return "in parts" + s.substr( 0, 200 );
}

template<class H> static void run()
{
    typedef T<H> X; std::string const n = X::n(); std::size_t const B = X::B; Rng r( seed() * 32452843 + fp( n ) ); u64 const sc = scale();
    auto conf = [&]( bytes const& m, int ctor, int how )
    {
        Par p; std::size_t off = r.below( 16 ); bytes buf( off + m.size(), 0x5A ); buf.insert( buf.end(), 3, 0xC3 ); if( !m.empty() ) std::memcpy( &buf[off], m.data(), m.size() );
        H h = X::make( r, p, ctor ); bytes mm( buf.begin() + off, buf.begin() + off + m.size() ); std::string s = how == 0 ? ( h.update( (void const*)( buf.data() + off ), m.size() ), std::string( "whole" ) ) : feed( h, r, mm, B, how );
        bytes g = rbytes( h.result() ), w = X::want( p, m ); lg().distinct( fp( m.data(), m.size(), fp( n + p.s + s ) ) );
        if( g != w ) lg().violation( "legacy conformance " + n, n + p.s + " len=" + std::to_string( m.size() ) + " msg=" + hex( m, 300 ) + " fed " + s + ": got " + hex( g ) + " expected " + hex( w ) );
    };
    // every length with whole and split feeding, every kind of seed
    std::size_t const full = thorough() ? 5000 : 1600;
    for( std::size_t k = 0; k <= full; ++k ){ conf( r.buf( k ), k % 3, 0 ); conf( gen_msg( r, k ), ( k + 1 ) % 3, 2 ); if( k <= 3 * B + 20 ) for( int c = 0; c < 3; ++c ) for( int f = 0; f < 3; ++f ){ conf( r.buf( k ), c, f ); conf( bytes( k, c == 0 ? 0 : c == 1 ? 0xFF : 0x80 ), c, f ); } }
    // single bits
    for( std::size_t k: { B - 1, B, 2 * B - 1, 2 * B + B / 2 + 1 } ) for( std::size_t b = 0; b < 8 * k; ++b ){ bytes m( k ); m[ b / 8 ] = (u8)( 1u << b % 8 ); conf( m, (int)( b % 3 ), 0 ); }
    // every two-part and many three-part splits around the boundaries
    for( std::size_t k: { B - 1, B, B + 1, B + B / 2, 2 * B, 2 * B + 1, 3 * B - 1 } ){ bytes m = r.buf( k ); for( std::size_t i = 0; i <= k; ++i ) { for( int q = 0; q < ( B > 100 ? 3 : 12 ); ++q ){ std::size_t j = i + r.below( k - i + 1 ); Par p; H h = X::make( r, p, q % 3 ); h.update( m.data(), i ); h.update( m.data() + i, j - i ); if( r.chance( 1, 3 ) ) h.update( m.data(), 0 ); h.update( m.data() + j, k - j ); bytes g = rbytes( h.result() ), w = X::want( p, m ); lg().distinct( fpv( i << 20 | j, fpv( k, fp( n ) ) ) ); if( g != w ) lg().violation( "legacy split " + n, n + p.s + " split " + std::to_string( i ) + "+" + std::to_string( j - i ) + "+" + std::to_string( k - j ) + " msg=" + hex( m, 300 ) + " got " + hex( g ) + " expected " + hex( w ) ); } } }
    for( u64 k = 0; k < 3000 * sc; ++k ) conf( gen_msg( r, gen_len( r, B, 6000 ) ), (int)r.below( 3 ), (int)r.below( 3 ) );
    for( std::size_t k: { 65535, 65536, 65537, 1 << 20, ( 1 << 24 ) + 77 } ) conf( r.buf( k + ( k > 70000 ? r.below( 300 ) : 0 ) ), 2, k < 100000 ? 2 : 0 );
    // the empty byte sequence is the default construction
    { u8 z = 0; for( u8 const* q: { (u8 const*)nullptr, (u8 const*)&z } ){ H h( q, 0 ), d; for( int i = 0; i < 3; ++i ){ bytes m = gen_msg( r, gen_any( r, B, 500 ) ); h.update( m.data(), m.size() ); d.update( m.data(), m.size() ); bytes g = rbytes( h.result() ), w = rbytes( d.result() ); lg().eval(); if( g != w ) lg().violation( "legacy empty seed " + n, n + ": constructing from an empty byte sequence differs from default construction" ); } } }
    // byte seeding, copies, repeated results: functions of the history only
    for( u64 k = 0; k < 1500 * sc; ++k )
    {
        std::size_t sn = k < 3 * B ? k : gen_any( r, B, 700 ); bytes s = gen_msg( r, sn ), s2( s ); s2.insert( s2.begin(), 1 + r.below( 15 ), 0x77 ); std::size_t d = s2.size() - s.size();
        u8 const* sp = s.empty() ? (u8 const*)"" : s.data(); H a( sp, sn ), b( s2.data() + d, sn ); std::vector<H> copies; std::string how; u64 f = fp( s.data(), sn, fp( n ) );
        int len = 1 + (int)r.below( 5 ); bool bad = false; bytes first;
        for( int i = 0; i < len && !bad; ++i )
        {
            if( r.chance( 2, 3 ) ){ bytes m = gen_msg( r, gen_any( r, B, 700 ) ); how += " u" + std::to_string( m.size() ); feed( a, r, m, B, 0 ); feed( b, r, m, B, 2 ); if( r.chance( 1, 2 ) ){ H c( b ); H e; e = c; b = e; } f = fp( m.data(), m.size(), f ); }
            if( r.chance( 2, 3 ) ){ how += " r"; H before( b ); bytes x = rbytes( a.result() ), y = rbytes( b.result() ), z = rbytes( before.result() ); bad = x != y || y != z; f = fpv( 1, f ); if( first.empty() ) first = x; if( bad ) lg().violation( "legacy determinism " + n, n + "(" + std::to_string( sn ) + " bytes " + hex( s, 60 ) + ")" + how + ": one object gives " + hex( x ) + ", one fed the same bytes in other parts " + hex( y ) + ", its copy " + hex( z ) ); }
        }
        bytes x = rbytes( a.result() ), y = rbytes( b.result() ); if( !bad && x != y ) lg().violation( "legacy determinism " + n, n + "(" + std::to_string( sn ) + " bytes)" + how + ": final results differ" );
        lg().distinct( f );
    }
    lg().count( "algorithm " + n ); lg().sample( n + ": lengths 0.." + std::to_string( full ) + ", all two-part splits around " + std::to_string( B ) + ", seeds in either or both words" );
}
int main( int argc, char** argv )
{
    int p = argc > 1 ? std::atoi( argv[1] ) : -1;
    if( p < 0 || p == 0 ) run<h2::murmur3_32>(); if( p < 0 || p == 1 ) run<h2::murmur3_128>(); if( p < 0 || p == 2 ) run<h2::spooky2_128>();
    return lg().finish();
}
