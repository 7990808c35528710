// C02: the way a message is split into update calls never affects any result.
// Oracle: the real object fed in one call (per message segment) against the real object fed in parts.
#include "algs.hpp"
#include <sys/mman.h>
#include <unistd.h>
using namespace vf;
typedef std::unique_ptr<Obj> P;

// segments: the message portions between result() calls
struct Base { Ctor c; std::vector<bytes> seg; std::vector<bytes> res; };

static Base baseline( Alg const& a, Ctor const& c, std::vector<bytes> const& seg )
{
    Base b; b.c = c; b.seg = seg; P o( a.make( c ) );
    for( bytes const& s: seg ){ if( !s.empty() ) o->update( s.data(), s.size() ); b.res.push_back( o->result() ); }
    b.res.push_back( o->result() );
    return b;
}

// feed segment s in the given pieces; each piece lives in its own exactly-sized allocation that is
// scribbled over and released as soon as update returns
static void feed( Obj& o, bytes const& s, std::vector<std::size_t> const& cut, Rng& r, int mode )
{
    std::size_t i = 0;
    for( std::size_t k: cut )
    {
        int ov = mode == 2 ? (int)r.below( 2 ) : mode;
        if( k == 0 ){ static u8 z; u8 const* zp = s.empty() ? &z : s.data() + i; if( ov ) o.update_uc( zp, 0 ); else o.update( zp, 0 ); continue; }
        std::size_t al = r.below( 17 );
        u8* p = static_cast<u8*>( std::malloc( k + al ) ); std::memcpy( p + al, s.data() + i, k );
        if( ov ) o.update_uc( p + al, k ); else o.update( p + al, k );
        std::memset( p, 0xDD, k + al ); std::free( p ); i += k;
    }
}

static void check( Alg const& a, Base const& b, std::vector<std::vector<std::size_t>> const& cuts, Rng& r, int mode )
{
    P o( a.make( b.c ) ); u64 f = fp( std::string( a.name ) + b.c.str() );
    std::vector<bytes> got;
    for( std::size_t i = 0; i < b.seg.size(); ++i ){ feed( *o, b.seg[i], cuts[i], r, mode ); for( std::size_t k: cuts[i] ) f = fpv( k, f ); f = fpv( ~0ull, f ); got.push_back( o->result() ); }
    got.push_back( o->result() );
    lg().distinct( fpv( mode, f ) );
    if( got != b.res )
    {
        std::size_t w = 0; while( got[w] == b.res[w] ) ++w;
        std::string d = std::string( a.name ) + b.c.str() + " result #" + std::to_string( w ) + " got " + hex( got[w] ) + " expected " + hex( b.res[w] ) + " mode " + std::to_string( mode ) + " splits";
        for( std::size_t i = 0; i < cuts.size(); ++i ){ d += " |"; for( std::size_t k: cuts[i] ){ d += " " + std::to_string( k ); if( d.size() > 900 ) break; } d += " msg=" + hex( b.seg[i], 80 ); }
        lg().violation( std::string( "split " ) + a.name, d );
    }
}

static std::vector<std::size_t> random_cut( Alg const& a, std::size_t n, Rng& r )
{
    std::vector<std::size_t> c; std::size_t i = 0; int style = (int)r.below( 5 );
    while( i < n )
    {
        if( r.chance( 1, 6 ) ) c.push_back( 0 );
        std::size_t k;
        switch( style ){ case 0: k = 1; break; case 1: k = 1 + r.below( 2 * a.block + 1 ); break; case 2: k = 1 + r.below( 9 ); break; case 3: k = gen_len( r, a.block, n ); break; default: k = r.chance( 1, 2 ) ? a.block : 1 + r.below( a.block ); }
        if( k == 0 ) { c.push_back( 0 ); continue; }
        if( k > n - i ) k = n - i;
        c.push_back( k ); i += k;
    }
    if( r.chance( 1, 4 ) ) c.push_back( 0 );
    return c;
}

// one update of 128 MiB and more, and of more than 4 GiB, against the same message in parts
static void large( Alg const& a, u8 const* p, u64 n, Rng& r, int pieces )
{
    Ctor c = gen_ctor( r, a.block ); P one( a.make( c ) ), two( a.make( c ) ); bool uc = r.chance( 1, 2 );
    if( uc ) one->update_uc( p, n ); else one->update( p, n );
    u64 i = 0; std::string d; for( int k = 0; k < pieces; ++k ){ u64 q = k + 1 == pieces ? n - i : k == 0 ? 1 + r.below( 3000 ) : 1 + r.below( ( n - i ) / 2 ); if( q > 0xFFFFFFFFull ) q = 0x40000000ull + r.below( 0x40000000ull ), k -= 1; two->update( p + i, q ); i += q; d += " " + std::to_string( q ); if( i == n ) break; }
    bytes x = one->result(), y = two->result(); lg().distinct( fpv( n, fp( a.name ) ) ); lg().count( "bytes in large updates", n );
    if( x != y ) lg().violation( std::string( "large update " ) + a.name, std::string( a.name ) + c.str() + ": one update of " + std::to_string( n ) + " bytes gives " + hex( x ) + ", the same in parts of" + d + " gives " + hex( y ) );
}
static void larges( int part, int parts )
{
    std::size_t const per = ( 5u << 20 ) + 4096 * 7; u64 const total = ( ( 1ull << 32 ) / per + 2 ) * per; Rng r( seed() * 104743 + part );
    int fd = memfd_create( "m", 0 ); if( fd < 0 || ftruncate( fd, per ) ) std::exit( 3 ); u8* b = (u8*)mmap( nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ); if( b == MAP_FAILED ) std::exit( 3 );
    for( u64 i = 0; i + per <= total; i += per ) if( mmap( b + i, per, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0 ) == MAP_FAILED ) std::exit( 3 );
    r.fill( b, per ); int idx = 0;
    for( Alg const& a: all_algs() )
    {
        if( idx++ % parts != part ) continue;
        large( a, b + r.below( 100 ), ( 128u << 20 ) + r.below( 9 << 20 ), r, 3 ); large( a, b + r.below( 100 ), ( 1ull << 32 ) + 1 + r.below( 5000 ), r, 2 );
    }
    munmap( b, total );
}

int main( int argc, char** argv )
{
    if( argc > 3 ){ larges( std::atoi( argv[1] ), std::atoi( argv[2] ) ); return lg().finish(); }
    int part = argc > 1 ? std::atoi( argv[1] ) : 0, parts = argc > 2 ? std::atoi( argv[2] ) : 1, idx = 0;
    u64 const sc = scale();
    for( Alg const& a: all_algs() )
    {
        if( idx++ % parts != part ) continue;
        Rng r( seed() * 7919 + idx );
        std::size_t const B = a.block;
        // every two-way split of every length up to two blocks and a bit
        for( std::size_t n = 0; n <= 2 * B + 9; ++n )
        {
            Base b = baseline( a, n % 3 ? Ctor() : gen_ctor( r, B ), { gen_msg( r, n ) } );
            for( std::size_t i = 0; i <= n; ++i ) check( a, b, { { i, n - i } }, r, (int)( ( n + i ) & 1 ) );
            check( a, b, { std::vector<std::size_t>( n, 1 ) }, r, 0 ); check( a, b, { std::vector<std::size_t>( n, 1 ) }, r, 1 );
        }
        // three-way splits with each piece near a block boundary
        for( std::size_t n: { 2 * B, 3 * B, 3 * B + 1, 4 * B - 1 } )
        {
            Base b = baseline( a, gen_ctor( r, B ), { r.buf( n ) } );
            std::vector<std::size_t> near; for( std::size_t k = 0; k * B <= n; ++k ) for( int d = -2; d <= 2; ++d ){ long v = (long)( k * B ) + d; if( v >= 0 && v <= (long)n ) near.push_back( (std::size_t)v ); }
            for( std::size_t x: near ) for( std::size_t y: near ) if( x <= y ) check( a, b, { { x, y - x, n - y } }, r, 2 );
        }
        // random splits, several segments separated by result() calls
        for( u64 k = 0; k < 1500 * sc; ++k )
        {
            std::vector<bytes> seg; std::size_t ns = 1 + r.below( 3 );
            for( std::size_t i = 0; i < ns; ++i ) seg.push_back( gen_msg( r, gen_len( r, B, 1500 ) ) );
            Base b = baseline( a, gen_ctor( r, B ), seg );
            for( int t = 0; t < 4; ++t ){ std::vector<std::vector<std::size_t>> cuts; for( auto& s: seg ) cuts.push_back( random_cut( a, s.size(), r ) ); check( a, b, cuts, r, 2 ); }
        }
        // large messages, large pieces
        for( u64 k = 0; k < 6 * sc; ++k )
        {
            std::size_t n = 60000 + r.below( 20000 ); if( k == 0 ) n = ( 1u << 20 ) + r.below( 5000 );
            Base b = baseline( a, gen_ctor( r, B ), { r.buf( n ) } );
            for( int t = 0; t < 3; ++t )
            {
                std::vector<std::size_t> c; std::size_t i = 0; while( i < n ){ std::size_t q = 1 + r.below( t == 0 ? 70000 : t == 1 ? 5000 : 40 * B ); if( q > n - i ) q = n - i; c.push_back( q ); i += q; }
                check( a, b, { c }, r, 2 );
            }
        }
        lg().count( std::string( "algorithm " ) + a.name );
        lg().sample( std::string( a.name ) + ": all 2-way splits of lengths 0.." + std::to_string( 2 * B + 9 ) );
    }
    return lg().finish();
}
