// C01: every documented digest/checksum/keyed hash equals its published specification for every message.
#include "algs.hpp"
using namespace vf;
typedef std::unique_ptr<Obj> P;

static void one( Alg const& a, Ctor const& c, bytes const& m, Rng& r, bool chunks )
{
    ref::ModelP md = make_model( a, c ); md->update( m ); bytes want = md->result();
    // message placed at a random alignment, fed whole or in parts through either overload
    std::size_t off = r.below( 64 ); bytes buf( off + m.size() + 1, 0xA5 ); if( !m.empty() ) std::memcpy( &buf[ off ], m.data(), m.size() );
    u8 const* p = &buf[ off ];
    for( int ov = 0; ov < 2; ++ov )
    {
        P o( a.make( c ) ); std::string how;
        if( !chunks ){ if( ov ) o->update_uc( p, m.size() ); else o->update( p, m.size() ); how = "whole"; }
        else
        {
            std::size_t i = 0; how = "chunks";
            while( i < m.size() ){ std::size_t k = 1 + gen_len( r, a.block, m.size() - i - 1 ); if( ov ) o->update_uc( p + i, k ); else o->update( p + i, k ); i += k; how += " " + std::to_string( k ); if( how.size() > 200 ) how.resize( 200 ); }
        }
        bytes got = o->result();
        u64 f = fp( m.data(), m.size(), fp( std::string( a.name ) + c.str() + ( ov ? "u" : "v" ) ) );
        lg().distinct( f );
        if( got != want )
            lg().violation( std::string( "conformance " ) + a.name, std::string( a.name ) + c.str() + " len=" + std::to_string( m.size() ) + " msg=" + hex( m, 200 ) + " fed " + how + ( ov ? " (uchar overload)" : " (void overload)" ) + " got " + hex( got ) + " expected " + hex( want ) );
        if( got.size() != a.out ) lg().violation( std::string( "size " ) + a.name, std::string( a.name ) + " result size " + std::to_string( got.size() ) );
    }
}

// the parameters the published algorithm itself takes (key / seed)
static std::vector<Ctor> params( Alg const& a, Rng& r )
{
    std::vector<Ctor> v( 1 );
    Ctor s; s.k = Ctor::SEED; Ctor b; b.k = Ctor::BYTES;
    switch( a.kind )
    {
    case K_XXH32: s.seed = (u32)r.next(); v.push_back( s ); s.seed = 0xFFFFFFFFu; v.push_back( s ); break;
    case K_XXH64: s.seed = r.next(); v.push_back( s ); s.seed = ~0ull; v.push_back( s ); break;
    case K_SIP32: b.b = r.buf( 8 ); v.push_back( b ); b.b = bytes( 8, 0xFF ); v.push_back( b ); break;
    case K_SIP64: b.b = r.buf( 16 ); v.push_back( b ); b.b = bytes( 16, 0xFF ); v.push_back( b ); break;
    default:;
    }
    return v;
}

int main( int argc, char** argv )
{
    int part = argc > 1 ? std::atoi( argv[1] ) : 0, parts = argc > 2 ? std::atoi( argv[2] ) : 1, idx = 0;
    u64 const sc = scale();
    for( Alg const& a: plain_algs() )
    {
        if( idx++ % parts != part ) continue;
        Rng r( seed() * 1000003 + idx );
        std::size_t const full = thorough() ? 4200 : 1100;
        for( std::size_t n = 0; n <= full; ++n )
        {
            for( Ctor const& c: params( a, r ) ) one( a, c, r.buf( n ), r, false );
            one( a, params( a, r ).back(), gen_msg( r, n ), r, true );
        }
        // all-equal-byte messages over two blocks: every length x several bytes
        for( std::size_t n = 0; n <= 2 * a.block + 20; ++n ) for( u8 c: { 0x00, 0xFF, 0x80, 0x7F, 0x01 } ) one( a, Ctor(), bytes( n, c ), r, false );
        // every single bit set, in one and a bit blocks
        for( std::size_t n: { a.block - 1, a.block, a.block + a.block / 2 + 1 } ) for( std::size_t b = 0; b < 8 * n; ++b ){ bytes m( n ); m[ b / 8 ] = (u8)( 1u << b % 8 ); one( a, Ctor(), m, r, false ); }
        for( u64 k = 0; k < 600 * sc; ++k ) { std::size_t n = gen_len( r, a.block, 9000 ); one( a, r.pick( params( a, r ) ), gen_msg( r, n ), r, r.chance( 1, 2 ) ); }
        // lengths at which length counters carry
        std::vector<std::size_t> big = { 4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 65535, 65536, 65537, 131072 + 55, 262144 + 111, 1048576 - 1, 1048576 + 9 + r.below( 64 ) };
        if( part >= 0 ) { big.push_back( ( 1u << 21 ) - 1 ); big.push_back( ( 1u << 21 ) + r.below( 200 ) ); big.push_back( ( 1u << 24 ) + r.below( 200 ) ); }
        if( thorough() ) for( int e = 13; e < 27; ++e ) big.push_back( ( std::size_t( 1 ) << e ) + r.below( 130 ) - 64 );
        for( std::size_t n: big ) one( a, params( a, r ).back(), r.buf( n ), r, r.chance( 1, 2 ) );
        // chained digests (Monte Carlo style): outputs feed back as messages
        bytes m = r.buf( 40 );
        for( u64 k = 0; k < 2000 * sc; ++k )
        {
            P o( a.make( Ctor() ) ); o->update( m.data(), m.size() ); bytes g = o->result(); bytes w = published( a, m ); lg().eval();
            if( g != w ){ lg().violation( std::string( "conformance-chain " ) + a.name, std::string( a.name ) + " step " + std::to_string( k ) + " msg=" + hex( m, 200 ) + " got " + hex( g ) + " expected " + hex( w ) ); break; }
            m.insert( m.end(), w.begin(), w.end() ); if( m.size() > 300 ) m.erase( m.begin(), m.begin() + 130 + r.below( 140 ) );
        }
        lg().count( std::string( "algorithm " ) + a.name );
        bytes e = published( a, bytes( 3, 'a' ) ); lg().sample( std::string( a.name ) + "(\"aaa\") = " + hex( e ) + ", lengths 0.." + std::to_string( full ) + " exhaustively" );
    }
    return lg().finish();
}
