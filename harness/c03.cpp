// C03: hmac<H> computes RFC 2104 HMAC for every key and message.
#include "algs.hpp"
using namespace vf;
typedef std::unique_ptr<Obj> P;

static void one( Alg const& a, bytes const& key, bytes const& m, Rng& r, char const* cls )
{
    bytes want = ref::hmac( a.md, key, m ); Ctor c; c.k = Ctor::BYTES; c.b = key;
    // the key lives in a buffer that is overwritten right after construction
    std::unique_ptr<u8[]> kb( new u8[ key.size() + 1 ] ); if( !key.empty() ) std::memcpy( kb.get(), key.data(), key.size() );
    P o( a.mk_bytes( kb.get(), key.size() ) ); std::memset( kb.get(), 0xEE, key.size() + 1 );
    std::size_t i = 0; bool split = r.chance( 1, 2 );
    while( i < m.size() ){ std::size_t k = split ? 1 + r.below( m.size() - i ) : m.size(); if( r.chance( 1, 2 ) ) o->update( &m[i], k ); else o->update_uc( &m[i], k ); i += k; }
    bytes got = o->result();
    lg().distinct( fp( m.data(), m.size(), fp( key.data(), key.size(), fp( a.name ) ) ) );
    if( got != want ) lg().violation( std::string( "hmac " ) + a.name, std::string( a.name ) + " " + cls + " key[" + std::to_string( key.size() ) + "]=" + hex( key, 300 ) + " msg[" + std::to_string( m.size() ) + "]=" + hex( m, 100 ) + " got " + hex( got ) + " expected " + hex( want ) );
}

int main( int argc, char** argv )
{
    int part = argc > 1 ? std::atoi( argv[1] ) : 0, parts = argc > 2 ? std::atoi( argv[2] ) : 1, idx = 0; u64 const sc = scale();
    for( Alg const& a: hmac_algs() )
    {
        if( idx++ % parts != part ) continue;
        Rng r( seed() * 104729 + idx ); std::size_t const B = a.block;
        for( std::size_t kl = 0; kl <= 4 * B + 4; ++kl )
        {
            one( a, r.buf( kl ), r.buf( r.below( 3 * B ) ), r, "random" ); one( a, r.buf( kl ), bytes(), r, "empty message" ); one( a, gen_msg( r, kl ), gen_msg( r, gen_len( r, B, 700 ) ), r, "structured" );
            one( a, bytes( kl, 0 ), r.buf( 20 ), r, "zero key" ); one( a, bytes( kl, 0x36 ), r.buf( 20 ), r, "ipad key" ); one( a, bytes( kl, 0x5c ), r.buf( 20 ), r, "opad key" ); one( a, bytes( kl, 0xFF ), r.buf( 9 ), r, "ff key" );
        }
        for( std::size_t ml = 0; ml <= 4 * B + 4; ++ml ){ std::size_t kl = r.below( B + 1 ), k2 = B + 1 + r.below( 2 * B ); one( a, r.buf( kl ), r.buf( ml ), r, "short key" ); one( a, r.buf( k2 ), r.buf( ml ), r, "long key" ); one( a, r.buf( B ), r.buf( ml ), r, "block key" ); }
        for( u64 k = 0; k < 1500 * sc; ++k ) one( a, gen_msg( r, gen_any( r, B, 600 ) ), gen_msg( r, gen_any( r, B, 3000, 16, 40000 ) ), r, "random" );
        one( a, r.buf( 70000 + r.below( 100 ) ), r.buf( 300 ), r, "huge key" ); one( a, r.buf( 30 ), r.buf( 1200000 + r.below( 100 ) ), r, "huge message" );
        // default construction and integer seeds denote the empty key and the 8 little-endian bytes of the seed
        for( u64 k = 0; k < 200 * sc; ++k )
        {
            bytes m = r.buf( gen_len( r, B, 500 ) ); u64 s = k < 64 ? 1ull << k : k == 64 ? 0 : k == 65 ? ~0ull : r.next();
            P o( a.mk_seed( s ) ); o->update( m.data(), m.size() ); bytes g = o->result(), w = ref::hmac( a.md, s ? le8( s ) : bytes(), m ); lg().distinct( fpv( s, fp( a.name ) ) );
            if( g != w ) lg().violation( std::string( "hmac-seed " ) + a.name, std::string( a.name ) + "(seed=" + std::to_string( s ) + ") msg=" + hex( m ) + " got " + hex( g ) + " expected " + hex( w ) );
            P d( a.mk_def() ); d->update_uc( m.data(), m.size() ); g = d->result(); w = ref::hmac( a.md, bytes(), m ); lg().eval();
            if( g != w ) lg().violation( std::string( "hmac-default " ) + a.name, std::string( a.name ) + "() msg=" + hex( m ) + " got " + hex( g ) + " expected " + hex( w ) );
        }
        lg().count( std::string( "algorithm " ) + a.name ); lg().sample( std::string( a.name ) + ": every key length 0.." + std::to_string( 4 * B + 4 ) + ", every message length 0.." + std::to_string( 4 * B + 4 ) );
    }
    return lg().finish();
}
