// C03, user algorithms: hmac<H> for conforming algorithms with blocks and results of any size. The algorithm keeps the whole
// message and its result is a fixed function of it, so RFC 2104's formula can be evaluated directly.
#include "common.hpp"
#include "algs.hpp"
#include <array>
using namespace vf;

static bytes digest_of( bytes const& m, std::size_t n )
{
    bytes r; u64 f = fp( m.data(), m.size(), 0x1234 + n ); for( std::size_t i = 0; i < n; ++i ){ if( i % 8 == 0 ) f = fpv( i, f * 0x9E3779B97F4A7C15ull + m.size() ); r.push_back( (u8)( f >> 8 * ( i % 8 ) ) ); } return r;
}
template<int B, class R> struct User
{
    typedef R result_type; static constexpr int block_size = B; bytes log;
    User(){} explicit User( std::uint64_t ){ std::abort(); } User( unsigned char const*, std::size_t ){ std::abort(); }   // RFC 2104 needs the plain function only
    void update( void const* p, std::size_t n ){ u8 const* q = (u8 const*)p; log.insert( log.end(), q, q + n ); }
    R result(){ R r; bytes d = digest_of( log, r.size() ); for( std::size_t i = 0; i < d.size(); ++i ) r[i] = d[i]; log.push_back( 0x80 ); return r; }
};
template<int B, class R> constexpr int User<B, R>::block_size;

template<class H> static void one( char const* name, std::size_t B, std::size_t N, bytes (*f)( bytes const&, std::size_t ), bytes const& key, bool seeded, u64 seed_, bytes const& m, Rng& r )
{
    bytes k = seeded ? ( seed_ ? le8( seed_ ) : bytes() ) : key; bytes kk = k.size() > B ? f( k, N ) : k; kk.resize( B, 0 );
    bytes in( B ), out( B ); for( std::size_t i = 0; i < B; ++i ){ in[i] = kk[i] ^ 0x36; out[i] = kk[i] ^ 0x5c; } in.insert( in.end(), m.begin(), m.end() ); bytes x = f( in, N ); out.insert( out.end(), x.begin(), x.end() ); bytes want = f( out, N );
    std::unique_ptr<H> o( seeded ? new H( seed_ ) : key.empty() && r.chance( 1, 2 ) ? new H() : new H( key.data(), key.size() ) );
    std::size_t i = 0; bool split = r.chance( 1, 2 ); while( i < m.size() ){ std::size_t n = split ? 1 + r.below( m.size() - i ) : m.size(); if( r.chance( 1, 2 ) ) o->update( (void const*)&m[i], n ); else o->update( &m[i], n ); i += n; if( r.chance( 1, 8 ) ){ std::unique_ptr<H> c( new H( *o ) ); o.swap( c ); } }
    auto g = o->result(); bytes got( g.begin(), g.end() ); lg().distinct( fp( m.data(), m.size(), fp( k.data(), k.size(), fp( name ) ) ) );
    if( got != want ) lg().violation( std::string( "hmac-user " ) + name, std::string( "HMAC over " ) + name + ( seeded ? " seed " + std::to_string( seed_ ) : " key[" + std::to_string( k.size() ) + "]=" + hex( k, 100 ) ) + " msg[" + std::to_string( m.size() ) + "]=" + hex( m, 60 ) + " got " + hex( got, 80 ) + " expected " + hex( want, 80 ) );
}
template<class H> static void sweep( char const* name, std::size_t B, std::size_t N, bytes (*f)( bytes const&, std::size_t ), Rng& r )
{
    std::vector<std::size_t> ks; std::size_t const full = B <= 300 ? 3 * B + 4 : 0; for( std::size_t k = 0; k <= full; ++k ) ks.push_back( k );
    for( std::size_t k: { std::size_t( 0 ), std::size_t( 1 ), B / 2, B - 1, B, B + 1, B + N, 2 * B, 2 * B + 1, B + 256, B + 65536, std::size_t( 255 ), std::size_t( 256 ), std::size_t( 257 ) } ) ks.push_back( k );
    for( std::size_t k: ks ){ one<H>( name, B, N, f, r.buf( k ), false, 0, r.buf( r.below( 2 * B + 30 ) ), r ); one<H>( name, B, N, f, bytes( k, 0 ), false, 0, r.buf( 9 ), r ); one<H>( name, B, N, f, bytes( k, 0x36 ), false, 0, bytes(), r ); }
    for( int i = 0; i < 80; ++i ) one<H>( name, B, N, f, bytes(), true, i < 64 ? 1ull << i : i == 64 ? 0 : r.next(), r.buf( r.below( 100 ) ), r );
    lg().count( std::string( "user algorithm " ) + name );
}
static bytes hmac256( bytes const& m, std::size_t ){ return ref::hmac( ref::SHA256, bytes(), m ); }

int main()
{
    Rng r( seed() * 198491317 );
    for( u64 k = 0; k < scale(); ++k )
    {
#define D( B, N ) sweep<h2::hmac<User<B, h2::digest<N>>>>( "user algorithm of block " #B ", digest of " #N, B, N, digest_of, r );
#define A( B, N ) sweep<h2::hmac<User<B, std::array<unsigned char, N>>>>( "user algorithm of block " #B ", array of " #N, B, N, digest_of, r );
        // an integer seed is eight bytes: with blocks below that it is longer than the block
        A( 1, 1 ) D( 2, 1 ) A( 7, 7 ) D( 8, 8 ) A( 16, 4 ) D( 24, 16 ) D( 31, 31 ) A( 32, 32 ) D( 63, 20 ) D( 64, 64 ) A( 65, 33 ) D( 72, 64 ) D( 100, 3 ) D( 104, 48 ) D( 127, 100 ) D( 128, 128 ) A( 129, 65 ) D( 136, 32 ) D( 144, 28 ) A( 200, 150 ) D( 255, 9 ) D( 256, 256 ) A( 257, 1 ) D( 300, 300 ) D( 512, 72 ) A( 1000, 64 ) D( 4096, 32 ) A( 65537, 257 )
        sweep<h2::hmac<h2::hmac_sha2_256>>( "hmac_sha2_256", 64, 32, hmac256, r );
    }
    lg().sample( "blocks of 1 to 65537 bytes, results up to the block size, every key length to three blocks" );
    return lg().finish();
}
