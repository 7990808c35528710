// C05: seeding. Zero / empty seeds equal default construction, documented seed semantics, and different
// seeds give differently initialized objects.
#include "algs.hpp"
#include <unordered_map>
using namespace vf;
typedef std::unique_ptr<Obj> P;

static bytes probe( Obj& o, bytes const& m ) // enough output to tell two states apart
{
    o.update( m.data(), m.size() ); bytes r;
    while( r.size() < 24 ){ bytes x = o.result(); r.insert( r.end(), x.begin(), x.end() ); }
    return r;
}
static void bad( std::string const& k, Alg const& a, std::string const& m ){ lg().violation( k + " " + a.name, std::string( a.name ) + ": " + m ); }

// the class of the listed finding: both high halves nonzero and lo + hi * P2 equal modulo 2^32
static bool xxh_class( Alg const& a, u64 x, u64 y ){ u32 const P2 = 2246822519u; return a.kind == K_XXH32 && ( x >> 32 ) && ( y >> 32 ) && (u32)( (u32)x + (u32)( x >> 32 ) * P2 ) == (u32)( (u32)y + (u32)( y >> 32 ) * P2 ); }

int main( int argc, char** argv )
{
    int part = argc > 1 ? std::atoi( argv[1] ) : 0, parts = argc > 2 ? std::atoi( argv[2] ) : 1, idx = 0; u64 const sc = scale();
    for( Alg const& a: all_algs() )
    {
        if( idx++ % parts != part ) continue;
        Rng r( seed() * 15485863 + idx ); std::size_t const B = a.block;
        // --- zero / empty seed is default construction, at every later point of the history
        for( u64 k = 0; k < 60 * sc; ++k )
        {
            bytes m = gen_msg( r, gen_any( r, B, 600 ) ), d; u8 junk[4] = { 1, 2, 3, 4 };
            { P o( a.mk_def() ); d = probe( *o, m ); }
            { P o( a.mk_seed( 0 ) ); if( probe( *o, m ) != d ) bad( "zero-seed", a, "seed 0 differs from default construction, msg=" + hex( m ) ); }
            { P o( a.mk_bytes( junk + 1, 0 ) ); if( probe( *o, m ) != d ) bad( "empty-seed", a, "empty byte seed differs from default construction, msg=" + hex( m ) ); }
            { P o( a.mk_bytes( nullptr, 0 ) ); if( probe( *o, m ) != d ) bad( "empty-seed", a, "null byte seed differs from default construction, msg=" + hex( m ) ); }
            lg().distinct( fp( m.data(), m.size(), fp( a.name ) ) );
        }
        // --- documented effect of the seed
        if( !a.legacy() )
        {
            auto doc = [&]( Ctor const& c )
            {
                bytes m = gen_msg( r, gen_any( r, B, 300, 24 ) ); P o( a.make( c ) ); ref::ModelP md = make_model( a, c ); lg().distinct( fp( a.name + c.str() ) );
                o->update( m.data(), m.size() ); md->update( m );
                for( int i = 0; i < 2; ++i ){ bytes g = o->result(), w = md->result(); if( g != w ){ bad( "seed-effect", a, c.str() + " msg=" + hex( m ) + " result #" + std::to_string( i ) + " got " + hex( g ) + " expected " + hex( w ) ); break; } }
                // the same, spelled with the library's own operations
                if( a.kind == K_MD && ( c.k == Ctor::BYTES || c.seed ) )
                {
                    bytes sb = c.k == Ctor::BYTES ? c.b : le8( c.seed ); P x( a.make( c ) ), y( a.mk_def() );
                    if( !sb.empty() ){ y->update( sb.data(), sb.size() ); y->result(); }
                    if( probe( *x, m ) != probe( *y, m ) ) bad( "seed-as-update", a, c.str() + " differs from default construction, update(seed), result()" );
                }
            };
            Ctor c; c.k = Ctor::SEED; for( int i = 0; i < 64; ++i ){ c.seed = 1ull << i; doc( c ); c.seed = ~0ull << i; doc( c ); }
            for( u64 i = 0; i < 300 * sc; ++i ){ c.seed = r.next() >> ( i % 64 ); doc( c ); }
            c = Ctor(); c.k = Ctor::BYTES; for( std::size_t n = 0; n <= 3 * B + 40; ++n ){ c.b = r.buf( n ); doc( c ); c.b = gen_msg( r, n ); doc( c ); }
            for( std::size_t n: { 1000, 4096, 70001 } ){ c.b = r.buf( n ); doc( c ); }
        }
        else
        {
            // integer seeds of the legacy algorithms are the published seeds (a 64 bit seed of a 32 bit algorithm: low half)
            for( u64 i = 0; i < 300 * sc; ++i )
            {
                u64 s = r.next() >> ( i % 64 ); if( a.kind == K_MM32 ) s &= 0xFFFFFFFF; bytes m = gen_msg( r, gen_any( r, B, 700 ) ); P o( a.mk_seed( s ) ); o->update( m.data(), m.size() );
                bytes g = o->result(), w = a.kind == K_MM32 ? ref::murmur32( (u32)s, m ) : a.kind == K_MM128 ? ref::murmur128( s, s, m ) : ref::spooky128( s, 0, m ); lg().distinct( fpv( s, fp( a.name ) ) );
                if( g != w ) bad( "seed-effect", a, "seed " + std::to_string( s ) + " msg=" + hex( m ) + " got " + hex( g ) + " expected " + hex( w ) );
            }
        }
        // --- distinct integer seeds, distinct states (algorithms whose state can hold 64 bits of seed)
        if( a.kind != K_FNV32 && a.kind != K_MM32 )
        {
            std::vector<u64> ss; ss.push_back( 0 );
            for( int i = 0; i < 64; ++i ){ ss.push_back( 1ull << i ); for( int j = 0; j < i; ++j ){ ss.push_back( 1ull << i | 1ull << j ); } ss.push_back( ~( 1ull << i ) ); }
            for( u64 i = 1; i < 600; ++i ){ ss.push_back( i ); ss.push_back( i << 32 ); ss.push_back( i << 32 | i ); ss.push_back( ~i ); ss.push_back( i * 0x0101010101010101ull ); ss.push_back( i << 56 ); }
            for( u64 i = 0; i < 1000 * sc; ++i ) ss.push_back( r.next() );
            bytes m = r.buf( 3 + r.below( 60 ) ); std::unordered_map<std::string, u64> seen;
            for( u64 s: ss )
            {
                P o( a.mk_seed( s ) ); bytes p = probe( *o, m ); auto q = seen.emplace( std::string( p.begin(), p.end() ), s ); lg().eval();
                if( !q.second && q.first->second != s && xxh_class( a, q.first->second, s ) ){ lg().count( "xxhash_32 pairs in the listed finding's class" ); continue; }
                if( !q.second && q.first->second != s ) bad( "seed-collision", a, "seeds " + std::to_string( q.first->second ) + " and " + std::to_string( s ) + " are indistinguishable, msg=" + hex( m ) );
            }
            lg().count( "integer seeds compared pairwise", seen.size() );
        }
        if( a.kind == K_XXH32 )
        {
            // seeds whose 32 bit halves combine to the same word (structural weakness, see known_findings.json)
            u64 const pairs[][2] = { { 0x0000000185EBCA77ull, 0x0000000200000000ull }, { 0x0000000100000000ull, 0x000000027A143589ull } };
            for( auto& pr: pairs )
            {
                bytes m = r.buf( 40 ); P x( a.mk_seed( pr[0] ) ), y( a.mk_seed( pr[1] ) ); lg().eval();
                char k[96]; std::snprintf( k, sizeof k, "seed-collision xxhash_32 %016llx %016llx", (unsigned long long)pr[0], (unsigned long long)pr[1] );
                if( probe( *x, m ) == probe( *y, m ) ) lg().violation( k, "xxhash_32: two distinct seeds give indistinguishable objects" );
            }
        }
        // --- distinct byte seeds, distinct states
        {
            std::vector<bytes> ss; std::size_t const L = 2 * B + 40 < 300 ? 2 * B + 40 : 300;
            for( std::size_t n = 1; n <= L; ++n ) for( u8 c: { 0x00, 0x01, 0x80, 0xFF } ) ss.push_back( bytes( n, c ) );
            bytes q = r.buf( L ); for( std::size_t n = 1; n <= L; ++n ) ss.push_back( bytes( q.begin(), q.begin() + n ) );                    // prefixes
            for( std::size_t n = 1; n <= L; n += 1 + n / 24 ) for( std::size_t i = 0; i < n; ++i ){ bytes x( q.begin(), q.begin() + n ); x[i] ^= (u8)( 1u << r.below( 8 ) ); ss.push_back( x ); } // one bit differs
            for( std::size_t n: { std::size_t( 1 ), std::size_t( 4 ), std::size_t( 8 ), std::size_t( 16 ), std::size_t( 17 ), B } ) for( std::size_t i = 0; i < n; ++i ) for( int b = 0; b < 8; ++b ){ bytes x( n ); x[i] = (u8)( 1u << b ); ss.push_back( x ); }
            for( u64 i = 0; i < 500 * sc; ++i ) ss.push_back( r.buf( 1 + r.below( L ) ) );
            bytes m = r.buf( 5 + r.below( 40 ) ); std::unordered_map<std::string, bytes> seen;
            for( bytes s: ss )
            {
                P o( a.mk_bytes( s.data(), s.size() ) ); bytes p = probe( *o, m );
                if( a.kind == K_FNV32 || a.kind == K_MM32 ){ lg().eval(); continue; }            // 32 bit state: collisions are possible by counting
                bytes canon = s;
                if( a.kind == K_HMAC ){ while( canon.size() <= B && !canon.empty() && canon.back() == 0 ) canon.pop_back(); if( s.size() > B ) canon = s; }  // RFC 2104 pads keys with zeros
                else if( a.legacy() ){ lg().eval(); continue; }          // the legacy algorithms promise nothing about arbitrary byte seeds
                auto e = seen.emplace( std::string( p.begin(), p.end() ), canon ); lg().distinct( fp( s.data(), s.size(), fp( a.name ) ) );
                if( !e.second && e.first->second != canon ) bad( "byte-seed-collision", a, "byte seeds " + hex( e.first->second, 300 ) + " and " + hex( s, 300 ) + " are indistinguishable" );
            }
            // no bit of a byte seed is ignored: seeds of one length that differ in one bit, told apart by at least one of several messages (all algorithms, narrow states included)
            std::vector<std::size_t> lens; for( std::size_t n = 1; n <= L; n += n < 40 ? 1 : 1 + n / 20 ) lens.push_back( n ); for( std::size_t n: { std::size_t( 256 ), std::size_t( 257 ), std::size_t( 1000 ), std::size_t( 4099 ), std::size_t( 66000 ) } ) lens.push_back( n );
            std::vector<bytes> ms; for( int i = 0; i < 6; ++i ) ms.push_back( r.buf( 1 + 7 * i + r.below( 30 ) ) );
            for( std::size_t n: lens )
            {
                bytes x = r.buf( n ); std::vector<bytes> base; for( auto const& y: ms ){ P o( a.mk_bytes( x.data(), n ) ); base.push_back( probe( *o, y ) ); }
                std::size_t tries = n <= 8 ? 8 * n : n <= 300 ? n + 8 : 24;
                for( std::size_t t = 0; t < tries; ++t ){ std::size_t bit = n <= 8 ? t : n <= 300 ? ( t % n ) * 8 + r.below( 8 ) : t < 8 ? t * ( n / 8 ) * 8 + r.below( 8 ) : r.below( 8 * n ); bytes y( x ); y[ bit / 8 ] ^= (u8)( 1u << bit % 8 ); bool told = false; for( std::size_t i = 0; i < ms.size() && !told; ++i ){ P o( a.mk_bytes( y.data(), n ) ); told = probe( *o, ms[i] ) != base[i]; } lg().eval(); if( !told ) bad( "seed-bit-ignored", a, "flipping bit " + std::to_string( bit ) + " of a byte seed of " + std::to_string( n ) + " bytes " + hex( x, 300 ) + " changes nothing" ); }
            }
            // a non-empty seed is not ignored (keys documented as all zero excepted)
            P d( a.mk_def() ); bytes dp = probe( *d, m ); auto f = seen.find( std::string( dp.begin(), dp.end() ) );
            if( f != seen.end() )
            {
                bytes const& s = f->second; bool zero = true; for( u8 c: s ) if( c ) zero = false;
                bool ok = s.empty() || ( zero && ( ( a.kind == K_SIP64 && s.size() == 16 ) || ( a.kind == K_SIP32 && s.size() == 8 ) ) );
                if( !ok ) bad( "byte-seed-ignored", a, "byte seed " + hex( s, 300 ) + " behaves like default construction" );
            }
            lg().count( "byte seeds compared pairwise", seen.size() );
        }
        lg().count( std::string( "algorithm " ) + a.name );
    }
    lg().sample( "single-bit, two-bit, complemented and small seeds in either half, pairwise distinct probe outputs (24+ bytes each)" );
    return lg().finish();
}
