// C04: messages beyond the 2^29, 2^31, 2^32 byte marks, including one update call longer than 2^32 bytes.
// The message is a virtual range backed by a small memory file mapped over and over (its period does not
// divide 2^32). Oracle: OpenSSL where it has the digest, the streaming/one-shot references elsewhere.
#include "algs.hpp"
#include <openssl/evp.h>
#include <sys/mman.h>
#include <unistd.h>
using namespace vf;
typedef std::unique_ptr<Obj> P;

static u8* map_message( std::size_t total, u64 sd )
{
    std::size_t const period = ( 1u << 20 ) + 4096;
    int fd = memfd_create( "msg", 0 ); if( fd < 0 || ftruncate( fd, period ) ){ std::perror( "memfd" ); std::exit( 3 ); }
    std::size_t const n = ( total / period + 1 ) * period;
    u8* base = (u8*)mmap( nullptr, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ); if( base == MAP_FAILED ){ std::perror( "mmap" ); std::exit( 3 ); }
    u8* w = (u8*)mmap( nullptr, period, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 ); if( w == MAP_FAILED ){ std::perror( "mmap" ); std::exit( 3 ); }
    Rng r( sd ); r.fill( w, period ); munmap( w, period );
    for( std::size_t i = 0; i < n; i += period ) if( mmap( base + i, period, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0 ) == MAP_FAILED ){ std::perror( "mmap fixed" ); std::exit( 3 ); }
    return base;
}

static EVP_MD const* ossl( ref::Md m )
{
    switch( m ){ case ref::MD5: return EVP_md5(); case ref::SHA1: return EVP_sha1(); case ref::SHA224: return EVP_sha224(); case ref::SHA256: return EVP_sha256(); case ref::SHA384: return EVP_sha384(); case ref::SHA512: return EVP_sha512();
    case ref::SHA512_224: return EVP_sha512_224(); case ref::SHA512_256: return EVP_sha512_256(); case ref::RMD160: return EVP_ripemd160(); default: return nullptr; }
}
struct Oracle // of one growing message, asked at several lengths
{
    Alg const& a; u8 const* base; u64 n = 0; EVP_MD_CTX* c = nullptr; std::unique_ptr<ref::MdStream> st; ref::ModelP m;
    Oracle( Alg const& a_, u8 const* b ): a( a_ ), base( b )
    {
        if( a.kind == K_MD || a.kind == K_HMAC )
        {
            EVP_MD const* md = ossl( a.md ); bytes head( a.kind == K_HMAC ? ref::info( a.md ).block : 0, 0x36 );
            if( md ){ c = EVP_MD_CTX_new(); if( !EVP_DigestInit_ex( c, md, nullptr ) ){ EVP_MD_CTX_free( c ); c = nullptr; } }
            if( c ) EVP_DigestUpdate( c, head.data(), head.size() ); else { st.reset( new ref::MdStream( a.md ) ); st->update( head.data(), head.size() ); }
        }
        else if( !a.legacy() ) m = make_model( a, Ctor() );
    }
    ~Oracle(){ if( c ) EVP_MD_CTX_free( c ); }
    void extend( u64 k ){ if( c ) EVP_DigestUpdate( c, base + n, k ); else if( st ) st->update( base + n, k ); else if( m ) m->update( base + n, k ); n += k; }
    // result() on the library object makes it continue after the padding (digests) or follow the model's state machine; not for HMAC and the legacy hashes
    bool can_finish() const { return a.kind == K_MD || m; }
    bytes finish()
    {
        if( m ) return m->result();
        bytes r = value(); std::size_t const B = a.block, L = B == 128 ? 16 : 8; bytes pad( 1, 0x80 ); while( ( n + virt + pad.size() + L ) % B ) pad.push_back( 0 );
        u64 bits = ( n + virt ) * 8; for( std::size_t i = 0; i < L; ++i ) pad.push_back( le() ? ( i < 8 ? (u8)( bits >> ( 8 * i ) ) : 0 ) : ( i < L - 8 ? 0 : (u8)( bits >> ( 8 * ( L - 1 - i ) ) ) ) );
        if( c ) EVP_DigestUpdate( c, pad.data(), pad.size() ); else st->update( pad.data(), pad.size() );
        virt += pad.size(); return r;
    }
    u64 virt = 0; bool le() const { return a.md == ref::MD5 || a.md == ref::RMD128 || a.md == ref::RMD160; }
    bytes value() const
    {
        bytes r;
        if( c ){ EVP_MD_CTX* d = EVP_MD_CTX_new(); EVP_MD_CTX_copy_ex( d, c ); r.resize( 64 ); unsigned k = 0; EVP_DigestFinal_ex( d, r.data(), &k ); EVP_MD_CTX_free( d ); r.resize( k ); }
        else if( st ) r = st->finish();
        else if( m ) return m->clone()->result();
        else { ref::Span s{ base, (std::size_t)n }; return a.kind == K_MM32 ? ref::murmur32( 0, s ) : a.kind == K_MM128 ? ref::murmur128( 0, 0, s ) : ref::spooky128( 0, 0, s ); }
        if( a.kind == K_HMAC ){ bytes o( ref::info( a.md ).block, 0x5c ); o.insert( o.end(), r.begin(), r.end() ); r = ref::md( a.md, o ); }
        return r;
    }
};

// keys of more than 2^32 bytes: what the documentation says the key does, with the model fed the key; the legacy hashes
// promise only that no byte of it is ignored
static void huge_key( Alg const& a )
{
    Rng r( seed() * 49979687 + fp( a.name ) ); u64 const n = ( 1ull << 32 ) + r.below( 2 * a.block + 20 ); u8* key = map_message( n + 4096, r.next() ); bytes m = r.buf( r.below( 300 ) );
    auto ask = [&]( Obj& o ){ o.update( m.data(), m.size() ); bytes x = o.result(), y = o.result(); x.insert( x.end(), y.begin(), y.end() ); return x; };
    P o( a.mk_bytes( key, n ) ); bytes got = ask( *o ); lg().distinct( fpv( n, fp( a.name ) ) ); lg().count( "bytes of key", n );
    auto bad = [&]( std::string const& w ){ lg().violation( std::string( "huge-key " ) + a.name, std::string( a.name ) + ": keyed with " + std::to_string( n ) + " bytes, msg=" + hex( m, 300 ) + ": " + w ); };
    if( a.legacy() )
    {
        std::size_t const k = (std::size_t)( n & 0xFFFFFFFFu ); { P s( a.mk_bytes( key, k ) ); if( ask( *s ) == got ) bad( "the same as keyed with the first " + std::to_string( k ) ); }
        { P s( a.mk_bytes( key, n - 1 ) ); if( ask( *s ) == got ) bad( "the same as with one byte less" ); } { P s( a.mk_bytes( key + 1, n ) ); if( ask( *s ) == got ) bad( "the same as with another key" ); }
    }
    else if( a.kind == K_HMAC )
    {
        bytes d; if( EVP_MD const* md = ossl( a.md ) ){ EVP_MD_CTX* c = EVP_MD_CTX_new(); if( EVP_DigestInit_ex( c, md, nullptr ) ){ EVP_DigestUpdate( c, key, n ); unsigned k = 0; d.resize( 64 ); EVP_DigestFinal_ex( c, d.data(), &k ); d.resize( k ); } EVP_MD_CTX_free( c ); }
        if( d.empty() ){ ref::MdStream st( a.md ); st.update( key, n ); d = st.finish(); }
        Ctor c; c.k = Ctor::BYTES; c.b = d; ref::ModelP md = make_model( a, c ); md->update( m ); bytes x = md->result(), y = md->result(); x.insert( x.end(), y.begin(), y.end() );
        if( x != got ) bad( "got " + hex( got ) + " expected " + hex( x ) );
    }
    else
    {
        Oracle q( a, key ); q.extend( n ); if( a.kind != K_FNV32 && a.kind != K_FNV64 ) q.finish();
        // the rest of the history, on the model or on the digest's stream
        bytes x, y; if( q.m ){ q.m->update( m ); x = q.m->result(); y = q.m->result(); }
        else { std::vector<u8> t( m ); q.base = t.data() - q.n;   // Oracle reads at base + n
 q.extend( t.size() ); x = q.finish(); y = q.finish(); }
        x.insert( x.end(), y.begin(), y.end() ); if( x != got ) bad( "got " + hex( got ) + " expected " + hex( x ) );
    }
    lg().sample( std::string( a.name ) + " keyed with " + std::to_string( n ) + " bytes" ); munmap( key, n + 4096 );
}

// one update call of more than 2^32 blocks
static void huge_blocks( Alg const& a )
{
    Rng r( seed() * 67867967 + fp( a.name ) ); u64 const n = ( (u64)a.block << 32 ) + 2 * a.block + r.below( 3 * a.block ), pre = r.below( a.block ); u8* msg = map_message( n + 4096, r.next() ); P o( a.mk_def() ); Oracle q( a, msg );
    o->update( msg, pre ); o->update( msg + pre, n ); q.extend( pre + n ); bytes g = o->result(), w = q.value(); lg().distinct( fpv( n, fp( a.name ) ) ); lg().count( "bytes hashed", pre + n );
    if( g != w ) lg().violation( std::string( "huge-blocks " ) + a.name, std::string( a.name ) + ": one update of " + std::to_string( n ) + " bytes (more than 2^32 blocks) after " + std::to_string( pre ) + ": got " + hex( g ) + " expected " + hex( w ) );
    lg().sample( std::string( a.name ) + ": one update call of " + std::to_string( n ) + " bytes" ); munmap( msg, n + 4096 );
}

int main( int argc, char** argv )
{
    std::string only = argc > 1 ? argv[1] : ""; std::string const mode = argc > 2 ? argv[2] : ""; bool const keys = mode == "keys";
    for( Alg const& a: all_algs() )
    {
        if( mode == "blocks" ){ if( only == a.name ) huge_blocks( a ); continue; }
        if( keys ){ if( only.empty() || only == a.name ) huge_key( a ); continue; }
        if( !only.empty() && only != a.name ) continue;
        Rng r( seed() * 32452843 + fp( a.name ) );
        struct Step { u64 n; bool check; };
        // a few pending bytes; one call of more than 2^32 bytes that ends just past the mark (the counters modulo 2^32 are then as small
        // as those of a short message); every length for a while after it; one call that crosses 2^31
        bool const slow = a.legacy();   // the oracle hashes the whole message again at every checkpoint
        auto tail = [&]( std::vector<Step>& p, u64 n ){ for( u64 i = 0; i < n; ++i ) p.push_back( { 1, !slow || i % 97 == 5 } ); };
        std::vector<std::vector<Step>> plans( 1 );
        plans[0] = { { 3, false }, { ( 1ull << 32 ) - 3 + r.below( 6 ), true } }; tail( plans[0], 2 * a.block + 60 );
        plans[0].push_back( { ( 1ull << 29 ) + 3 + r.below( 300 ), true } ); if( !slow ) plans[0].push_back( { r.below( 200 ), true } );
        if( plans[0][1].n <= ( 1ull << 32 ) ) plans[0][1].n = ( 1ull << 32 ) + 1;
        if( thorough() )
        {
            plans.push_back( { { 1 + r.below( 100 ), false }, { ( 1ull << 31 ) - 5, true }, { 30, true }, { ( 1ull << 31 ) + 77, true }, { ( 1ull << 31 ) - 50 - r.below( 90 ), true } } );
            plans.push_back( { { ( 1ull << 32 ) - r.below( 20 ) - 20, true }, { 60, true }, { ( 1ull << 32 ), true } } ); tail( plans.back(), 400 );
            plans.push_back( { { ( 1ull << 29 ) - 40 - r.below( 30 ), true } } ); tail( plans.back(), 300 ); plans.back().push_back( { ( 1ull << 31 ) - ( 1ull << 29 ) - 300, true } ); tail( plans.back(), 300 );
        }
        for( auto const& plan: plans )
        {
            u64 total = 0; for( Step s: plan ) total += s.n;
            u8* msg = map_message( total + 4096, r.next() ); P o( a.mk_def() ); u64 at = 0; Oracle orc( a, msg );
            for( Step s: plan )
            {
                o->update( msg + at, s.n ); at += s.n; orc.extend( s.n ); if( !s.check ) continue;
                P c( o->clone() ); bytes g = c->result(), w = orc.value(); lg().distinct( fpv( at, fp( a.name ) ) );
                if( g != w ) lg().violation( std::string( "huge " ) + a.name, std::string( a.name ) + ": message of " + std::to_string( at ) + " bytes (last update of " + std::to_string( s.n ) + "): got " + hex( g ) + " expected " + hex( w ) );
            }
            if( orc.can_finish() ) // the object goes on after its results
                for( int i = 0; i < 6; ++i )
                {
                    bytes g = o->result(), w = orc.finish(); u64 k = r.below( 70 ); lg().distinct( fpv( at * 8 + i + 1, fp( a.name ) ) );
                    if( g != w ) lg().violation( std::string( "huge-result " ) + a.name, std::string( a.name ) + ": result " + std::to_string( i + 1 ) + " after a message of " + std::to_string( at ) + " bytes: got " + hex( g ) + " expected " + hex( w ) );
                    o->update( msg + at, k ); orc.extend( k ); at += k;
                }
            lg().count( "bytes hashed", at ); lg().sample( std::string( a.name ) + ": checkpoints up to " + std::to_string( at ) + " bytes, one update call of " + std::to_string( std::max_element( plan.begin(), plan.end(), []( Step const& x, Step const& y ){ return x.n < y.n; } )->n ) );
            munmap( msg, total + 4096 );
        }
    }
    return lg().finish();
}
