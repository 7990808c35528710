// Adapters over the public interface of the hash algorithms under test. Only documented members are used.
#ifndef VERIF_ALGS_HPP
#define VERIF_ALGS_HPP
#include "ref.hpp"
#include <boost/hash2/fnv1a.hpp>
#include <boost/hash2/xxhash.hpp>
#include <boost/hash2/siphash.hpp>
#include <boost/hash2/md5.hpp>
#include <boost/hash2/sha1.hpp>
#include <boost/hash2/sha2.hpp>
#include <boost/hash2/ripemd.hpp>
#include <boost/hash2/hmac.hpp>
#include <boost/hash2/digest.hpp>
#include <boost/hash2/legacy/murmur3.hpp>
#include <boost/hash2/legacy/spooky2.hpp>
#include <type_traits>
#include <new>

namespace vf
{
namespace h2 = boost::hash2;

enum Kind { K_FNV32, K_FNV64, K_XXH32, K_XXH64, K_SIP32, K_SIP64, K_MD, K_HMAC, K_MM32, K_MM128, K_SPOOKY };

// X( class, kind, reference digest )
#define VF_PLAIN(X) \
    X( fnv1a_32, K_FNV32, MD5 ) X( fnv1a_64, K_FNV64, MD5 ) X( xxhash_32, K_XXH32, MD5 ) X( xxhash_64, K_XXH64, MD5 ) \
    X( siphash_32, K_SIP32, MD5 ) X( siphash_64, K_SIP64, MD5 )
#define VF_MD(X) \
    X( md5_128, K_MD, MD5 ) X( sha1_160, K_MD, SHA1 ) X( sha2_256, K_MD, SHA256 ) X( sha2_224, K_MD, SHA224 ) \
    X( sha2_512, K_MD, SHA512 ) X( sha2_384, K_MD, SHA384 ) X( sha2_512_256, K_MD, SHA512_256 ) X( sha2_512_224, K_MD, SHA512_224 ) \
    X( ripemd_160, K_MD, RMD160 ) X( ripemd_128, K_MD, RMD128 )
#define VF_HMAC(X) \
    X( hmac_md5_128, K_HMAC, MD5 ) X( hmac_sha1_160, K_HMAC, SHA1 ) X( hmac_sha2_256, K_HMAC, SHA256 ) X( hmac_sha2_224, K_HMAC, SHA224 ) \
    X( hmac_sha2_512, K_HMAC, SHA512 ) X( hmac_sha2_384, K_HMAC, SHA384 ) X( hmac_sha2_512_256, K_HMAC, SHA512_256 ) X( hmac_sha2_512_224, K_HMAC, SHA512_224 ) \
    X( hmac_ripemd_160, K_HMAC, RMD160 ) X( hmac_ripemd_128, K_HMAC, RMD128 )
#define VF_LEGACY(X) \
    X( murmur3_32, K_MM32, MD5 ) X( murmur3_128, K_MM128, MD5 ) X( spooky2_128, K_SPOOKY, MD5 )
#define VF_DOCUMENTED(X) VF_PLAIN(X) VF_MD(X) VF_HMAC(X)
#define VF_ALL(X) VF_DOCUMENTED(X) VF_LEGACY(X)

template<class R> typename std::enable_if<std::is_integral<R>::value, bytes>::type rbytes( R r ){ bytes b; for( std::size_t i = 0; i < sizeof( R ); ++i ) b.push_back( (u8)( (u64)r >> 8 * i ) ); return b; }
template<class R> typename std::enable_if<!std::is_integral<R>::value, bytes>::type rbytes( R const& r ){ return bytes( r.data(), r.data() + r.size() ); }

// how an object was constructed
struct Ctor
{
    enum K { DEF, SEED, BYTES } k = DEF; u64 seed = 0; bytes b;
    std::string str() const { return k == DEF ? "()" : k == SEED ? "(seed=" + std::to_string( seed ) + ")" : "(bytes[" + std::to_string( b.size() ) + "]=" + hex( b, 300 ) + ")"; }
};

struct Obj
{
    virtual ~Obj(){}
    virtual void update( void const* p, std::size_t n ) = 0;                 // the void const* overload
    virtual void update_uc( unsigned char const* p, std::size_t n ) = 0;     // the unsigned char const* overload
    virtual bytes result() = 0;
    virtual Obj* clone() const = 0;                                          // copy construction
    virtual void assign( Obj const& o ) = 0;                                 // copy assignment (same dynamic type)
    virtual void const* raw() const = 0;
    virtual std::size_t size() const = 0;
};

template<class H> struct ObjT final: Obj
{
    H h;
    ObjT(){} explicit ObjT( u64 s ): h( s ){} ObjT( unsigned char const* p, std::size_t n ): h( p, n ){} explicit ObjT( H const& x ): h( x ){}
    void update( void const* p, std::size_t n ) override { h.update( p, n ); }
    void update_uc( unsigned char const* p, std::size_t n ) override { h.update( p, n ); }
    bytes result() override { return rbytes( h.result() ); }
    Obj* clone() const override { return new ObjT( h ); }
    void assign( Obj const& o ) override { h = static_cast<ObjT const&>( o ).h; }
    void const* raw() const override { return &h; }
    std::size_t size() const override { return sizeof( h ); }
};

struct Alg
{
    char const* name; Kind kind; ref::Md md; std::size_t block, out;
    Obj* (*mk_def)(); Obj* (*mk_seed)( u64 ); Obj* (*mk_bytes)( unsigned char const*, std::size_t );
    bool legacy() const { return kind >= K_MM32; }
    Obj* make( Ctor const& c ) const { static u8 const z = 0; return c.k == Ctor::DEF ? mk_def() : c.k == Ctor::SEED ? mk_seed( c.seed ) : mk_bytes( c.b.empty() ? &z : c.b.data(), c.b.size() ); }
};

inline std::size_t ref_block( Kind k, ref::Md m )
{
    switch( k ){ case K_FNV32: case K_FNV64: return 1; case K_XXH32: return 16; case K_XXH64: return 32; case K_SIP32: return 4; case K_SIP64: return 8; case K_MM32: return 4; case K_MM128: return 16; case K_SPOOKY: return 192; default: return ref::info( m ).block; }
}
inline std::size_t ref_out( Kind k, ref::Md m )
{
    switch( k ){ case K_FNV32: case K_XXH32: case K_SIP32: case K_MM32: return 4; case K_FNV64: case K_XXH64: case K_SIP64: return 8; case K_MM128: case K_SPOOKY: return 16; default: return ref::info( m ).out; }
}

template<class H> inline Alg mkalg( char const* n, Kind k, ref::Md m )
{
    Alg a; a.name = n; a.kind = k; a.md = m; a.block = ref_block( k, m ); a.out = ref_out( k, m );
    a.mk_def = []()->Obj*{ return new ObjT<H>(); }; a.mk_seed = []( u64 s )->Obj*{ return new ObjT<H>( s ); };
    a.mk_bytes = []( unsigned char const* p, std::size_t n )->Obj*{ return new ObjT<H>( p, n ); };
    return a;
}

#define VF_MK( c, k, m ) mkalg<h2::c>( #c, k, ref::m ),
inline std::vector<Alg> const& plain_algs(){ static std::vector<Alg> const v = { VF_PLAIN( VF_MK ) VF_MD( VF_MK ) }; return v; }
inline std::vector<Alg> const& hmac_algs(){ static std::vector<Alg> const v = { VF_HMAC( VF_MK ) }; return v; }
inline std::vector<Alg> const& documented_algs(){ static std::vector<Alg> const v = { VF_DOCUMENTED( VF_MK ) }; return v; }
inline std::vector<Alg> const& legacy_algs(){ static std::vector<Alg> const v = { VF_LEGACY( VF_MK ) }; return v; }
inline std::vector<Alg> const& all_algs(){ static std::vector<Alg> const v = { VF_ALL( VF_MK ) }; return v; }

inline bytes le8( u64 s ){ bytes b; ref::st( b, s, 8, false ); return b; }

// executable model of an object of algorithm `a` constructed by `c` (documented algorithms only)
inline ref::ModelP make_model( Alg const& a, Ctor const& c )
{
    using namespace ref;
    bytes sb; if( c.k == Ctor::SEED && c.seed != 0 ) sb = le8( c.seed ); else if( c.k == Ctor::BYTES ) sb = c.b;
    ModelP m; bool upd = false, res = false;
    switch( a.kind )
    {
    case K_FNV32: m.reset( new FnvModel<u32>() ); upd = true; break;
    case K_FNV64: m.reset( new FnvModel<u64>() ); upd = true; break;
    case K_XXH32: m.reset( new XxhModel<u32>( c.k == Ctor::SEED ? c.seed : 0 ) ); upd = res = c.k == Ctor::BYTES; break;
    case K_XXH64: m.reset( new XxhModel<u64>( c.k == Ctor::SEED ? c.seed : 0 ) ); upd = res = c.k == Ctor::BYTES; break;
    case K_SIP32:
        if( c.k == Ctor::SEED ) m.reset( new SipModel<u32>( (u32)c.seed, (u32)( c.seed >> 32 ) ) );
        else if( c.k == Ctor::BYTES && c.b.size() == 8 ) m.reset( new SipModel<u32>( (u32)ld( &c.b[0], 4, false ), (u32)ld( &c.b[4], 4, false ) ) );
        else { m.reset( new SipModel<u32>() ); upd = res = c.k == Ctor::BYTES; }
        break;
    case K_SIP64:
        if( c.k == Ctor::SEED ) m.reset( new SipModel<u64>( c.seed, 0 ) );
        else if( c.k == Ctor::BYTES && c.b.size() == 16 ) m.reset( new SipModel<u64>( ld( &c.b[0], 8, false ), ld( &c.b[8], 8, false ) ) );
        else { m.reset( new SipModel<u64>() ); upd = res = c.k == Ctor::BYTES; }
        break;
    case K_MD: m.reset( new MdModel( a.md ) ); upd = res = true; break;
    case K_HMAC: m.reset( new HmacModel( a.md, sb ) ); break;
    default: return ModelP();
    }
    if( upd && !sb.empty() ){ m->update( sb ); if( res ) m->result(); }
    return m;
}

// published value of a message for a default-constructed object
inline bytes published( Alg const& a, bytes const& msg )
{
    using namespace ref;
    switch( a.kind )
    {
    case K_MM32: return murmur32( 0, msg );
    case K_MM128: return murmur128( 0, 0, msg );
    case K_SPOOKY: return spooky128( 0, 0, msg );
    default: { ModelP m = make_model( a, Ctor() ); m->update( msg ); return m->result(); }
    }
}

// ---------------------------------------------------------------- message generators
// structured and random contents
inline bytes gen_msg( Rng& r, std::size_t n )
{
    bytes m( n );
    switch( r.below( 8 ) )
    {
    case 0: break;                                                              // all zero
    case 1: if( n ) std::memset( m.data(), 0xFF, n ); break;                    // all ones
    case 2: if( n ){ u8 c = (u8)r.next(); std::memset( m.data(), c, n ); } break;
    case 3: { u8 c = (u8)r.next(), d = (u8)( r.chance( 1, 2 ) ? 1 : r.next() ); for( std::size_t i = 0; i < n; ++i ) m[i] = (u8)( c + d * i ); } break;
    case 4: for( std::size_t k = n ? 1 + r.below( 4 ) : 0; k--; ) m[ r.below( n ) ] = (u8)( 1u << r.below( 8 ) ); break;   // sparse bits
    case 5: for( std::size_t i = 0; i < n; ++i ) m[i] = (u8)( 0x80 | r.next() >> 57 ); break;  // high bit set (sign extension)
    case 6: { r.fill( m.data(), n ); if( n ) for( std::size_t k = r.below( n / 4 + 2 ); k--; ) m[ n - 1 - r.below( n ) / 4 ] = 0; } break;   // random with zero tail
    default: if( n ) r.fill( m.data(), n );
    }
    return m;
}
// sizes biased to block boundaries of the algorithm
inline std::size_t gen_len( Rng& r, std::size_t block, std::size_t maxn )
{
    std::size_t n;
    switch( r.below( 8 ) )
    {
    case 0: n = r.below( 4 ); break;
    case 1: case 2: { long k = (long)( block * r.below( 5 ) ) + (long)r.below( 19 ) - 9; n = k < 0 ? 0 : (std::size_t)k; } break;
    case 3: n = r.below( block + 1 ); break;
    case 4: n = r.below( 2 * block + 2 ); break;
    case 5: n = r.below( 300 ); break;
    case 6: n = 64 * r.below( 12 ) + r.below( 3 ); if( n ) --n; break;
    default: n = r.below( maxn + 1 );
    }
    return n > maxn ? maxn : n;
}
// the same, with an occasional long one (several powers of two, their neighbours, multiples of the block, anything)
inline std::size_t gen_any( Rng& r, std::size_t block, std::size_t maxn, u64 odds = 16, std::size_t longmax = 12000 )
{
    if( !r.chance( 1, odds ) ) return gen_len( r, block, maxn );
    std::size_t n;
    switch( r.below( 4 ) )
    {
    case 0: n = ( (std::size_t)256 << r.below( 6 ) ) + r.below( 5 ) - 2; break;
    case 1: n = block * ( 1 + r.below( longmax / block ) ) + r.below( 3 ) - 1; break;
    default: n = r.below( longmax + 1 );
    }
    return n > longmax ? longmax : n;
}
inline Ctor gen_ctor( Rng& r, std::size_t block )
{
    Ctor c;
    switch( r.below( 6 ) )
    {
    case 0: case 1: c.k = Ctor::DEF; break;
    case 2: c.k = Ctor::SEED; { static u64 const sp[] = { 0, 1, 0xFF, 0x100, 0xFFFFFFFFull, 0x100000000ull, 0x8000000000000000ull, ~0ull }; c.seed = sp[ r.below( 8 ) ]; } break;
    case 3: c.k = Ctor::SEED; c.seed = r.next(); if( r.chance( 1, 3 ) ) c.seed >>= r.below( 64 ); break;
    case 4: c.k = Ctor::BYTES; c.b = r.buf( r.below( 34 ) ); break;
    default: c.k = Ctor::BYTES; c.b = r.buf( gen_any( r, block, 3 * block + 20 ) );
    }
    return c;
}
} // namespace vf
#endif
