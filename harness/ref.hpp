// Independent reference implementations, written from the published specifications
// (RFC 1321, FIPS 180-4, the RIPEMD-160/128 paper, the SipHash paper and reference, the xxHash and
// FNV specifications, SMHasher's MurmurHash3, SpookyV2). They share no code or structure with the
// code under test: messages are kept as whole byte strings and hashed in one go.
// harness/selftest.cpp validates every one of them against OpenSSL, libxxhash or published vectors.
#ifndef VERIF_REF_HPP
#define VERIF_REF_HPP
#include "common.hpp"
#include "ref_consts.hpp"
#include <cmath>
#include <memory>
#include <functional>

namespace ref
{
using vf::u8; using vf::u32; using vf::u64; using vf::bytes;

template<class W> inline W rol( W x, int k ){ int const b = 8 * sizeof( W ); k &= b - 1; return k ? (W)( (W)( x << k ) | (W)( x >> ( b - k ) ) ) : x; }
inline u64 ld( u8 const* p, int n, bool be ){ u64 v = 0; for( int i = 0; i < n; ++i ) v |= (u64)p[i] << 8 * ( be ? n - 1 - i : i ); return v; }
inline void st( bytes& o, u64 v, int n, bool be ){ for( int i = 0; i < n; ++i ) o.push_back( (u8)( v >> 8 * ( be ? n - 1 - i : i ) ) ); }

struct Span { u8 const* p; std::size_t n; u8 const& operator[]( std::size_t i ) const { return p[i]; } std::size_t size() const { return n; } };

// ---------------------------------------------------------------- Merkle-Damgaard family
enum Md { MD5, SHA1, SHA224, SHA256, SHA384, SHA512, SHA512_224, SHA512_256, RMD128, RMD160 };

struct MdInfo { int block, len, out; bool be; };
inline MdInfo info( Md a )
{
    switch( a )
    {
    case MD5: return { 64, 8, 16, false };
    case SHA1: return { 64, 8, 20, true };
    case SHA224: return { 64, 8, 28, true };
    case SHA256: return { 64, 8, 32, true };
    case SHA384: return { 128, 16, 48, true };
    case SHA512: return { 128, 16, 64, true };
    case SHA512_224: return { 128, 16, 28, true };
    case SHA512_256: return { 128, 16, 32, true };
    case RMD128: return { 64, 8, 16, false };
    default: return { 64, 8, 20, false };
    }
}

inline void c_md5( u64* S, u8 const* b )
{
    static int const sh[4][4] = { { 7, 12, 17, 22 }, { 5, 9, 14, 20 }, { 4, 11, 16, 23 }, { 6, 10, 15, 21 } };
    struct Tab { u32 v[64]; Tab(){ for( int i = 0; i < 64; ++i ) v[i] = (u32)(u64)std::floor( std::fabs( std::sin( (long double)( i + 1 ) ) ) * 4294967296.0L ); } };
    static Tab const tab; u32 const* T = tab.v;
    u32 a = (u32)S[0], B = (u32)S[1], c = (u32)S[2], d = (u32)S[3];
    for( int i = 0; i < 64; ++i )
    {
        u32 f; int g;
        switch( i / 16 )
        {
        case 0: f = ( B & c ) | ( ~B & d ); g = i; break;
        case 1: f = ( d & B ) | ( ~d & c ); g = ( 5 * i + 1 ) % 16; break;
        case 2: f = B ^ c ^ d; g = ( 3 * i + 5 ) % 16; break;
        default: f = c ^ ( B | ~d ); g = ( 7 * i ) % 16; break;
        }
        u32 t = d; d = c; c = B;
        B = B + rol<u32>( a + f + T[i] + (u32)ld( b + 4 * g, 4, false ), sh[ i / 16 ][ i % 4 ] );
        a = t;
    }
    S[0] = (u32)( S[0] + a ); S[1] = (u32)( S[1] + B ); S[2] = (u32)( S[2] + c ); S[3] = (u32)( S[3] + d );
}

inline void c_sha1( u64* S, u8 const* b )
{
    u32 w[80];
    for( int i = 0; i < 16; ++i ) w[i] = (u32)ld( b + 4 * i, 4, true );
    for( int i = 16; i < 80; ++i ) w[i] = rol<u32>( w[i-3] ^ w[i-8] ^ w[i-14] ^ w[i-16], 1 );
    u32 v[5]; for( int i = 0; i < 5; ++i ) v[i] = (u32)S[i];
    static u32 const K[4] = { 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xCA62C1D6 };
    for( int i = 0; i < 80; ++i )
    {
        int q = i / 20; u32 f = q == 0 ? ( v[3] ^ ( v[1] & ( v[2] ^ v[3] ) ) ) : q == 2 ? ( ( v[1] & v[2] ) | ( v[3] & ( v[1] | v[2] ) ) ) : ( v[1] ^ v[2] ^ v[3] );
        u32 t = rol<u32>( v[0], 5 ) + f + v[4] + K[q] + w[i];
        v[4] = v[3]; v[3] = v[2]; v[2] = rol<u32>( v[1], 30 ); v[1] = v[0]; v[0] = t;
    }
    for( int i = 0; i < 5; ++i ) S[i] = (u32)( S[i] + v[i] );
}

template<class W> inline void c_sha2( u64* S, u8 const* b )
{
    int const R = sizeof( W ) == 4 ? 64 : 80; int const wb = sizeof( W );
    static int const r4[12] = { 2, 13, 22, 6, 11, 25, 7, 18, 3, 17, 19, 10 };
    static int const r8[12] = { 28, 34, 39, 14, 18, 41, 1, 8, 7, 19, 61, 6 };
    int const* r = wb == 4 ? r4 : r8; int const nb = wb * 8;
    auto ror = [nb]( W x, int k ){ return rol<W>( x, nb - k ); };
    W w[80];
    for( int i = 0; i < 16; ++i ) w[i] = (W)ld( b + wb * i, wb, true );
    for( int i = 16; i < R; ++i )
    {
        W a = w[i-15], c = w[i-2];
        w[i] = (W)( w[i-16] + ( ror( a, r[6] ) ^ ror( a, r[7] ) ^ ( a >> r[8] ) ) + w[i-7] + ( ror( c, r[9] ) ^ ror( c, r[10] ) ^ ( c >> r[11] ) ) );
    }
    W v[8]; for( int i = 0; i < 8; ++i ) v[i] = (W)S[i];
    for( int i = 0; i < R; ++i )
    {
        W k = wb == 4 ? (W)( K512[i] >> 32 ) : (W)K512[i];
        W t1 = (W)( v[7] + ( ror( v[4], r[3] ) ^ ror( v[4], r[4] ) ^ ror( v[4], r[5] ) ) + ( v[6] ^ ( v[4] & ( v[5] ^ v[6] ) ) ) + k + w[i] );
        W t2 = (W)( ( ror( v[0], r[0] ) ^ ror( v[0], r[1] ) ^ ror( v[0], r[2] ) ) + ( ( v[0] & v[1] ) | ( v[2] & ( v[0] | v[1] ) ) ) );
        for( int j = 7; j > 0; --j ) v[j] = v[j-1];
        v[4] = (W)( v[4] + t1 ); v[0] = (W)( t1 + t2 );
    }
    for( int i = 0; i < 8; ++i ) S[i] = (W)( S[i] + v[i] );
}

inline void c_rmd( u64* S, u8 const* b, bool l160 )
{
    static u8 const rho[16] = { 7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8 };
    static u8 const shift[5][16] = {
        { 11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8 },
        { 12, 13, 11, 15, 6, 9, 9, 7, 12, 15, 11, 13, 7, 8, 7, 7 },
        { 13, 15, 14, 11, 7, 7, 6, 8, 13, 14, 13, 12, 5, 5, 6, 9 },
        { 14, 11, 12, 14, 8, 6, 5, 5, 15, 12, 15, 14, 9, 9, 8, 6 },
        { 15, 12, 13, 13, 9, 5, 8, 6, 14, 11, 12, 11, 8, 6, 5, 5 } };   // shift[round][word], per the paper
    static u32 const KL[5] = { 0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E };
    static u32 const KR5[5] = { 0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0 };
    static u32 const KR4[4] = { 0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0 };
    int const R = l160 ? 5 : 4;
    auto f = []( int j, u32 x, u32 y, u32 z )->u32{ switch( j ){ case 0: return x ^ y ^ z; case 1: return ( x & y ) | ( ~x & z ); case 2: return ( x | ~y ) ^ z; case 3: return ( x & z ) | ( y & ~z ); default: return x ^ ( y | ~z ); } };
    u32 X[16]; for( int i = 0; i < 16; ++i ) X[i] = (u32)ld( b + 4 * i, 4, false );
    u32 out[2][5];
    for( int side = 0; side < 2; ++side )
    {
        u32 v[5]; for( int i = 0; i < 5; ++i ) v[i] = (u32)S[i];
        int idx[16];
        for( int i = 0; i < 16; ++i ) idx[i] = side ? ( 9 * i + 5 ) % 16 : i;
        for( int j = 0; j < R; ++j )
        {
            for( int i = 0; i < 16; ++i )
            {
                int w = idx[i]; int s = shift[j][w];
                u32 k = side ? ( l160 ? KR5[j] : KR4[j] ) : KL[j];
                int fj = side ? R - 1 - j : j;
                if( l160 )
                {
                    u32 t = rol<u32>( v[0] + f( fj, v[1], v[2], v[3] ) + X[w] + k, s ) + v[4];
                    v[0] = v[4]; v[4] = v[3]; v[3] = rol<u32>( v[2], 10 ); v[2] = v[1]; v[1] = t;
                }
                else
                {
                    u32 t = rol<u32>( v[0] + f( fj, v[1], v[2], v[3] ) + X[w] + k, s );
                    v[0] = v[3]; v[3] = v[2]; v[2] = v[1]; v[1] = t;
                }
            }
            int n2[16]; for( int i = 0; i < 16; ++i ) n2[i] = rho[ idx[i] ]; 
            for( int i = 0; i < 16; ++i ) idx[i] = n2[i];
        }
        for( int i = 0; i < 5; ++i ) out[side][i] = v[i];
    }
    int const n = l160 ? 5 : 4; u32 r[5];
    for( int i = 0; i < n; ++i ) r[i] = (u32)( S[ ( i + 1 ) % n ] + out[0][ ( i + 2 ) % n ] + out[1][ ( i + 3 ) % n ] );
    for( int i = 0; i < n; ++i ) S[i] = r[i];
}

inline void compress( Md a, u64* S, u8 const* b )
{
    switch( a )
    {
    case MD5: c_md5( S, b ); break;
    case SHA1: c_sha1( S, b ); break;
    case SHA224: case SHA256: c_sha2<u32>( S, b ); break;
    case SHA384: case SHA512: case SHA512_224: case SHA512_256: c_sha2<u64>( S, b ); break;
    case RMD128: c_rmd( S, b, false ); break;
    case RMD160: c_rmd( S, b, true ); break;
    }
}

inline void iv( Md a, u64* S )
{
    for( int i = 0; i < 8; ++i ) S[i] = 0;
    switch( a )
    {
    case MD5: case RMD128: case SHA1: case RMD160:
        S[0] = 0x67452301; S[1] = 0xEFCDAB89; S[2] = 0x98BADCFE; S[3] = 0x10325476;
        if( a == SHA1 || a == RMD160 ) S[4] = 0xC3D2E1F0;
        break;
    case SHA256: for( int i = 0; i < 8; ++i ) S[i] = S16[i] >> 32; break;
    case SHA224: for( int i = 0; i < 8; ++i ) S[i] = S16[ 8 + i ] & 0xFFFFFFFF; break;
    case SHA512: for( int i = 0; i < 8; ++i ) S[i] = S16[i]; break;
    case SHA384: for( int i = 0; i < 8; ++i ) S[i] = S16[ 8 + i ]; break;
    case SHA512_224: case SHA512_256:
        {
            u8 b[128] = {}; char const* nm = a == SHA512_224 ? "SHA-512/224" : "SHA-512/256";
            std::memcpy( b, nm, 11 ); b[11] = 0x80; b[127] = 88;
            for( int i = 0; i < 8; ++i ) S[i] = S16[i] ^ 0xa5a5a5a5a5a5a5a5ull;
            c_sha2<u64>( S, b );
            break;
        }
    }
}

inline bytes md_padding( Md a, u64 n )
{
    MdInfo m = info( a ); bytes p; p.push_back( 0x80 );
    while( ( n + p.size() + m.len ) % m.block != 0 ) p.push_back( 0 );
    if( m.be ){ if( m.len == 16 ) st( p, n >> 61, 8, true ); st( p, n << 3, 8, true ); }
    else st( p, n << 3, 8, false );
    return p;
}

// streaming reference, only used where a whole message can't be kept in memory
struct MdStream
{
    Md a; u64 S[8]; bytes tail; u64 n = 0;
    explicit MdStream( Md a_ ): a( a_ ){ iv( a, S ); }
    void update( u8 const* p, std::size_t k )
    {
        std::size_t B = info( a ).block; n += k;
        if( !tail.empty() ){ std::size_t t = B - tail.size(); if( t > k ) t = k; tail.insert( tail.end(), p, p + t ); p += t; k -= t; if( tail.size() == B ){ compress( a, S, tail.data() ); tail.clear(); } }
        if( k == 0 ) return;
        while( k >= B ){ compress( a, S, p ); p += B; k -= B; }
        tail.assign( p, p + k );
    }
    bytes finish() const
    {
        u64 T[8]; std::memcpy( T, S, sizeof( T ) ); MdInfo m = info( a );
        bytes q = tail, p = md_padding( a, n ); q.insert( q.end(), p.begin(), p.end() );
        for( std::size_t i = 0; i < q.size(); i += m.block ) compress( a, T, &q[i] );
        bytes r; int w = m.block == 128 ? 8 : 4;
        for( int i = 0; (int)r.size() < m.out; ++i ) st( r, T[i], w, m.be );
        r.resize( m.out ); return r;
    }
};

inline bytes md( Md a, bytes const& msg ){ MdStream s( a ); s.update( msg.data(), msg.size() ); return s.finish(); }

inline bytes hmac( Md a, bytes const& key, bytes const& msg )
{
    std::size_t B = info( a ).block; bytes k = key; if( k.size() > B ) k = md( a, k ); k.resize( B );
    bytes in, out; for( u8 c: k ){ in.push_back( c ^ 0x36 ); out.push_back( c ^ 0x5c ); }
    in.insert( in.end(), msg.begin(), msg.end() ); bytes r = md( a, in ); out.insert( out.end(), r.begin(), r.end() ); return md( a, out );
}

// ---------------------------------------------------------------- executable models of a hash object
// update / result in any order. result() of the Merkle-Damgaard family "performs the state
// finalization again": the model keeps the logical stream and finalization appends its padding to it.
struct Model
{
    virtual ~Model(){}
    virtual void update( u8 const* p, std::size_t n ) = 0;
    virtual bytes result() = 0;
    virtual std::unique_ptr<Model> clone() const = 0;
    void update( bytes const& b ){ update( b.data(), b.size() ); }
};
typedef std::unique_ptr<Model> ModelP;
template<class D> struct ModelBase: Model { ModelP clone() const override { return ModelP( new D( static_cast<D const&>( *this ) ) ); } };

struct MdModel: ModelBase<MdModel>
{
    MdStream s; explicit MdModel( Md a ): s( a ){}
    using Model::update;
    void update( u8 const* p, std::size_t n ) override { if( n ) s.update( p, n ); }
    bytes result() override { bytes r = s.finish(); bytes pad = md_padding( s.a, s.n ); s.update( pad.data(), pad.size() ); return r; }
};

struct HmacModel: Model
{
    MdModel in, out;
    HmacModel( Md a, bytes key ): in( a ), out( a )
    {
        std::size_t B = info( a ).block; if( key.size() > B ) key = md( a, key ); key.resize( B );
        bytes i, o; for( u8 c: key ){ i.push_back( c ^ 0x36 ); o.push_back( c ^ 0x5c ); }
        in.update( i.data(), i.size() ); out.update( o.data(), o.size() );
    }
    using Model::update;
    void update( u8 const* p, std::size_t n ) override { in.update( p, n ); }
    bytes result() override { bytes r = in.result(); out.update( r.data(), r.size() ); return out.result(); }
    ModelP clone() const override { return ModelP( new HmacModel( *this ) ); }
};

template<class W> struct FnvModel: ModelBase<FnvModel<W>>
{
    W s = sizeof( W ) == 4 ? (W)0x811c9dc5u : (W)0xcbf29ce484222325ull;
    void step( u8 b ){ W x = s ^ b; // multiply by 2^24+0x193 / 2^40+0x1b3, spelled out
        if( sizeof( W ) == 4 ) s = (W)( ( x << 24 ) + x * 0x193u ); else s = (W)( (W)( (u64)x << 40 ) + x * 0x1b3u ); }
    using Model::update;
    void update( u8 const* p, std::size_t n ) override { for( std::size_t i = 0; i < n; ++i ) step( p[i] ); }
    bytes result() override { bytes r; st( r, s, sizeof( W ), false ); step( 0xFF ); return r; }
};

// SipHash-2-4 (W=u64, 16-byte key) and HalfSipHash-2-4 (W=u32, 8-byte key, 32-bit output)
template<class W> struct SipModel: ModelBase<SipModel<W>>
{
    W v[4]; bytes tail; u64 n = 0;
    static int const B = sizeof( W );
    SipModel( W k0 = 0, W k1 = 0 )
    {
        static char const c8[] = "somepseudorandomlygeneratedbytes";
        if( B == 8 ) for( int i = 0; i < 4; ++i ) v[i] = (W)ld( (u8 const*)c8 + 8 * i, 8, true );
        else { v[0] = v[1] = 0; v[2] = (W)ld( (u8 const*)"lyge", 4, true ); v[3] = (W)ld( (u8 const*)"tedb", 4, true ); }
        v[0] ^= k0; v[1] ^= k1; v[2] ^= k0; v[3] ^= k1;
    }
    void rounds( int r )
    {
        static int const R8[6] = { 13, 32, 16, 21, 17, 32 }, R4[6] = { 5, 16, 8, 7, 13, 16 };
        int const* q = B == 8 ? R8 : R4;
        while( r-- > 0 )
        {
            v[0] = (W)( v[0] + v[1] ); v[2] = (W)( v[2] + v[3] );
            v[1] = (W)( rol<W>( v[1], q[0] ) ^ v[0] ); v[3] = (W)( rol<W>( v[3], q[2] ) ^ v[2] );
            v[0] = rol<W>( v[0], q[1] );
            v[2] = (W)( v[2] + v[1] ); v[0] = (W)( v[0] + v[3] );
            v[1] = (W)( rol<W>( v[1], q[4] ) ^ v[2] ); v[3] = (W)( rol<W>( v[3], q[3] ) ^ v[0] );
            v[2] = rol<W>( v[2], q[5] );
        }
    }
    void word( u8 const* p ){ W m = (W)ld( p, B, false ); v[3] ^= m; rounds( 2 ); v[0] ^= m; }
    using Model::update;
    void update( u8 const* p, std::size_t k ) override
    {
        n += k; std::size_t i = 0;
        while( !tail.empty() && i < k ){ tail.push_back( p[i++] ); if( (int)tail.size() == B ){ word( tail.data() ); tail.clear(); } }
        for( ; i + B <= k; i += B ) word( p + i );
        for( ; i < k; ++i ) tail.push_back( p[i] );
    }
    bytes result() override
    {
        u64 step = B - tail.size();
        tail.resize( B, 0 ); tail[ B - 1 ] = (u8)n; word( tail.data() ); tail.clear(); n += step;
        v[2] ^= 0xFF; rounds( 4 );
        bytes r; st( r, B == 8 ? (W)( v[0] ^ v[1] ^ v[2] ^ v[3] ) : (W)( v[1] ^ v[3] ), B, false ); return r;
    }
};

template<class W> struct XxhConst;
template<> struct XxhConst<u32> { static u32 P( int i ){ static u32 const p[] = { 0, 0x9E3779B1u, 0x85EBCA77u, 0xC2B2AE3Du, 0x27D4EB2Fu, 0x165667B1u }; return p[i]; } };
template<> struct XxhConst<u64> { static u64 P( int i ){ static u64 const p[] = { 0, 0x9E3779B185EBCA87ull, 0xC2B2AE3D27D4EB4Full, 0x165667B19E3779F9ull, 0x85EBCA77C2B2AE63ull, 0x27D4EB2F165667C5ull }; return p[i]; } };

template<class W> struct XxhModel: ModelBase<XxhModel<W>>
{
    W acc[4]; bytes tail; u64 n = 0;
    static int const B = 4 * sizeof( W );
    static W P( int i ){ return XxhConst<W>::P( i ); }
    static W rnd( W a, W in ){ return (W)( rol<W>( (W)( a + in * P( 2 ) ), sizeof( W ) == 4 ? 13 : 31 ) * P( 1 ) ); }
    explicit XxhModel( u64 seed = 0 )
    {
        W s = (W)seed; acc[0] = (W)( s + P( 1 ) + P( 2 ) ); acc[1] = (W)( s + P( 2 ) ); acc[2] = s; acc[3] = (W)( s - P( 1 ) );
        if( sizeof( W ) == 4 && ( seed >> 32 ) ) for( W& a: acc ) a = rnd( a, (W)( seed >> 32 ) ); // documented: high half mixed into the state
    }
    void stripe( u8 const* p ){ for( int i = 0; i < 4; ++i ) acc[i] = rnd( acc[i], (W)ld( p + i * sizeof( W ), sizeof( W ), false ) ); }
    using Model::update;
    void update( u8 const* p, std::size_t k ) override
    {
        n += k; std::size_t i = 0;
        while( !tail.empty() && i < k ){ tail.push_back( p[i++] ); if( (int)tail.size() == B ){ stripe( tail.data() ); tail.clear(); } }
        for( ; i + B <= k; i += B ) stripe( p + i );
        for( ; i < k; ++i ) tail.push_back( p[i] );
    }
    bytes result() override
    {
        W h;
        if( n >= (u64)B )
        {
            h = (W)( rol<W>( acc[0], 1 ) + rol<W>( acc[1], 7 ) + rol<W>( acc[2], 12 ) + rol<W>( acc[3], 18 ) );
            if( sizeof( W ) == 8 ) for( W a: acc ){ h ^= rnd( 0, a ); h = (W)( h * P( 1 ) + P( 4 ) ); }
        }
        else h = (W)( acc[2] + P( 5 ) );
        h = (W)( h + (W)n );
        std::size_t i = 0, m = tail.size();
        if( sizeof( W ) == 8 )
        {
            for( ; i + 8 <= m; i += 8 ){ h ^= rnd( 0, (W)ld( &tail[i], 8, false ) ); h = (W)( rol<W>( h, 27 ) * P( 1 ) + P( 4 ) ); }
            for( ; i + 4 <= m; i += 4 ){ h ^= (W)( (W)ld( &tail[i], 4, false ) * P( 1 ) ); h = (W)( rol<W>( h, 23 ) * P( 2 ) + P( 3 ) ); }
            for( ; i < m; ++i ){ h ^= (W)( tail[i] * P( 5 ) ); h = (W)( rol<W>( h, 11 ) * P( 1 ) ); }
        }
        else
        {
            for( ; i + 4 <= m; i += 4 ){ h = (W)( h + (W)ld( &tail[i], 4, false ) * P( 3 ) ); h = (W)( rol<W>( h, 17 ) * P( 4 ) ); }
            for( ; i < m; ++i ){ h = (W)( h + tail[i] * P( 5 ) ); h = (W)( rol<W>( h, 11 ) * P( 1 ) ); }
        }
        n += B - m; tail.clear();
        acc[0] = (W)( acc[0] + h ); acc[1] = (W)( acc[1] + h ); acc[2] = (W)( acc[2] - h ); acc[3] = (W)( acc[3] - h );
        static int const s8[3] = { 33, 29, 32 }, s4[3] = { 15, 13, 16 }; int const* s = sizeof( W ) == 8 ? s8 : s4;
        h ^= h >> s[0]; h = (W)( h * P( 2 ) ); h ^= h >> s[1]; h = (W)( h * P( 3 ) ); h ^= h >> s[2];
        bytes r; st( r, h, sizeof( W ), false ); return r;
    }
};

// ---------------------------------------------------------------- legacy algorithms: one-shot references
inline u32 mm32_mix( u32 h, u32 k ){ k *= 0xcc9e2d51u; k = rol<u32>( k, 15 ); k *= 0x1b873593u; h ^= k; h = rol<u32>( h, 13 ); return h * 5 + 0xe6546b64u; }
template<class M> inline bytes murmur32( u32 seed, M const& m )   // M: bytes or any indexable sequence with size()
{
    u32 h = seed; std::size_t i = 0;
    for( ; i + 4 <= m.size(); i += 4 ) h = mm32_mix( h, (u32)ld( &m[i], 4, false ) );
    if( i < m.size() ){ u32 k = (u32)ld( &m[i], (int)( m.size() - i ), false ); k *= 0xcc9e2d51u; k = rol<u32>( k, 15 ); k *= 0x1b873593u; h ^= k; }
    h ^= (u32)m.size();
    h ^= h >> 16; h *= 0x85ebca6bu; h ^= h >> 13; h *= 0xc2b2ae35u; h ^= h >> 16;
    bytes r; st( r, h, 4, false ); return r;
}
template<class M> inline bytes murmur128( u64 s1, u64 s2, M const& m )
{
    u64 const c1 = 0x87c37b91114253d5ull, c2 = 0x4cf5ad432745937full; u64 h1 = s1, h2 = s2; std::size_t i = 0;
    auto m1 = [=]( u64 k ){ return rol<u64>( k * c1, 31 ) * c2; }; auto m2 = [=]( u64 k ){ return rol<u64>( k * c2, 33 ) * c1; };
    for( ; i + 16 <= m.size(); i += 16 )
    {
        h1 ^= m1( ld( &m[i], 8, false ) ); h1 = rol<u64>( h1, 27 ) + h2; h1 = h1 * 5 + 0x52dce729;
        h2 ^= m2( ld( &m[ i + 8 ], 8, false ) ); h2 = rol<u64>( h2, 31 ) + h1; h2 = h2 * 5 + 0x38495ab5;
    }
    std::size_t t = m.size() - i;
    if( t > 8 ) h2 ^= m2( ld( &m[ i + 8 ], (int)( t - 8 ), false ) );
    if( t > 0 ) h1 ^= m1( ld( &m[i], t > 8 ? 8 : (int)t, false ) );
    h1 ^= m.size(); h2 ^= m.size(); h1 += h2; h2 += h1;
    auto fm = []( u64 k ){ k ^= k >> 33; k *= 0xff51afd7ed558ccdull; k ^= k >> 33; k *= 0xc4ceb9fe1a85ec53ull; k ^= k >> 33; return k; };
    h1 = fm( h1 ); h2 = fm( h2 ); h1 += h2; h2 += h1;
    bytes r; st( r, h1, 8, false ); st( r, h2, 8, false ); return r;
}
template<class M> inline bytes spooky128( u64 s1, u64 s2, M const& m )
{
    u64 const SC = 0xdeadbeefdeadbeefull;
    if( m.size() < 192 )
    {
        u64 h[4] = { s1, s2, SC, SC };
        auto mix = [&]( ){
            static int const r[12] = { 50, 52, 30, 41, 54, 48, 38, 37, 62, 34, 5, 36 };
            for( int i = 0; i < 12; ++i ){ int x = ( i + 2 ) & 3, y = ( i + 3 ) & 3, z = i & 3; h[x] = rol<u64>( h[x], r[i] ) + h[y]; h[z] ^= h[x]; } };
        auto end = [&]( ){
            static int const r[11] = { 15, 52, 26, 51, 28, 9, 47, 54, 32, 25, 63 };
            for( int i = 0; i < 11; ++i ){ int x = ( i + 3 ) & 3, y = ( i + 2 ) & 3; h[x] ^= h[y]; h[y] = rol<u64>( h[y], r[i] ); h[x] += h[y]; } };
        std::size_t i = 0, n = m.size();
        for( ; n - i >= 32; i += 32 ){ h[2] += ld( &m[i], 8, false ); h[3] += ld( &m[ i + 8 ], 8, false ); mix(); h[0] += ld( &m[ i + 16 ], 8, false ); h[1] += ld( &m[ i + 24 ], 8, false ); }
        if( n - i >= 16 ){ h[2] += ld( &m[i], 8, false ); h[3] += ld( &m[ i + 8 ], 8, false ); mix(); i += 16; }
        std::size_t t = n - i; h[3] += (u64)n << 56;
        if( t == 0 ){ h[2] += SC; h[3] += SC; }
        else { h[2] += ld( &m[i], t > 8 ? 8 : (int)t, false ); if( t > 8 ) h[3] += ld( &m[ i + 8 ], (int)( t - 8 ), false ); }
        end();
        bytes r; st( r, h[0], 8, false ); st( r, h[1], 8, false ); return r;
    }
    u64 s[12]; for( int i = 0; i < 12; ++i ) s[i] = i % 3 == 0 ? s1 : i % 3 == 1 ? s2 : SC;
    auto mix = [&]( u8 const* p ){
        static int const r[12] = { 11, 32, 43, 31, 17, 28, 39, 57, 55, 54, 22, 46 };
        for( int i = 0; i < 12; ++i ){ s[i] += ld( p + 8 * i, 8, false ); s[ ( i + 2 ) % 12 ] ^= s[ ( i + 10 ) % 12 ]; s[ ( i + 11 ) % 12 ] ^= s[i]; s[i] = rol<u64>( s[i], r[i] ); s[ ( i + 11 ) % 12 ] += s[ ( i + 1 ) % 12 ]; } };
    std::size_t i = 0; for( ; i + 96 <= m.size(); i += 96 ) mix( &m[i] );
    u8 last[96] = {}; std::size_t t = m.size() - i; if( t ) std::memcpy( last, &m[i], t ); last[95] = (u8)t;
    for( int k = 0; k < 12; ++k ) s[k] += ld( last + 8 * k, 8, false );
    static int const r[12] = { 44, 15, 34, 21, 38, 33, 10, 13, 38, 53, 42, 54 };
    for( int q = 0; q < 3; ++q ) for( int k = 0; k < 12; ++k ){ s[ ( k + 11 ) % 12 ] += s[ ( k + 1 ) % 12 ]; s[ ( k + 2 ) % 12 ] ^= s[ ( k + 11 ) % 12 ]; s[ ( k + 1 ) % 12 ] = rol<u64>( s[ ( k + 1 ) % 12 ], r[k] ); }
    bytes o; st( o, s[0], 8, false ); st( o, s[1], 8, false ); return o;
}
} // namespace ref
#endif
