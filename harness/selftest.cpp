// Validates the reference implementations against OpenSSL, libxxhash (when present) and published vectors.
#include "ref.hpp"
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <dlfcn.h>
using namespace vf;
static int bad = 0; static u64 n = 0;
static void eq( bytes const& a, bytes const& b, std::string const& w ){ ++n; if( a != b ){ ++bad; std::printf( "SELFTEST FAIL %s: %s vs %s\n", w.c_str(), hex( a ).c_str(), hex( b ).c_str() ); } }
static bytes unhex( char const* s ){ bytes r; for( ; *s; s += 2 ){ unsigned v; std::sscanf( s, "%2x", &v ); r.push_back( (u8)v ); } return r; }
static bytes str( char const* s ){ return bytes( s, s + std::strlen( s ) ); }
static EVP_MD const* evp( ref::Md a )
{
    switch( a ){ case ref::MD5: return EVP_md5(); case ref::SHA1: return EVP_sha1(); case ref::SHA224: return EVP_sha224(); case ref::SHA256: return EVP_sha256(); case ref::SHA384: return EVP_sha384(); case ref::SHA512: return EVP_sha512(); case ref::SHA512_224: return EVP_sha512_224(); case ref::SHA512_256: return EVP_sha512_256(); case ref::RMD160: return EVP_ripemd160(); default: return nullptr; }
}
int main()
{
    Rng r( 7 );
    ref::Md all[] = { ref::MD5, ref::SHA1, ref::SHA224, ref::SHA256, ref::SHA384, ref::SHA512, ref::SHA512_224, ref::SHA512_256, ref::RMD160 };
    for( ref::Md a: all )
    {
        for( int len = 0; len < 600; ++len )
        {
            bytes m = r.buf( len ); u8 o[64]; unsigned ol = 0;
            if( !EVP_Digest( m.data(), m.size(), o, &ol, evp( a ), nullptr ) ){ std::printf( "no openssl digest %d\n", a ); ++bad; break; }
            eq( ref::md( a, m ), bytes( o, o + ol ), "md" + std::to_string( a ) );
            bytes k = r.buf( r.below( 300 ) ); static u8 dummy[1];
            HMAC( evp( a ), k.empty() ? dummy : k.data(), (int)k.size(), m.data(), m.size(), o, &ol );
            eq( ref::hmac( a, k, m ), bytes( o, o + ol ), "hmac" + std::to_string( a ) );
            ref::HmacModel hm( a, k ); hm.update( m ); eq( hm.result(), bytes( o, o + ol ), "hmacmodel" );
            // model: second result is the hash of the padded stream
            ref::MdModel mm( a ); std::size_t c = r.below( len + 1 ); mm.update( m.data(), c ); mm.update( m.data() + c, len - c ); mm.result();
            bytes m2 = m, p = ref::md_padding( a, len ); m2.insert( m2.end(), p.begin(), p.end() ); EVP_Digest( m2.data(), m2.size(), o, &ol, evp( a ), nullptr );
            eq( mm.result(), bytes( o, o + ol ), "mdmodel" );
        }
    }
    // RIPEMD-128, published vectors
    struct V { char const* m; char const* h; } rv[] = {
        { "", "cdf26213a150dc3ecb610f18f6b38b46" }, { "a", "86be7afa339d0fc7cfc785e72f578d33" }, { "abc", "c14a12199c66e4ba84636b0f69144c77" },
        { "message digest", "9e327b3d6e523062afc1132d7df9d1b8" }, { "abcdefghijklmnopqrstuvwxyz", "fd2aa607f71dc8f510714922b371834e" },
        { "abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq", "a1aa0689d0fafa2ddc22e88b49133a06" },
        { "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789", "d1e959eb179c911faea4624c60c5c702" },
        { "12345678901234567890123456789012345678901234567890123456789012345678901234567890", "3f45ef194732c2dbb2c4a2c769795fa3" } };
    for( auto& v: rv ) eq( ref::md( ref::RMD128, str( v.m ) ), unhex( v.h ), std::string( "rmd128 " ) + v.m );
    eq( ref::md( ref::RMD128, bytes( 1000000, 'a' ) ), unhex( "4a7f5723f954eba1216c9d8f6320431f" ), "rmd128 million a" );
    // SipHash-2-4 vectors (key 00..0f, messages 00, 00 01, ...), from the reference implementation
    char const* sv[] = { "310e0edd47db6f72", "fd67dc93c539f874", "5a4fa9d909806c0d", "2d7efbd796666785", "b7877127e09427cf", "8da699cd64557618", "cee3fe586e46c9cb", "37d1018bf50002ab", "6224939a79f5f593", "b0e4a90bdf82009e", "f3b9dd94c5bb5d7a", "a7ad6b22462fb3f4", "fbe50e86bc8f1e75", "903d84c02756ea14", "eef27a8e90ca23f7", "e545be4961ca29a1" };
    for( int i = 0; i < 16; ++i ){ bytes m; for( int j = 0; j < i; ++j ) m.push_back( (u8)j ); ref::SipModel<u64> s( 0x0706050403020100ull, 0x0f0e0d0c0b0a0908ull ); s.update( m ); eq( s.result(), unhex( sv[i] ), "siphash64 " + std::to_string( i ) ); }
    // HalfSipHash-2-4 vectors (key 00..07)
    char const* hv[] = { "a9359f5b", "27475ab8", "fa62a603", "8afee704", "2a6e4689", "c5fab669", "5863fc23", "8bcf63c5" };
    for( int i = 0; i < 8; ++i ){ bytes m; for( int j = 0; j < i; ++j ) m.push_back( (u8)j ); ref::SipModel<u32> s( 0x03020100u, 0x07060504u ); s.update( m ); eq( s.result(), unhex( hv[i] ), "halfsiphash " + std::to_string( i ) ); }
    // FNV-1a
    { ref::FnvModel<u32> f; eq( f.result(), unhex( "c59d1c81" ), "fnv32" ); ref::FnvModel<u32> g; g.update( str( "foobar" ) ); eq( g.result(), unhex( "68f99cbf" ), "fnv32 foobar" );
      ref::FnvModel<u64> h; h.update( str( "foobar" ) ); eq( h.result(), unhex( "e86739f771419485" ), "fnv64 foobar" ); }
    // xxHash: libxxhash if available, else published vectors
    void* lib = dlopen( "libxxhash.so.0", RTLD_NOW );
    if( lib )
    {
        auto x32 = (u32 (*)( void const*, std::size_t, u32 ))dlsym( lib, "XXH32" ); auto x64 = (u64 (*)( void const*, std::size_t, u64 ))dlsym( lib, "XXH64" );
        for( int len = 0; len < 300; ++len )
        {
            bytes m = r.buf( len ); u64 s = r.next(); if( len % 7 == 0 ) s = 0;
            bytes e; ref::st( e, x32( m.data(), m.size(), (u32)s ), 4, false ); ref::XxhModel<u32> a( (u32)s ); std::size_t c = r.below( len + 1 ); a.update( m.data(), c ); a.update( m.data() + c, len - c ); eq( a.result(), e, "xxh32" );
            e.clear(); ref::st( e, x64( m.data(), m.size(), s ), 8, false ); ref::XxhModel<u64> b( s ); b.update( m.data(), c ); b.update( m.data() + c, len - c ); eq( b.result(), e, "xxh64" );
        }
    }
    { ref::XxhModel<u32> a; eq( a.result(), unhex( "055dcc02" ), "xxh32 empty" ); ref::XxhModel<u64> b; eq( b.result(), unhex( "99e9d85137db46ef" ), "xxh64 empty" ); }
    // MurmurHash3 (SMHasher verification values are over LE output of 256 keys)
    { bytes acc; for( int i = 0; i < 256; ++i ){ bytes k; for( int j = 0; j < i; ++j ) k.push_back( (u8)j ); bytes h = ref::murmur32( 256 - i, k ); acc.insert( acc.end(), h.begin(), h.end() ); } bytes f = ref::murmur32( 0, acc ); eq( f, unhex( "e37ef5b0" ), "murmur3_32 verification B0F57EE3" ); }
    { bytes acc; for( int i = 0; i < 256; ++i ){ bytes k; for( int j = 0; j < i; ++j ) k.push_back( (u8)j ); bytes h = ref::murmur128( 256 - i, 256 - i, k ); acc.insert( acc.end(), h.begin(), h.end() ); } bytes f = ref::murmur128( 0, 0, acc ); f.resize( 4 ); eq( f, unhex( "69ba8463" ), "murmur3_128 verification 6384BA69" ); }
    // SpookyV2, values published with the reference implementation (TestSpookyV2: buf[i] = i + 128)
    { struct { int n; u32 v; } sp[] = { { 0, 0x6bf50919 }, { 1, 0x70de1d26 }, { 2, 0xa2b37298 }, { 15, 0x83ec01f9 }, { 64, 0x069c8bb7 }, { 128, 0x94e948ec }, { 192, 0x77e012bd }, { 193, 0x2d05114c }, { 256, 0x38cebf03 }, { 257, 0x0cbc2e72 }, { 320, 0xf1545450 } };
      for( auto& e: sp ){ bytes m; for( int i = 0; i < e.n; ++i ) m.push_back( (u8)( i + 128 ) ); bytes h = ref::spooky128( 0, 0, m ); h.resize( 4 ); bytes x; ref::st( x, e.v, 4, false ); eq( h, x, "spooky " + std::to_string( e.n ) ); } }
    std::printf( "selftest: %llu comparisons, %d failures, libxxhash %s\n", (unsigned long long)n, bad, lib ? "used" : "absent" );
    return bad ? 1 : 0;
}
