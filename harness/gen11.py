"""Generates translation units for C11: random programs over the constexpr interface, each evaluated by the compiler
(a constexpr variable) and again at run time from a heap copy of the same data through an opaque pointer."""
import random

PLAIN = [("fnv1a_32", 1), ("fnv1a_64", 1), ("xxhash_32", 16), ("xxhash_64", 32), ("siphash_32", 4), ("siphash_64", 8)]
MD = [("md5_128", 64), ("sha1_160", 64), ("sha2_256", 64), ("sha2_224", 64), ("sha2_512", 128), ("sha2_384", 128), ("sha2_512_256", 128), ("sha2_512_224", 128), ("ripemd_160", 64), ("ripemd_128", 64)]
HMAC = [("hmac_" + n, b) for n, b in MD]

PRE = r'''
#include <boost/hash2/fnv1a.hpp>
#include <boost/hash2/xxhash.hpp>
#include <boost/hash2/siphash.hpp>
#include <boost/hash2/md5.hpp>
#include <boost/hash2/sha1.hpp>
#include <boost/hash2/sha2.hpp>
#include <boost/hash2/ripemd.hpp>
#include <boost/hash2/hmac.hpp>
#include <boost/hash2/digest.hpp>
#include <boost/hash2/hash_append.hpp>
#include <boost/hash2/get_integral_result.hpp>
#include <boost/array.hpp>
#include <boost/describe.hpp>
#include <array>
#include <tuple>
#include <utility>
#include <cstdint>
#include "common.hpp"
#if __cplusplus >= 201703L
#include <string_view>
#endif
#if __cplusplus >= 202002L
#include <vector>
#include <string>
#include <span>
#endif
namespace h2 = boost::hash2;
typedef unsigned char u8; typedef std::uint16_t u16; typedef std::uint32_t u32; typedef std::uint64_t u64;
struct Out { unsigned char b[ 640 ] = {}; std::size_t n = 0;
  constexpr void put( u64 v ){ for( int i = 0; i < 8; ++i ) b[ n++ ] = (u8)( v >> 8 * i ); }
  template<std::size_t N> constexpr void put( h2::digest<N> const& d ){ for( std::size_t i = 0; i < N; ++i ) b[ n++ ] = d[ i ]; } };
// a constexpr-friendly user-defined algorithm
class UH { u64 s_ = 0x1234567; u64 n_ = 0; public: typedef u64 result_type; constexpr UH(){} explicit constexpr UH( u64 s ): s_( s * 31 + 7 ){} constexpr UH( u8 const* p, std::size_t n ){ update( p, n ); }
  constexpr void update( u8 const* p, std::size_t n ){ for( std::size_t i = 0; i < n; ++i ){ s_ ^= p[i]; s_ *= 0x9E3779B97F4A7C15ull; s_ ^= s_ >> 31; } n_ += n; } void update( void const* p, std::size_t n ){ update( static_cast<u8 const*>( p ), n ); }
  constexpr u64 result(){ u64 r = s_ ^ n_ * 0xD6E8FEB86659FD93ull; s_ = s_ * 5 + 1; return r; } };
// a constexpr-friendly digest algorithm of the user's with a large block and a large result
class UB { u64 s_[ 33 ] = { 1, 2, 3 }; u64 n_ = 0; public: typedef h2::digest<260> result_type; static constexpr int block_size = 300;
  constexpr void update( u8 const* p, std::size_t n ){ for( std::size_t i = 0; i < n; ++i, ++n_ ){ s_[ n_ % 33 ] = ( s_[ n_ % 33 ] ^ p[i] ) * 0x9E3779B97F4A7C15ull + s_[ ( n_ + 7 ) % 33 ]; } } void update( void const* p, std::size_t n ){ update( static_cast<u8 const*>( p ), n ); }
  constexpr result_type result(){ result_type r; for( int i = 0; i < 260; ++i ) r[ i ] = (u8)( s_[ i / 8 ] >> i % 8 * 8 ^ n_ * 31 ^ s_[ 32 - i / 8 ] ); n_ += 5; s_[ n_ % 33 ] += 3; return r; } };
// user-defined flavors and types
struct FB16 { using size_type = u16; static constexpr auto byte_order = h2::endian::big; };
struct FL8 { using size_type = u8; static constexpr auto byte_order = h2::endian::little; };
enum E0 { e0 = 5 }; enum class E8: u8 { a = 200 }; enum class ES: short { a = -2 };
struct TI { int a; u16 b; template<class P, class H, class F> friend constexpr void tag_invoke( P const&, H& h, F const& f, TI const& v ){ h2::hash_append( h, f, v.b ); h2::hash_append( h, f, v.a ); } };
struct RG { typedef u32 value_type; typedef u32 const* const_iterator; u32 d[ 8 ]; std::size_t n; constexpr u32 const* begin() const { return d; } constexpr u32 const* end() const { return d + n; } constexpr u32 const* data() const { return d; } constexpr std::size_t size() const { return n; } };
// a range without data()
struct It { typedef std::forward_iterator_tag iterator_category; typedef short value_type; typedef std::ptrdiff_t difference_type; typedef short const* pointer; typedef short const& reference; short const* p; constexpr short const& operator*() const { return *p; } constexpr It& operator++(){ ++p; return *this; } constexpr It operator++( int ){ It t = *this; ++p; return t; } friend constexpr bool operator==( It a, It b ){ return a.p == b.p; } friend constexpr bool operator!=( It a, It b ){ return a.p != b.p; } };
struct LR { typedef short value_type; typedef It const_iterator; short d[ 8 ]; std::size_t n; constexpr It begin() const { return It{ d }; } constexpr It end() const { return It{ d + n }; } };
struct UR: LR {};   // unordered
#if __cplusplus >= 201703L
struct D0 {}; BOOST_DESCRIBE_STRUCT( D0, (), () )
struct D1 { int x; char c; double d; }; BOOST_DESCRIBE_STRUCT( D1, (), ( x, c, d ) )
struct D2: D1 { u16 v[3]; E8 e; }; BOOST_DESCRIBE_STRUCT( D2, ( D1 ), ( v, e ) )
#endif
constexpr u64 L( u8 const* d, int n ){ u64 r = 0; for( int i = 0; i < n; ++i ) r |= (u64)d[i] << 8 * i; return r; }
'''

def data_table(r, n=4096):
    mode = [r.randrange(256) for _ in range(n)]
    for _ in range(12):      # stretches of special bytes
        a = r.randrange(n); c = r.choice([0, 255, 128, 127])
        for i in range(a, min(n, a + r.randrange(40))): mode[i] = c
    return mode

class G:
    def __init__(s, seed, std, ndata=4096):
        s.r = random.Random(seed); s.std = std; s.k = 0; s.fns = []; s.desc = []; s.ndata = ndata; s.need = set()
    def off(s, n): return s.r.randrange(s.ndata - n - 8)
    def length(s, B, big):
        r = s.r; m = r.randrange(8)
        if m == 0: return 0
        if m == 1: return r.randrange(1, 6)
        if m in (2, 3): return max(0, B * r.randrange(0, 4) + r.randrange(-2, 3))
        if m == 4: return max(0, B - r.choice([1, 2, 8, 9, 16, 17]))
        if m == 5: return r.randrange(B + 1)
        if m == 6: return r.randrange(2 * B + 9)
        return r.randrange(big)
    def ctor(s, H, B, v="h"):
        r = s.r; m = r.randrange(7)
        if m < 2: return "h2::%s %s;" % (H, v)
        if m == 2: return "h2::%s %s( (std::uint64_t)0 );" % (H, v)
        if m < 5: return "h2::%s %s( (std::uint64_t)( s >> %d ) );" % (H, v, r.choice([0, 0, 1, 31, 32, 33, 63]))
        n = r.choice([0, 1, 3, 4, 7, 8, 15, 16, 17, B - 1, B, B + 1, 2 * B, r.randrange(3 * B + 10)])
        if n == 0 and r.randrange(2): return "h2::%s %s( (unsigned char const*)nullptr, 0 );" % (H, v)
        return "h2::%s %s( d + %d, %d );" % (H, v, s.off(n), n)
    def emit(s, body, desc):
        s.fns.append("constexpr Out f%d( u8 const* d, u64 s )\n{\n  Out o; (void)d; (void)s;\n%s  return o;\n}" % (s.k, "".join("  " + l + "\n" for l in body))); s.desc.append(desc); s.k += 1
    def history(s, H, B, big, first=None):
        r = s.r; b = [s.ctor(H, B)]; 
        nops = r.randrange(1, 7); outs = 0; cp = 0
        ops = []
        if first is not None: ops.append(("u", first))
        for _ in range(nops): ops.append((r.choice("uuuuucrr0sm"), None))
        for op, n in ops:
            if op == "u":
                n = s.length(B, big) if n is None else n; b.append("h.update( d + %d, %d );" % (s.off(n), n))
            elif op == "0": b.append("h.update( (unsigned char const*)nullptr, 0 );" if r.randrange(2) else "h.update( d, 0 );")
            elif op == "c" and outs < 6:
                n = s.length(B, B); cp += 1; outs += 1; b.append("{ h2::%s c( h ); c.update( d + %d, %d ); o.put( c.result() ); }" % (H, s.off(n), n))
            elif op == "s": b.append("{ h2::%s c; c = h; h = c; h = h; }" % H)
            elif op == "m": b.append("{ h2::%s c( std::move( h ) ); c.update( d + 7, 1 ); h = std::move( c ); }" % H)
            elif op == "r" and outs < 6: outs += 1; b.append("o.put( h.result() );")
        b.append("o.put( h.result() );")
        if r.randrange(3) == 0: b.append("o.put( h.result() );")
        s.emit(b, H + " " + " ".join(b))
    # --- appended values
    def value(s, depth=0):
        r = s.r; o = lambda n: "d + %d" % s.off(n)
        ints = [("bool", 1), ("char", 1), ("signed char", 1), ("unsigned char", 1), ("short", 2), ("unsigned short", 2), ("int", 4), ("unsigned", 4), ("long", 8), ("unsigned long", 8), ("long long", 8), ("unsigned long long", 8), ("char16_t", 2), ("char32_t", 4), ("wchar_t", 4)]
        if s.std >= 20: ints.append(("char8_t", 1))
        flts = [("float", ["0.0f", "-0.0f", "1.5f", "-3.25f", "1e-40f", "3.4e38f", "-1e-45f", "__builtin_inff()"]), ("double", ["0.0", "-0.0", "1.5", "-2.75e10", "5e-324", "1.7e308", "-__builtin_inf()"])]
        opt = ["int", "int", "flt", "enum", "carr", "carr2", "str", "pair", "tuple", "stdarr", "barr", "digest", "ti", "rg", "lr", "flarr", "boolarr"]
        if s.std >= 17: opt += ["desc", "desc", "sv", "desc0", "arr0"]
        if s.std >= 20: opt += ["vec", "string", "vecstr", "span", "vecbool"]
        k = r.choice(opt); t, n = r.choice(ints)
        c = lambda t, n: "(%s)L( %s, %d )" % (t, o(8), n) if t != "bool" else "( L( %s, 1 ) & 1 ) != 0" % o(8)
        if k == "int": return "%s const v = %s;" % (t, c(t, n))
        if k == "flt": f, vs = r.choice(flts); return "%s const v = %s;" % (f, r.choice(vs) if r.randrange(2) else "(%s)(std::int32_t)L( %s, 4 ) / 1024" % (f, o(8)))
        if k == "enum": e = r.choice(["E0", "E8", "ES"]); return "%s const v = %s;" % (e, "(E0)( L( %s, 1 ) & 7 )" % o(8) if e == "E0" else c(e, 1 if e == "E8" else 2))
        if k == "carr": m = r.choice([1, 2, 3, 5]); return "%s const v[ %d ] = { %s };" % (t, m, ", ".join(c(t, n) for _ in range(m)))
        if k == "carr2": return "%s const v[ 2 ][ 2 ] = { { %s, %s }, { %s, %s } };" % ((t,) + tuple(c(t, n) for _ in range(4)))
        if k == "flarr": return "double const v[ 3 ] = { -0.0, 0.0, (double)(short)L( %s, 2 ) };" % o(8)
        if k == "boolarr": return "bool const v[ 3 ] = { true, false, %s };" % c("bool", 1)
        if k == "str": p = r.choice(["", "u", "U", "L"] + (["u8"] if s.std >= 20 else [])); q = "".join(r.choice(["a", "\\x7f", "z", "\\0", "\\t", "Q"] + (["\\xff\"\"", "\\x80\"\""] if p == "" else [])) for _ in range(r.randrange(0, 9))).replace('\\xff""', '\\377').replace('\\x80""', '\\200').replace("\\x7f", "\\177").replace("\\0", "\\000"); return 'auto const& v = %s"%s";' % (p, q)
        if k == "pair": t2, n2 = r.choice(ints); return "std::pair<%s, %s> const v( %s, %s );" % (t, t2, c(t, n), c(t2, n2))
        if k == "tuple": t2, n2 = r.choice(ints); return r.choice(["std::tuple<%s, double, %s> const v( %s, 2.5, %s );" % (t, t2, c(t, n), c(t2, n2)), "std::tuple<> const v{};", "std::tuple<std::pair<%s, %s>, std::tuple<>, E8> const v( std::pair<%s, %s>( %s, %s ), std::tuple<>(), E8::a );" % (t, t2, t, t2, c(t, n), c(t2, n2))])
        if k == "stdarr": m = r.choice([1, 2, 4]); return "std::array<%s, %d> const v = {{ %s }};" % (t, m, ", ".join(c(t, n) for _ in range(m)))
        if k == "arr0": return "std::array<%s, 0> const v = {};" % t
        if k == "barr": m = r.choice([1, 2, 4]); return "boost::array<%s, %d> const v = {{ %s }};" % (t, m, ", ".join(c(t, n) for _ in range(m)))
        if k == "digest": m = r.choice([1, 7, 16, 20, 64]); return "h2::digest<%d> v; for( int i = 0; i < %d; ++i ) v[ i ] = d[ %d + i ];" % (m, m, s.off(m)) if s.std >= 20 else "h2::digest<%d> v{}; for( int i = 0; i < %d; ++i ) v[ i ] = d[ %d + i ];" % (m, m, s.off(m))
        if k == "ti": return "TI const v = { %s, %s };" % (c("int", 4), c("u16", 2))
        if k == "rg": m = r.randrange(0, 9); return "RG const v = { { %s }, %d };" % (", ".join(c("u32", 4) for _ in range(8)), m)
        if k == "lr": m = r.randrange(0, 9); return "LR const v = { { %s }, %d };" % (", ".join(c("short", 2) for _ in range(8)), m)
        if k == "desc": return r.choice(["D1 const v = { %s, %s, -0.0 };" % (c("int", 4), c("char", 1)), "D2 const v = { { %s, %s, 1.25 }, { 1, 2, %s }, E8::a };" % (c("int", 4), c("char", 1), c("u16", 2)), "std::pair<D1, D0> const v = { D1{ 1, 'x', 2 }, D0{} };", "D2 const v[ 2 ] = {};"])
        if k == "desc0": return r.choice(["D0 const v{};", "D0 const v[ 3 ] = {};", "std::array<D0, 2> const v{};"])
        if k == "sv": return 'std::string_view const v( "abcdefgh" + %d, %d );' % (r.randrange(3), r.randrange(6))
        if k == "vec": m = r.randrange(0, 7); return "std::vector<%s> const v = { %s };" % (t if t != "bool" else "short", ", ".join(c(t, n) if t != "bool" else c("short", 2) for _ in range(m)))
        if k == "vecbool": return "std::vector<bool> const v = { %s };" % ", ".join(c("bool", 1) for _ in range(r.randrange(1, 9)))
        if k == "string": return 'std::string v; for( int i = 0; i < %d; ++i ) v.push_back( (char)d[ %d + i ] );' % (r.randrange(0, 40), s.off(50))
        if k == "vecstr": return 'std::vector<std::string> v( 3 ); v[ 0 ].push_back( (char)200 ); for( int i = 0; i < %d; ++i ) v[ 2 ].push_back( (char)d[ i ] );' % r.randrange(0, 30)
        if k == "span": return "std::span<u8 const> const q( d + %d, %d ); auto const& v = q; " % (s.off(20), r.randrange(20))
    def append(s, algs):
        r = s.r; H, B = r.choice(algs); b = [s.ctor(H, B)] if H != "UH" else ["UH h( s );"]; fl = r.choice(["h2::default_flavor", "h2::little_endian_flavor", "h2::big_endian_flavor", "FB16", "FL8"]); T = "UH" if H == "UH" else "h2::" + H
        for _ in range(r.randrange(1, 5)):
            k = r.randrange(10)
            if k < 6: b.append("{ %s h2::hash_append( h, %s, v ); }" % (s.value(), r.choice(["{}", fl + "()"])))
            elif k == 6: n = r.randrange(20); b.append("h2::hash_append_range( h, %s(), d + %d, d + %d );" % (fl, 30, 30 + n))
            elif k == 7: b.append("{ short const a[] = { %s }; h2::%s( h, %s(), a + 0, a + %d ); h2::hash_append_sized_range( h, %s(), It{ a }, It{ a + 2 } ); }" % (", ".join("(short)L( d + %d, 2 )" % s.off(8) for _ in range(6)), r.choice(["hash_append_range", "hash_append_sized_range"]), fl, r.randrange(7), fl))
            elif k == 8: b.append("{ u32 const a[] = { %s }; h2::hash_append_unordered_range( h, %s(), a + 0, a + %d ); }" % (", ".join("(u32)L( d + %d, 4 )" % s.off(8) for _ in range(6)), fl, r.randrange(7)))
            else: b.append("h2::hash_append_size( h, %s(), %s );" % (fl, r.choice(["3", "s", "(u8)200", "L( d + 9, 8 )", "-1"])))
        b.append("o.put( h.result() );")
        b.append("{ auto r = h.result(); o.put( (u64)h2::get_integral_result<%s>( r ) ); }" % r.choice(["u8", "signed char", "short", "u16", "int", "u32", "long long", "u64", "std::size_t", "char", "wchar_t", "char16_t"]))
        s.emit(b, T + " " + fl + " " + " ".join(b))
    def reduce(s):
        r = s.r; b = []
        for _ in range(8):
            t = r.choice(["u8", "signed char", "char", "short", "u16", "int", "u32", "long long", "u64", "long", "wchar_t"]); k = r.randrange(6)
            src = ["(u8)L( d + %d, 1 )", "(u16)L( d + %d, 2 )", "(u32)L( d + %d, 4 )", "(u64)L( d + %d, 8 )", "std::array<u8, 16>{}", "0"][k]
            if k < 4: b.append("o.put( (u64)h2::get_integral_result<%s>( %s ) );" % (t, src % s.off(8)))
            else: n = r.choice([8, 16, 20, 64]); b.append("{ h2::digest<%d> q{}; for( int i = 0; i < %d; ++i ) q[ i ] = d[ %d + i ]; o.put( (u64)h2::get_integral_result<%s>( q ) ); }" % (n, n, s.off(n), t))
        s.emit(b, "get_integral_result " + " ".join(b))
    def digest(s):
        r = s.r; n = r.choice([1, 2, 4, 16, 20, 28, 32, 48, 64]); a = s.off(n); c = r.randrange(n)
        b = ["h2::digest<%d> x{}; for( int i = 0; i < %d; ++i ) x[ i ] = d[ %d + i ];" % (n, n, a), "h2::digest<%d> y( x ); h2::digest<%d> z{}; z = y;" % (n, n),
             "o.put( (u64)( x == y ) ); y[ %d ] ^= (u8)%d; o.put( (u64)( x == y ) * 2 + (u64)( x != y ) ); o.put( (u64)( z == x ) );" % (c, 1 << r.randrange(8)),
             "for( auto p = x.begin(); p != x.end(); ++p ) o.n += 0, o.b[ o.n++ ] = *p;", "o.put( (u64)x.front() << 8 | x.back() ); o.put( x.size() + x.max_size() ); o.put( (u64)( x.data() == &x[ 0 ] ) );",
             "x.front() = 7; x.back() ^= 1; *( x.begin() + %d ) ^= 3; x.data()[ %d ] += 5; o.put( x );" % (c, c),
             "{ char w[ %d ] = {}; to_chars( y, w ); for( char q: w ) o.b[ o.n++ ] = (u8)q; }" % (2 * n + 1 + r.choice([0, 0, 3])) if n <= 64 else "",
             "{ char w[ 200 ] = {}; char* e = h2::to_chars( z, w, w + %d ); o.put( e ? (u64)( e - w ) : 999u ); for( int i = 0; i < 40; ++i ) o.b[ o.n++ ] = (u8)w[ i ]; }" % r.choice([0, 2 * n - 1, 2 * n, 2 * n + 1, 200])]
        u = ", ".join(str(r.randrange(256)) for _ in range(n)); b.append("{ unsigned char const w[ %d ] = { %s }; h2::digest<%d> q( w ); o.put( q ); }" % (n, u, n)); 
        if n > 48: b = [x for x in b if "to_chars( y, w )" not in x]
        s.emit(b, "digest<%d> " % n + " ".join(b))
    # sizes beyond 255 in everything that is copied, compared, printed, fed or walked
    def big(s):
        r = s.r; n = r.choice([250, 255, 256, 257, 300, 512, 700, 1000]); a = s.off(n); c = r.choice([0, 1, n // 2, n - 1])
        s.emit(["unsigned char w[ %d ] = {}; for( int i = 0; i < %d; ++i ) w[ i ] = d[ %d + i ];" % (n, n, a), "h2::digest<%d> const x( w ); h2::digest<%d> y( x ); y[ %d ] ^= 64;" % (n, n, c), "o.put( (u64)( x == y ) * 4 + (u64)( x != y ) * 2 + (u64)( x == h2::digest<%d>( w ) ) );" % n,
                "u64 t = 0; for( auto p = x.begin(); p != x.end(); ++p ) t = t * 131 + *p; o.put( t ); o.put( x.size() );", "char b[ %d ] = {}; char* e = h2::to_chars( y, b, b + %d ); o.put( (u64)( e - b ) ); t = 0; for( char q: b ) t = t * 131 + (u8)q; o.put( t ); to_chars( y, b ); for( char q: b ) t = t * 131 + (u8)q; o.put( t );" % (2 * n + 1, 2 * n)], "digest<%d> from an array, compared and printed" % n)
        for H, B in [r.choice(PLAIN), r.choice(MD)]: b = [s.ctor(H, B)]; n1 = r.randrange(256, 3300); n2 = r.randrange(200, 700); b += ["h.update( d + %d, %d );" % (s.off(n1), n1), "h.update( d + %d, %d );" % (s.off(n2), n2), "o.put( h.result() );"]; s.emit(b, H + " " + " ".join(b))
        for H, B in [r.choice(PLAIN), r.choice(MD), r.choice(HMAC)]: n1 = r.choice([255, 256, 257, 300, r.randrange(256, 2000)]); b = ["h2::%s h( d + %d, %d );" % (H, s.off(n1), n1), "h.update( d + 3, %d );" % r.randrange(70), "o.put( h.result() );"]; s.emit(b, H + " " + " ".join(b))
        n1 = r.choice([0, 5, 260, 299, 300, 301, 700]); b = [r.choice(["h2::hmac<UB> h( d + %d, %d );" % (s.off(n1), n1), "h2::hmac<UB> h( s );"]), "h.update( d + 30, %d );" % r.randrange(900), "h2::digest<260> q = h.result(); u64 t = 0; for( auto c: q ) t = t * 131 + c; o.put( t );"]; s.emit(b, "hmac<UB> " + " ".join(b))
        m = r.choice([255, 256, 257, 300, 600]); o2 = s.off(m + 10); v = ["std::array<u16, %d> v = {}; for( int i = 0; i < %d; ++i ) const_cast<u16&>( static_cast<std::array<u16, %d> const&>( v )[ i ] ) = (u16)L( d + %d + i, 2 );" % (m, m, m, o2), "u8 v[ %d ] = {}; for( int i = 0; i < %d; ++i ) v[ i ] = d[ %d + i ];" % (m, m, o2), "char v[ %d ] = {}; for( int i = 0; i < %d; ++i ) v[ i ] = (char)d[ %d + i ];" % (m, m, o2), "double v[ %d ] = {}; for( int i = 0; i < %d; ++i ) v[ i ] = d[ %d + i ] - 128.0;" % (m, m, o2), "u16 v[ %d ][ 2 ] = {}; for( int i = 0; i < %d; ++i ) v[ i ][ i & 1 ] = d[ %d + i ];" % (m, m, o2), "h2::digest<%d> v{}; for( int i = 0; i < %d; ++i ) v[ i ] = d[ %d + i ];" % (m, m, o2)]
        if s.std >= 17: v.append("char q[ %d ] = {}; for( int i = 0; i < %d; ++i ) q[ i ] = (char)d[ %d + i ]; std::string_view const v( q, %d );" % (m, m, o2, m))
        if s.std >= 20: v += ["std::vector<u16> v; for( int i = 0; i < %d; ++i ) v.push_back( d[ %d + i ] );" % (m, o2), "std::string v; for( int i = 0; i < %d; ++i ) v.push_back( (char)d[ %d + i ] );" % (m, o2), "std::vector<bool> v; for( int i = 0; i < %d; ++i ) v.push_back( d[ %d + i ] & 1 );" % (m, o2), "std::span<u8 const> v( d + %d, %d );" % (o2, m)]
        for x in v:
            H = r.choice(["UH", "UH", "h2::xxhash_64", "h2::siphash_64", "h2::fnv1a_64", "h2::md5_128"]); fl = r.choice(["h2::default_flavor", "h2::big_endian_flavor", "FB16", "FL8"]); b = ["%s h( s );" % H, x, "h2::hash_append( h, %s(), v ); o.put( h.result() );" % fl]; s.emit(b, H + " " + fl + " " + " ".join(b))
        for call in ["hash_append_range", "hash_append_sized_range", "hash_append_unordered_range"]:
            b = ["UH h( s );", "short a[ %d ] = {}; for( int i = 0; i < %d; ++i ) a[ i ] = d[ %d + i ];" % (m, m, o2), "h2::%s( h, h2::default_flavor(), a + 0, a + %d ); o.put( h.result() );" % (call, m), "h2::%s( h, h2::big_endian_flavor(), It{ a }, It{ a + %d } ); o.put( h.result() );" % (call, m)]; s.emit(b, call + " over %d elements " % m + " ".join(b))
    def text(s, seed2):
        t = data_table(s.r, s.ndata)
        o = [PRE, "constexpr u8 table[] = {%s};" % ",".join(map(str, t))]
        o += s.fns
        args = ["%dull" % s.r.choice([0, 1, s.r.getrandbits(64), s.r.getrandbits(64), s.r.getrandbits(64), s.r.getrandbits(32), 2**64 - 1, 2**32]) for _ in s.fns]
        for i in range(s.k): o.append("constexpr Out c%d = f%d( table, %s );" % (i, i, args[i]))
        o.append("struct Case { Out (*f)( u8 const*, u64 ); Out const* c; u64 s; char const* n; };")
        q = lambda x: '"' + x.replace("\\", "\\\\").replace('"', '\\"')[:700] + '"'
        o.append("static Case const cases[] = {\n" + ",\n".join("{ f%d, &c%d, %s, %s }" % (i, i, args[i], q(s.desc[i])) for i in range(s.k)) + " };")
        o.append(r'''
int main()
{
    vf::Log& l = vf::lg();
    for( int al = 0; al < 3; ++al )
    {
        u8* heap = (u8*)std::malloc( sizeof table + 16 ); u8* p = heap + al * 3; std::memcpy( p, table, sizeof table );
        for( Case const& c: cases )
        {
            Out (* volatile f)( u8 const*, u64 ) = c.f; Out r = f( p, c.s ); l.distinct( vf::fp( r.b, r.n, vf::fp( c.n ) ) );
            if( r.n != c.c->n || std::memcmp( r.b, c.c->b, r.n ) != 0 ) l.violation( std::string( "constexpr " ) + std::string( c.n ).substr( 0, 60 ), std::string( c.n ) + ": evaluated by the compiler gives " + vf::hex( c.c->b, c.c->n, 120 ) + ", at run time " + vf::hex( r.b, r.n, 120 ) );
        }
        std::free( heap );
    }
    l.count( "programs evaluated at compile time and run time", sizeof cases / sizeof cases[0] ); l.sample( cases[ 0 ].n ); l.sample( cases[ sizeof cases / sizeof cases[0] - 1 ].n );
    return l.finish();
}
''')
        return "\n".join(o) + "\n"

def make(kind, seed, std, mult=1):
    g = G("%s/%s/%s" % (kind, seed, std), int(std)); r = g.r
    if kind == "plain":
        for H, B in PLAIN:
            for n in range(0, 3 * B + 3): g.history(H, B, 200, first=n if r.randrange(2) else n + r.randrange(B + 1))
            for _ in range(12 * mult): g.history(H, B, 300)
    elif kind == "md":
        for H, B in MD:
            for n in (0, 1, B - 17, B - 16, B - 9, B - 8, B - 1, B, B + 1, 2 * B - 9, 2 * B - 1, 2 * B, 2 * B + 1): g.history(H, B, 300, first=n)
            for _ in range(5 * mult): g.history(H, B, 300)
    elif kind == "hmac":
        for H, B in HMAC:
            for _ in range(7 * mult): g.history(H, B, 200)
    elif kind == "append":
        fast = [("fnv1a_32", 1), ("fnv1a_64", 1), ("xxhash_32", 16), ("xxhash_64", 32), ("siphash_32", 4), ("siphash_64", 8), ("UH", 8), ("UH", 8), ("md5_128", 64)]
        for _ in range(150 * mult): g.append(fast)
        for a in MD + HMAC: g.append([a])
    elif kind == "big":
        for _ in range(2 * mult): g.big()
    elif kind == "misc":
        for _ in range(30 * mult): g.digest()
        for _ in range(50 * mult): g.reduce()
        for _ in range(40 * mult): g.append([("UH", 8), ("xxhash_64", 32)])
    return g.text(seed)

if __name__ == "__main__":
    import sys; sys.stdout.write(make(sys.argv[1], sys.argv[2], sys.argv[3]))
