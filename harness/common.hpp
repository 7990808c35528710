// Common support for the monitors: seeded PRNG, event/violation log, coverage counters.
// A driver writes its observations to the file named by VERIF_OUT, one record per line:
//   V <key>\t<message>      a violation (key identifies the failing call site / input class)
//   C <name>\t<count>       a measured counter
//   X <text>                a sample case, written out
//   D <hex64>               (folded) number of distinct non-trivial cases is reported as a counter
// Nothing here depends on the code under test.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unordered_set>
#include <mutex>

namespace vf
{
typedef unsigned char u8;
typedef std::uint16_t u16;
typedef std::uint32_t u32;
typedef std::uint64_t u64;
typedef std::vector<u8> bytes;

// ---------------------------------------------------------------- PRNG (xoshiro256**, splitmix seeded)
struct Rng
{
    u64 s[4];
    static u64 sm( u64& x ){ x += 0x9E3779B97F4A7C15ull; u64 z = x; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    explicit Rng( u64 seed = 1 ){ for( int i = 0; i < 4; ++i ) s[i] = sm( seed ); }
    static u64 rl( u64 x, int k ){ return (x << k) | (x >> (64 - k)); }
    u64 next(){ u64 r = rl( s[1] * 5, 7 ) * 9; u64 t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rl( s[3], 45 ); return r; }
    u64 below( u64 n ){ return n ? next() % n : 0; }
    u64 range( u64 a, u64 b ){ return a + below( b - a + 1 ); }
    bool chance( unsigned num, unsigned den ){ return below( den ) < num; }
    void fill( u8* p, std::size_t n ){ for( std::size_t i = 0; i < n; ++i ) p[i] = (u8)( next() >> 32 ); }
    bytes buf( std::size_t n ){ bytes v( n ); if( n ) fill( v.data(), n ); return v; }
    template<class T> T const& pick( std::vector<T> const& v ){ return v[ below( v.size() ) ]; }
};

inline u64 envnum( char const* n, u64 d ){ char const* s = std::getenv( n ); return s && *s ? std::strtoull( s, nullptr, 10 ) : d; }
inline u64 seed(){ return envnum( "VERIF_SEED", 1 ); }
inline bool thorough(){ char const* s = std::getenv( "VERIF_TIER" ); return s && std::strcmp( s, "thorough" ) == 0; }
// scale factor for workloads (drivers multiply case counts by it)
inline u64 scale(){ return envnum( "VERIF_SCALE", thorough() ? 8 : 1 ); }

inline u64 fp( void const* p, std::size_t n, u64 h = 0x243F6A8885A308D3ull )
{
    u8 const* q = static_cast<u8 const*>( p );
    for( std::size_t i = 0; i < n; ++i ){ h ^= q[i]; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; }
    return h;
}
inline u64 fp( std::string const& s, u64 h = 0x243F6A8885A308D3ull ){ return fp( s.data(), s.size(), h ); }
inline u64 fpv( u64 v, u64 h ){ return fp( &v, 8, h ); }

inline std::string hex( void const* p, std::size_t n, std::size_t maxn = 64 )
{
    static char const d[] = "0123456789abcdef";
    u8 const* q = static_cast<u8 const*>( p );
    std::string r; std::size_t m = n < maxn ? n : maxn;
    for( std::size_t i = 0; i < m; ++i ){ r += d[ q[i] >> 4 ]; r += d[ q[i] & 15 ]; }
    if( m < n ) r += "..(" + std::to_string( n ) + "B)";
    return r;
}
inline std::string hex( bytes const& b, std::size_t maxn = 64 ){ return hex( b.data(), b.size(), maxn ); }

// ---------------------------------------------------------------- log
struct Log
{
    std::FILE* f;
    std::mutex mx;
    std::map<std::string, u64> counters;
    std::unordered_set<u64> seen;
    u64 evals = 0;
    std::map<std::string, int> perkey;
    int nsamples = 0; u64 nviol = 0;
    Log(): f( nullptr )
    {
        char const* fn = std::getenv( "VERIF_OUT" );
        f = fn && *fn ? std::fopen( fn, "a" ) : stdout;
        if( !f ){ std::perror( "VERIF_OUT" ); std::exit( 3 ); }
    }
    ~Log(){ }
    static std::string clean( std::string s ){ for( char& c: s ) if( c == '\n' || c == '\t' || c == '\r' ) c = ' '; return s; }
    void violation( std::string const& key, std::string const& msg )
    {
        std::lock_guard<std::mutex> l( mx );
        ++nviol;
        if( perkey[ key ]++ >= 3 ) return;           // keep logs short; the count is kept
        std::fprintf( f, "V %s\t%s\n", clean( key ).c_str(), clean( msg ).c_str() ); std::fflush( f );
    }
    void eval( u64 n = 1 ){ evals += n; }
    // returns true when the case was not seen before
    bool distinct( u64 fingerprint ){ ++evals; return seen.insert( fingerprint ).second; }
    void count( std::string const& n, u64 k = 1 ){ std::lock_guard<std::mutex> l( mx ); counters[ n ] += k; }
    void sample( std::string const& s ){ if( nsamples++ < 4 ){ std::fprintf( f, "X %s\n", clean( s ).c_str() ); std::fflush( f ); } }
    int finish()
    {
        for( auto const& c: counters ) std::fprintf( f, "C %s\t%llu\n", clean( c.first ).c_str(), (unsigned long long)c.second );
        std::fprintf( f, "C evaluations\t%llu\n", (unsigned long long)evals );
        std::fprintf( f, "C distinct\t%llu\n", (unsigned long long)seen.size() );
        std::fprintf( f, "C violations_seen\t%llu\n", (unsigned long long)nviol );
        std::fprintf( f, "E done\n" ); std::fflush( f );
        return nviol ? 1 : 0;
    }
};
inline Log& lg(){ static Log l; return l; }
} // namespace vf
#include <cstdlib>
#if defined(BOOST_ENABLE_ASSERT_HANDLER)
namespace boost { inline void assertion_failed( char const* e, char const* fn, char const* file, long line ){ std::string f( file ); vf::lg().violation( "assertion " + f.substr( f.rfind( '/' ) + 1 ) + ":" + std::to_string( line ), std::string( "assertion failed: " ) + e + " in " + fn ); vf::lg().finish(); std::_Exit( 1 ); } inline void assertion_failed_msg( char const* e, char const*, char const* fn, char const* file, long line ){ assertion_failed( e, fn, file, line ); } }
#endif
#endif
