// C21: hashing a value with any algorithm is feeding that algorithm the value's message. The message is recorded once
// with a recording algorithm; every algorithm must then agree with itself fed the recorded bytes, over sequences of
// values of mixed types interleaved with plain updates and results. -DVF_GROUP selects the algorithms.
#include "algs.hpp"
#include "types.hpp"
#include <boost/hash2/get_integral_result.hpp>
using namespace vf;
#ifndef VF_GROUP
# define VF_GROUP 0
#endif

// the least the documentation asks of an algorithm; everything that can be taken away is
template<class R, int Tag> struct Min final
{
    typedef R result_type;
    Min(): s( 99 + Tag ){} explicit Min( std::uint64_t x ): s( 99 + Tag ){ if( x ) mix( x ); } Min( unsigned char const* p, std::size_t n ): s( 99 + Tag ){ update( p, n ); }
    Min( Min const& r ): s( r.s ){} Min& operator=( Min const& r ){ s = r.s; return *this; }
    void update( void const* p, std::size_t n ){ touch( p, n ); unsigned char const* q = static_cast<unsigned char const*>( p ); for( std::size_t i = 0; i < n; ++i ){ s = ( s ^ q[i] ) * 0x100000001B3ull; s ^= s >> 27; } }
    R result(){ mix( 0xABCDEF ); return make( (R*)nullptr ); }
    Min* operator&() = delete; Min const* operator&() const = delete; template<class T> void operator,( T&& ) = delete; bool operator==( Min const& ) const = delete; static void* operator new( std::size_t ) = delete; static void operator delete( void* ) = delete;
private:
    u64 s; void mix( u64 x ){ s ^= x * 0x9E3779B97F4A7C15ull; s *= 0xD6E8FEB86659FD93ull; s ^= s >> 32; }
    template<class U> typename std::enable_if<std::is_integral<U>::value, U>::type make( U* ){ return (U)s; }
    template<std::size_t N> std::array<unsigned char, N> make( std::array<unsigned char, N>* ){ std::array<unsigned char, N> a; for( std::size_t i = 0; i < N; ++i ) a[i] = (unsigned char)( s >> 8 * ( i % 8 ) ^ i ); return a; }
    template<std::size_t N> h2::digest<N> make( h2::digest<N>* ){ h2::digest<N> a; for( std::size_t i = 0; i < N; ++i ) a[i] = (unsigned char)( s >> 8 * ( i % 8 ) ^ i ); return a; }
};
// a user algorithm with a block size, so that HMAC can be built over it
struct Blk { typedef std::array<unsigned char, 16> result_type; static constexpr int block_size = 24; Min<std::array<unsigned char, 16>, 3> m; Blk(){} explicit Blk( std::uint64_t s ): m( s ){} Blk( unsigned char const* p, std::size_t n ): m( p, n ){} void update( void const* p, std::size_t n ){ m.update( p, n ); } void update( unsigned char const* p, std::size_t n ){ m.update( p, n ); } result_type result(){ return m.result(); } };
// a forwarding wrapper, as users write to trace or combine algorithms
template<class A, class B> struct Tee { typedef typename A::result_type result_type; A a; B b; Tee(){} explicit Tee( std::uint64_t s ): a( s ), b( s ){} Tee( unsigned char const* p, std::size_t n ): a( p, n ), b( p, n ){} void update( void const* p, std::size_t n ){ a.update( p, n ); b.update( p, n ); } result_type result(){ b.result(); return a.result(); } };

#if VF_GROUP == 0
# define ALGS( X ) X( h2::fnv1a_32 ) X( h2::fnv1a_64 ) X( h2::xxhash_32 ) X( h2::xxhash_64 ) X( h2::siphash_32 ) X( h2::siphash_64 )
#elif VF_GROUP == 1
# define ALGS( X ) X( h2::md5_128 ) X( h2::sha1_160 ) X( h2::sha2_256 ) X( h2::sha2_224 ) X( h2::sha2_512 ) X( h2::sha2_384 )
#elif VF_GROUP == 2
# define ALGS( X ) X( h2::sha2_512_256 ) X( h2::sha2_512_224 ) X( h2::ripemd_160 ) X( h2::ripemd_128 ) X( h2::hmac_md5_128 ) X( h2::hmac_sha2_256 )
#elif VF_GROUP == 3
# define ALGS( X ) X( h2::hmac_sha1_160 ) X( h2::hmac_sha2_512 ) X( h2::hmac_ripemd_160 ) X( h2::murmur3_32 ) X( h2::murmur3_128 ) X( h2::spooky2_128 )
#elif VF_GROUP == 4
typedef Min<unsigned char, 0> Min8; typedef Min<unsigned short, 1> Min16; typedef Min<u32, 2> Min32; typedef Min<u64, 3> Min64; typedef Min<unsigned long long, 4> MinULL;
# define ALGS( X ) X( Min8 ) X( Min16 ) X( Min32 ) X( Min64 ) X( MinULL )
#else
typedef Min<std::array<unsigned char, 8>, 0> MinA8; typedef Min<h2::digest<21>, 2> MinD21; typedef h2::hmac<Blk> HmacBlk; typedef Tee<h2::sha2_256, h2::fnv1a_64> TeeSF; typedef h2::hmac<h2::sha2_512_224> HmacS;
# define ALGS( X ) X( MinA8 ) X( MinD21 ) X( HmacBlk ) X( TeeSF ) X( HmacS ) X( Blk )
#endif

#define TYPES( X ) X( int ) X( unsigned char ) X( long long ) X( bool ) X( char16_t ) X( double ) X( float ) X( ut::ES ) X( ut::E8 ) X( int* ) X( std::string ) X( std::u16string ) X( std::vector<int> ) X( std::vector<unsigned char> ) X( std::vector<float> ) X( std::vector<bool> ) X( std::list<short> ) \
    X( std::map<int, std::string> ) X( std::array<int, 3> ) X( h2::digest<16> ) X( std::array<int, 0> ) X( std::pair<char, long> ) X( std::tuple<> ) X( ut::D0 ) X( ut::DMulti ) X( ut::DArr ) X( ut::TI ) X( ut::TS ) X( ut::Contig ) X( ut::Contig1 ) X( ut::CRange<int> ) X( std::vector<std::vector<ut::Contig1>> )

// one fixed pool of values per type; a sequence of operations picks from it
template<class T> struct Pool { static std::vector<T>& v(){ static std::vector<T> p; return p; } };
enum { POOL = 24 };
template<class T> static void fill_pool( Rng& r ){ auto& p = Pool<T>::v(); p.clear(); for( int i = 0; i < POOL; ++i ) p.push_back( gen<T>( r ) ); }
template<> void fill_pool<bool>( Rng& r ){ auto& p = Pool<bool>::v(); p.clear(); for( int i = 0; i < POOL; ++i ) p.push_back( i & 1 ); }

template<class H, class F> struct App { void (*go)( H&, int ); bytes (*msg)( int ); char const* name; };
template<class H, class F, class T> static void go1( H& h, int i ){ T const v = Pool<T>::v()[i]; h2::hash_append( h, F(), v ); }
template<class H, class F, class T> static void goarr( H& h, int i ){ T a[3] = { Pool<T>::v()[i], Pool<T>::v()[ ( i + 1 ) % POOL ], Pool<T>::v()[ ( i + 2 ) % POOL ] }; h2::hash_append( h, F(), a ); }
template<class H, class F, class T> static void gorange( H& h, int i ){ auto const& p = Pool<T>::v(); h2::hash_append_range( h, F(), p.begin() + i / 2, p.begin() + i ); }
template<class H, class F, class T> static void gosized( H& h, int i ){ auto const& p = Pool<T>::v(); h2::hash_append_sized_range( h, F(), p.begin() + i / 3, p.begin() + i ); }
template<void (*f)( Rec&, int )> static bytes m1( int i ){ Rec r; f( r, i ); return r.log; }
template<class H, class F> static std::vector<App<H, F>> const& apps()
{
    static std::vector<App<H, F>> const v = {
#define X( ... ) { go1<H, F, __VA_ARGS__>, m1<go1<Rec, F, __VA_ARGS__>>, #__VA_ARGS__ },
        TYPES( X )
#undef X
#define X( ... ) { goarr<H, F, __VA_ARGS__>, m1<goarr<Rec, F, __VA_ARGS__>>, #__VA_ARGS__ "[3]" }, { gorange<H, F, __VA_ARGS__>, m1<gorange<Rec, F, __VA_ARGS__>>, "range of " #__VA_ARGS__ }, { gosized<H, F, __VA_ARGS__>, m1<gosized<Rec, F, __VA_ARGS__>>, "sized range of " #__VA_ARGS__ },
        X( unsigned char ) X( int ) X( std::string ) X( float ) X( ut::Contig1 )
#undef X
    };
    return v;
}
template<class H> static H make( Rng& r, std::string& how ){ switch( r.below( 3 ) ){ case 0: how = "()"; return H(); case 1: { u64 s = r.next(); how = "(" + std::to_string( s ) + ")"; return H( s ); } default: { bytes b = r.buf( 1 + r.below( 40 ) ); how = "(" + hex( b ) + ")"; return H( b.data(), b.size() ); } } }

template<class H, class F> static void sequences( char const* hn, Rng& r )
{
    auto const& v = apps<H, F>(); char const* fn = flavor_of<F>().name;
    for( u64 k = 0; k < 4000 * scale(); ++k )
    {
        std::string how; H a( make<H>( r, how ) ), b( a ); std::string what; int n = k < v.size() ? 1 : 1 + (int)r.below( 6 ); u64 f = fp( std::string( hn ) + fn + how ); bytes x, y; bool split = r.chance( 1, 2 );
        for( int i = 0; i < n; ++i )
        {
            int t = k < v.size() ? (int)k : (int)r.below( v.size() ), e = (int)r.below( POOL ); bytes m = v[t].msg( e ); what += std::string( i ? ", " : "" ) + v[t].name; f = fp( m.data(), m.size(), f );
            v[t].go( a, e );
            std::size_t c = split && m.size() ? r.below( m.size() + 1 ) : m.size(); b.update( m.data(), c ); if( c < m.size() ) b.update( m.data() + c, m.size() - c );
            if( r.chance( 1, 5 ) ){ bytes z = r.buf( r.below( 100 ) ); a.update( z.data(), z.size() ); b.update( z.data(), z.size() ); what += ", update"; }
            if( r.chance( 1, 8 ) ){ x = rbytes( a.result() ); y = rbytes( b.result() ); what += ", result"; if( x != y ) break; }
        }
        if( x == y ){ x = rbytes( a.result() ); y = rbytes( b.result() ); } lg().distinct( f );
        if( x != y ) lg().violation( std::string( "algorithm " ) + hn + " " + ( n == 1 ? what : std::string( "sequence" ) ), std::string( hn ) + how + " " + fn + ": appending " + what + " gives " + hex( x ) + ", the recorded message gives " + hex( y ) );
    }
}
// unordered ranges depend on the algorithm: elements hashed from copies of the current state, summed, then the size
template<class H, class F> static void unordered( char const* hn, Rng& r )
{
    for( u64 k = 0; k < 800 * scale(); ++k )
    {
        std::string how; H a( make<H>( r, how ) ), b( a ); bytes z = r.buf( r.below( 60 ) ); a.update( z.data(), z.size() ); b.update( z.data(), z.size() ); std::vector<std::string> v = gen<std::vector<std::string>>( r );
        h2::hash_append_unordered_range( a, F(), v.begin(), v.end() ); u64 w = 0; for( auto const& s: v ){ H t( b ); bytes m = expected<F, Rec>( s ); t.update( m.data(), m.size() ); w += h2::get_integral_result<std::uint64_t>( t.result() ); }
        Ctx c; c.f = flavor_of<F>(); c.num( w, 8 ); c.size( v.size() ); b.update( c.m.data(), c.m.size() ); bytes x = rbytes( a.result() ), y = rbytes( b.result() ); lg().distinct( fpv( w, fp( hn ) ) );
        if( x != y ) lg().violation( std::string( "unordered " ) + hn, std::string( hn ) + how + ": unordered range of " + std::to_string( v.size() ) + " strings gives " + hex( x ) + " expected " + hex( y ) );
    }
}
int main()
{
    Rng r( seed() * 2750159 + VF_GROUP );
#define X( ... ) fill_pool<__VA_ARGS__>( r );
    TYPES( X )
#undef X
#define X( H ) sequences<H, h2::default_flavor>( #H, r ); sequences<H, h2::big_endian_flavor>( #H, r ); unordered<H, FlavB32>( #H, r ); unordered<H, h2::default_flavor>( #H, r ); lg().count( "algorithms" );
    ALGS( X )
#undef X
    lg().sample( "1 to 6 values of 32 types (alone, in arrays, in ranges) appended to one object, with plain updates and results in between, against the recorded message fed to a copy" );
    return lg().finish();
}
