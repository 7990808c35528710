// C09: memory and undefined-behaviour monitor. Random histories over objects placed flush against inaccessible pages or
// between canaries in storage prefilled with different patterns; messages, keys and seeds lie in read-only pages flush
// against inaccessible ones. Built plain, with sanitizers and for valgrind; the observations are faults, sanitizer
// reports, damaged canaries, failed assertions, unbalanced allocations, and results that depend on the prefill.
#include "algs.hpp"
#include "rec.hpp"
#include <boost/hash2/hash_append.hpp>
#include <boost/hash2/get_integral_result.hpp>
#include <sys/mman.h>
#include <malloc.h>
#include <list>
using namespace vf;

#if defined(VF_COUNT_NEW)
static long g_live = 0; static u64 g_news = 0;
void* operator new( std::size_t n ){ ++g_live; ++g_news; void* p = std::malloc( n ? n : 1 ); if( !p ) std::abort(); return p; }
void operator delete( void* p ) noexcept { if( p ){ --g_live; std::free( p ); } }
void operator delete( void* p, std::size_t ) noexcept { if( p ){ --g_live; std::free( p ); } }
#endif

enum { PG = 4096, AREA = 8 * PG };
// [guard][AREA bytes][guard]
static u8* area( int prot ){ u8* p = (u8*)mmap( nullptr, AREA + 2 * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 ); if( p == MAP_FAILED ) std::exit( 3 ); Rng r( seed() + 4 ); r.fill( p + PG, AREA ); if( mprotect( p, PG, PROT_NONE ) || mprotect( p + PG + AREA, PG, PROT_NONE ) || mprotect( p + PG, AREA, prot ) ) std::exit( 3 ); return p + PG; }
struct Inputs
{
    u8* ro; Inputs(): ro( area( PROT_READ ) ){}
    // n bytes ending right before (or starting right after) an inaccessible page, or anywhere
    u8 const* get( Rng& r, std::size_t n ) const { switch( r.below( 4 ) ){ case 0: return ro; case 1: return ro + r.below( AREA - n + 1 ); default: return ro + AREA - n; } }
};
static Inputs const& inputs(){ static Inputs const i; return i; }

// storage for objects of one type: three places with different fills
template<class H> struct Place
{
    u8* base; std::size_t off; u8 fill;
    Place( int how, u8 f ): base( area( PROT_READ | PROT_WRITE ) ), fill( f ) { std::size_t end = AREA - sizeof( H ); off = how == 0 ? end - end % alignof( H ) : how == 1 ? 0 : PG + ( 1 + 2 * ( f & 7 ) ) * alignof( H ); std::memset( base, f, AREA ); }
    ~Place(){ munmap( base - PG, AREA + 2 * PG ); }
    H* at(){ return reinterpret_cast<H*>( base + off ); }
    void refill( u8 f ){ fill = f; std::memset( base + ( off > 512 ? off - 512 : 0 ), f, ( off > 512 ? 512 : off ) + sizeof( H ) + ( AREA - off - sizeof( H ) < 512 ? AREA - off - sizeof( H ) : 512 ) ); }
    bool intact() const { std::size_t a = off > 512 ? off - 512 : 0, b = off + sizeof( H ), e = b + 512 < AREA ? b + 512 : AREA; for( std::size_t i = a; i < off; ++i ) if( base[i] != fill ) return false; for( std::size_t i = b; i < e; ++i ) if( base[i] != fill ) return false; return true; }
};

template<class H> static void histories( char const* hn, std::size_t B, u64 n )
{
    Rng r( seed() * 3497861 + fp( hn ) ); Inputs const& in = inputs();
    enum { K = 3 }; Place<H> p[ K ] = { Place<H>( 0, 0x00 ), Place<H>( 1, 0xFF ), Place<H>( 2, 0xA7 ) }; // the same history runs in all three
    for( u64 k = 0; k < n; ++k )
    {
        std::string how; H* o[ K ]; u64 f = fp( hn );
        for( auto& q: p ) q.refill( (u8)( k % 3 == 0 ? (int)( &q - p ) * 0x7F : r.next() ) );
        { int c = (int)r.below( 3 ); u64 s = r.next() >> r.below( 64 ); std::size_t m = gen_any( r, B, 3 * B + 40 ); if( r.chance( 1, 3 ) ) m = ( m > 17 ? 16 : m > 8 ? 8 : m ); u8 const* b = m == 0 && r.chance( 1, 2 ) ? nullptr : in.get( r, m );
          for( int i = 0; i < K; ++i ) o[i] = c == 0 ? ( r.chance( 1, 2 ), ::new( (void*)p[i].at() ) H ) : c == 1 ? ::new( (void*)p[i].at() ) H( (std::uint64_t)s ) : ::new( (void*)p[i].at() ) H( b, m ); how = c == 0 ? "()" : c == 1 ? "(seed)" : b ? "(" + std::to_string( m ) + " bytes)" : "(null, 0)"; }
        int len = 1 + (int)r.below( 14 );
        for( int i = 0; i < len; ++i )
        {
            int op = (int)r.below( 12 ); std::size_t m = op < 2 ? 0 : gen_any( r, B, 6 * B + 60, 16, AREA - 40 ); u8 const* b = in.get( r, m ); bool uc = r.chance( 1, 2 ); int w = (int)r.below( K );
            if( op == 0 ){ how += " null"; for( H* x: o ){ if( uc ) x->update( (unsigned char const*)nullptr, 0 ); else x->update( (void const*)nullptr, 0 ); } }
            else if( op < 8 ){ how += " u" + std::to_string( m ); for( H* x: o ){ if( uc ) x->update( (unsigned char const*)b, m ); else x->update( (void const*)b, m ); } }
            else if( op == 8 ){ how += " copy"; H c( *o[w] ); *o[w] = c; H d; d = c; for( H* x: o ) *x = d; }
            else if( op == 9 ){ how += " self"; H& a = *o[w]; a = *o[w]; }
            else if( op == 10 ){ how += " move"; H c( std::move( *o[w] ) ); o[w]->~H(); p[w].refill( (u8)r.next() ); o[w] = ::new( (void*)p[w].at() ) H( std::move( c ) ); }
            else { how += " r"; bytes g = rbytes( o[0]->result() ); for( int j = 1; j < K; ++j ){ bytes h = rbytes( o[j]->result() ); if( g != h ) { lg().violation( std::string( "indeterminate " ) + hn, std::string( hn ) + how + ": the same history gives " + hex( g ) + " and " + hex( h ) + " in storage with other previous contents" ); } } }
            f = fpv( op << 20 | m, f );
            for( int j = 0; j < K; ++j ) if( !p[j].intact() ){ lg().violation( std::string( "out of bounds write " ) + hn, std::string( hn ) + how + ": bytes around the object were overwritten" ); p[j].refill( 1 ); }
        }
        bytes g = rbytes( o[0]->result() ); VF_CHECK_MEM( g.data(), g.size() ); for( int j = 1; j < K; ++j ){ bytes h = rbytes( o[j]->result() ); if( g != h ) lg().violation( std::string( "indeterminate " ) + hn, std::string( hn ) + how + ": the same history gives " + hex( g ) + " and " + hex( h ) + " in storage with other previous contents" ); }
        for( int j = 0; j < K; ++j ){ o[j]->~H(); if( !p[j].intact() ) lg().violation( std::string( "out of bounds write " ) + hn, std::string( hn ) + how + ": bytes around the object were overwritten" ); }
        lg().distinct( f ); if( k == 5 && std::strcmp( hn, "sha2_512" ) == 0 ) lg().sample( std::string( hn ) + how );
    }
    lg().count( "histories", n );
}
// append functions reading exactly the ranges they are given
template<class T> struct Span_ { typedef T value_type; typedef T const* const_iterator; T const* p; std::size_t n; T const* begin() const { return p; } T const* end() const { return p + n; } T const* data() const { return p; } std::size_t size() const { return n; } };
template<class H, class F, class T> static void appends( char const* tn, u64 n )
{
    Rng r( seed() * 49979687 + fp( tn ) ); Inputs const& in = inputs();
    for( u64 k = 0; k < n; ++k )
    {
        std::size_t m = r.below( k % 31 == 5 ? 1 + AREA / sizeof( T ) : k % 7 ? 20 : 600 ); u8 const* b = in.get( r, m * sizeof( T ) ); b -= (std::uintptr_t)b % alignof( T ) && b + m * sizeof( T ) <= in.ro + AREA ? (std::uintptr_t)b % alignof( T ) : 0; T const* t = reinterpret_cast<T const*>( b ); if( m == 0 && r.chance( 1, 3 ) ) t = nullptr;
        H h; Span_<T> s{ t, m }; h2::hash_append( h, F(), s ); h2::hash_append_range( h, F(), t, t + m ); h2::hash_append_sized_range( h, F(), t, t + m ); h2::hash_append_unordered_range( h, F(), t, t + ( m < 700 ? m : 700 ) ); if( m ) h2::hash_append( h, F(), t[ m - 1 ] ); if( m >= 3 ) h2::hash_append( h, F(), *reinterpret_cast<T const( * )[3]>( t + m - 3 ) );
        auto x = h.result(); auto y = h2::get_integral_result<std::size_t>( x ); VF_CHECK_MEM( &y, sizeof y ); (void)y; lg().distinct( fpv( m, fp( tn ) ) + k );
    }
    lg().count( "ranges appended", n );
}

int main()
{
    u64 const n = 60 * scale() * ( std::getenv( "VF_MULT" ) ? std::atoi( std::getenv( "VF_MULT" ) ) : 10 );
#if defined(VF_COUNT_NEW)
    lg(); inputs(); { Rng r( 1 ); }
#endif
#define X( c, k, m ) histories<h2::c>( #c, ref_block( k, ref::m ), n );
    VF_ALL( X )
#undef X
#define X( T ) appends<h2::xxhash_64, h2::default_flavor, T>( #T, n ); appends<h2::sha2_256, h2::big_endian_flavor, T>( #T " big", n ); appends<Rec, h2::little_endian_flavor, T>( #T " rec", n );
    X( unsigned char ) X( char ) X( short ) X( int ) X( long long ) X( float ) X( double ) X( char32_t )
#undef X
#if defined(VF_COUNT_NEW)
    // the algorithms and append functions neither leak nor allocate: drive them alone and watch the allocator
    {
        Rng r( 7 ); static u8 buf[ 3000 ]; r.fill( buf, sizeof buf ); long l0 = g_live; u64 n0 = g_news; struct mallinfo2 a = mallinfo2();
#define X( c, k, m ) for( int i = 0; i < 200; ++i ){ h2::c h, g( (std::uint64_t)i ), j( buf, i * 3 ); h.update( buf, i ); g = h; g.update( buf, i * 11 ); g.result(); j.update( buf, i ); j.result(); h.result(); h = h2::c( j ); h2::hash_append( h, {}, i ); h2::hash_append( h, {}, 2.5 ); h2::hash_append_unordered_range( h, {}, buf + 0, buf + i ); h2::hash_append_sized_range( h, {}, buf + 0, buf + i ); (void)h2::get_integral_result<int>( h.result() ); }
        VF_ALL( X )
#undef X
        struct mallinfo2 b = mallinfo2(); long l1 = g_live; u64 n1 = g_news; lg().eval(); lg().count( "allocations seen in algorithm code", n1 - n0 );
        if( l1 != l0 || b.uordblks != a.uordblks ) lg().violation( "leak", "algorithm and append operations leave " + std::to_string( l1 - l0 ) + " live allocations and " + std::to_string( (long)b.uordblks - (long)a.uordblks ) + " bytes behind" );
    }
#endif
    return lg().finish();
}
