// C15 (ranges): hash_append_range, hash_append_sized_range and containers over every iterator category, exact sizes,
// big sequences, sequences of more than 2^32 elements, and what is done to the caller's iterators.
#include "types.hpp"
#include "bigarr.hpp"
#include <memory>
#include <sys/mman.h>
#include <unistd.h>
using namespace vf;

// a single pass input iterator over a shared stream; the monitor sees every dereference and increment
struct Stream { std::vector<int> d; std::size_t pos = 0; u64 derefs = 0, incs = 0, past = 0, stale = 0; };
struct InIt
{
    typedef std::input_iterator_tag iterator_category; typedef int value_type; typedef std::ptrdiff_t difference_type; typedef int const* pointer; typedef int const& reference;
    Stream* s; std::size_t at;
    int const& operator*() const { ++s->derefs; if( at != s->pos ) ++s->stale; if( s->pos >= s->d.size() ){ ++s->past; static int z; return z; } return s->d[ s->pos ]; }
    InIt& operator++(){ if( at != s->pos ) ++s->stale; ++s->incs; ++s->pos; ++at; if( s->pos > s->d.size() ) ++s->past; return *this; }
    InIt operator++( int ){ InIt t( *this ); ++*this; return t; }
    bool operator==( InIt const& o ) const { return at == o.at; } bool operator!=( InIt const& o ) const { return at != o.at; }
};
// a forward iterator by category over an array
template<class T, class Cat> struct CatIt
{
    template<class U> void operator,( U&& ) const = delete;
    typedef Cat iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T const* pointer; typedef T const& reference;
    T const* p; CatIt( T const* q = nullptr ): p( q ){}
    T const& operator*() const { return *p; } T const* operator->() const { return p; } CatIt& operator++(){ ++p; return *this; } CatIt operator++( int ){ CatIt t( *this ); ++p; return t; } CatIt& operator--(){ --p; return *this; }
    CatIt& operator+=( std::ptrdiff_t n ){ p += n; return *this; } CatIt operator+( std::ptrdiff_t n ) const { return CatIt( p + n ); } std::ptrdiff_t operator-( CatIt const& o ) const { return p - o.p; } T const& operator[]( std::ptrdiff_t n ) const { return p[n]; }
    bool operator==( CatIt const& o ) const { return p == o.p; } bool operator!=( CatIt const& o ) const { return p != o.p; } bool operator<( CatIt const& o ) const { return p < o.p; }
};
// an iterator over an array by way of an index table (the elements, in an order and with repetitions of their own), giving a reference, a value, or something convertible to its value type
template<class T> struct Wrap { T const* p; operator T() const { return *p; } };
template<class T, class Cat, class Ref> struct IdxIt
{
    template<class U> void operator,( U&& ) const = delete;
    typedef Cat iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef void pointer; typedef Ref reference;
    T const* b; int const* i; static T const& get( T const* p, T const& (*)() ){ return *p; } static T get( T const* p, T (*)() ){ return *p; } static Wrap<T> get( T const* p, Wrap<T> (*)() ){ return Wrap<T>{ p }; }
    Ref operator*() const { return get( b + *i, (Ref(*)())nullptr ); } IdxIt& operator++(){ ++i; return *this; } IdxIt operator++( int ){ IdxIt t( *this ); ++i; return t; } IdxIt& operator--(){ --i; return *this; }
    IdxIt& operator+=( std::ptrdiff_t n ){ i += n; return *this; } IdxIt operator+( std::ptrdiff_t n ) const { return IdxIt{ b, i + n }; } IdxIt operator-( std::ptrdiff_t n ) const { return IdxIt{ b, i - n }; } std::ptrdiff_t operator-( IdxIt const& o ) const { return i - o.i; }
    bool operator==( IdxIt const& o ) const { return i == o.i; } bool operator!=( IdxIt const& o ) const { return i != o.i; } bool operator<( IdxIt const& o ) const { return i < o.i; }
};
// a narrow reference for a wide value type: what is hashed is the value type
template<class Cat> struct WideIt { typedef Cat iterator_category; typedef long long value_type; typedef std::ptrdiff_t difference_type; typedef void pointer; typedef int reference; int const* p; int operator*() const { return *p; } WideIt& operator++(){ ++p; return *this; } WideIt operator++( int ){ WideIt t( *this ); ++p; return t; } std::ptrdiff_t operator-( WideIt const& o ) const { return p - o.p; } bool operator==( WideIt const& o ) const { return p == o.p; } bool operator!=( WideIt const& o ) const { return p != o.p; } };
// std::vector<bool>'s proxies, seen through a weaker iterator category
template<class Cat> struct BitIt { typedef Cat iterator_category; typedef bool value_type; typedef std::ptrdiff_t difference_type; typedef void pointer; typedef std::vector<bool>::reference reference; std::vector<bool>::iterator p; reference operator*() const { return *p; } BitIt& operator++(){ ++p; return *this; } BitIt operator++( int ){ BitIt t( *this ); ++p; return t; } std::ptrdiff_t operator-( BitIt const& o ) const { return p - o.p; } bool operator==( BitIt const& o ) const { return p == o.p; } bool operator!=( BitIt const& o ) const { return p != o.p; } };
template<class F, class It> static void rng( char const* n, It f, It l, bytes const& elems, u64 cnt )
{
    Fl fl = flavor_of<F>(); { Rec h; h2::hash_append_range( h, F(), f, l ); lg().distinct( fp( h.log.data(), h.log.size(), fp( std::string( n ) + fl.name ) ) ); if( h.log != elems ) lg().violation( std::string( "range " ) + n, std::string( n ) + " of " + std::to_string( cnt ) + " in " + fl.name + ": " + hex( h.log, 100 ) + " expected " + hex( elems, 100 ) ); }
    { Rec h; h2::hash_append_sized_range( h, F(), f, l ); Ctx c; c.f = fl; c.m = elems; c.size( cnt ); lg().eval(); if( h.log != c.m ) lg().violation( std::string( "sized range " ) + n, std::string( n ) + " of " + std::to_string( cnt ) + " in " + fl.name + ": " + hex( h.log, 100 ) + " expected " + hex( c.m, 100 ) ); }
}
template<class F, class T> static void cats( char const* tn, Rng& r, std::size_t n )
{
    std::vector<T> v; for( std::size_t i = 0; i < n; ++i ) v.push_back( gen<T>( r ) ); T const* p = v.data(); T* q = v.data();
    Ctx c; c.f = flavor_of<F>(); c.reduce = &Rec::reduce; for( T const& x: v ) ser( c, x ); std::string t( tn );
    rng<F>( ( t + " pointer" ).c_str(), p, p + n, c.m, n ); rng<F>( ( t + " mutable pointer" ).c_str(), q, q + n, c.m, n ); rng<F>( ( t + " vector iterator" ).c_str(), v.begin(), v.end(), c.m, n ); rng<F>( ( t + " const iterator" ).c_str(), v.cbegin(), v.cend(), c.m, n );
    rng<F>( ( t + " input" ).c_str(), CatIt<T, std::input_iterator_tag>( p ), CatIt<T, std::input_iterator_tag>( p + n ), c.m, n ); rng<F>( ( t + " forward" ).c_str(), CatIt<T, std::forward_iterator_tag>( p ), CatIt<T, std::forward_iterator_tag>( p + n ), c.m, n );
    rng<F>( ( t + " bidirectional" ).c_str(), CatIt<T, std::bidirectional_iterator_tag>( p ), CatIt<T, std::bidirectional_iterator_tag>( p + n ), c.m, n ); rng<F>( ( t + " random access" ).c_str(), CatIt<T, std::random_access_iterator_tag>( p ), CatIt<T, std::random_access_iterator_tag>( p + n ), c.m, n );
    std::list<T> lst( v.begin(), v.end() ); rng<F>( ( t + " list" ).c_str(), lst.begin(), lst.end(), c.m, n ); std::deque<T> d( v.begin(), v.end() ); rng<F>( ( t + " deque" ).c_str(), d.begin(), d.end(), c.m, n ); std::forward_list<T> fl( v.begin(), v.end() ); rng<F>( ( t + " forward_list" ).c_str(), fl.begin(), fl.end(), c.m, n );
    {
        std::vector<int> ix; if( n ){ std::size_t k = r.below( 3 ) ? n : r.below( 2 * n + 3 ); for( std::size_t i = 0; i < k; ++i ) ix.push_back( (int)( i < n ? i : r.below( n ) ) ); if( k > 2 ) for( std::size_t i = r.chance( 1, 2 ) ? k : k - 1; i-- > 1; ) if( r.chance( 1, 2 ) ) std::swap( ix[i], ix[ r.chance( 1, 2 ) ? 1 + r.below( i ) : i ] ); }    // often with the first and the last element in place
        std::size_t const m = ix.size(); int const* f = ix.data(); int const* l = f + m; Ctx e; e.f = c.f; e.reduce = c.reduce; for( int i: ix ) ser( e, v[i] );
        rng<F>( ( t + " indexed random access" ).c_str(), IdxIt<T, std::random_access_iterator_tag, T const&>{ p, f }, IdxIt<T, std::random_access_iterator_tag, T const&>{ p, l }, e.m, m ); rng<F>( ( t + " indexed bidirectional" ).c_str(), IdxIt<T, std::bidirectional_iterator_tag, T const&>{ p, f }, IdxIt<T, std::bidirectional_iterator_tag, T const&>{ p, l }, e.m, m );
        rng<F>( ( t + " values, input" ).c_str(), IdxIt<T, std::input_iterator_tag, T>{ p, f }, IdxIt<T, std::input_iterator_tag, T>{ p, l }, e.m, m ); rng<F>( ( t + " values, random access" ).c_str(), IdxIt<T, std::random_access_iterator_tag, T>{ p, f }, IdxIt<T, std::random_access_iterator_tag, T>{ p, l }, e.m, m );
        rng<F>( ( t + " proxies, input" ).c_str(), IdxIt<T, std::input_iterator_tag, Wrap<T>>{ p, f }, IdxIt<T, std::input_iterator_tag, Wrap<T>>{ p, l }, e.m, m ); rng<F>( ( t + " proxies, random access" ).c_str(), IdxIt<T, std::random_access_iterator_tag, Wrap<T>>{ p, f }, IdxIt<T, std::random_access_iterator_tag, Wrap<T>>{ p, l }, e.m, m );
        Ctx b; b.f = c.f; b.reduce = c.reduce; for( std::size_t i = n; i--; ) ser( b, v[i] ); rng<F>( ( t + " vector reversed" ).c_str(), v.rbegin(), v.rend(), b.m, n ); rng<F>( ( t + " deque reversed" ).c_str(), d.rbegin(), d.rend(), b.m, n ); std::list<T> const& lr = lst; rng<F>( ( t + " list reversed" ).c_str(), lr.rbegin(), lr.rend(), b.m, n );
    }
    rng<F>( ( t + " reverse" ).c_str(), std::reverse_iterator<CatIt<T, std::bidirectional_iterator_tag>>( CatIt<T, std::bidirectional_iterator_tag>( p ) ), std::reverse_iterator<CatIt<T, std::bidirectional_iterator_tag>>( CatIt<T, std::bidirectional_iterator_tag>( p ) ), bytes(), 0 );
}
template<class T> static void flavors( char const* tn )
{
    Rng r( seed() * 15487469 + fp( tn ) );
    for( u64 k = 0; k < 60 * scale(); ++k ) { std::size_t n = k < 12 ? k : k % 15 == 0 ? 200 + r.below( 900 ) : gen_count( r ); cats<h2::default_flavor, T>( tn, r, n ); cats<h2::big_endian_flavor, T>( tn, r, n ); cats<h2::little_endian_flavor, T>( tn, r, n ); if( k % 5 == 0 ){ cats<FlavL8, T>( tn, r, n ); cats<FlavB32, T>( tn, r, n ); } }
}
// counts and checks without storing: for sequences too long to record
struct Count
{
    typedef u64 result_type; u64 n = 0; u64 sum = 0; u8 last[16] = {}; Count(){} explicit Count( u64 ){} Count( unsigned char const*, std::size_t ){}
    void update( void const* p, std::size_t k )
    {
        u8 const* q = (u8 const*)p;
        if( k == 1 && n < 0x100000000ull ){ sum += *q * ( 2 * n + 1 ); last[ 15 ] = *q; ++n; return; }      // fast path; the last bytes matter only past 2^32
        if( k <= 64 ) for( std::size_t i = 0; i < k; ++i ) sum += q[i] * ( 2 * ( n + i ) + 1 );
        n += k; if( k >= 16 ) std::memcpy( last, q + k - 16, 16 ); else if( k ){ std::memmove( last, last + k, 16 - k ); std::memcpy( last + 16 - k, q, k ); }
    }
    u64 result(){ return 1; }
};
struct GenIt { typedef std::input_iterator_tag iterator_category; typedef unsigned char value_type; typedef std::ptrdiff_t difference_type; typedef unsigned char const* pointer; typedef unsigned char reference; u64 i; unsigned char operator*() const { return (unsigned char)( i * 7 >> 3 ); } GenIt& operator++(){ ++i; return *this; } bool operator==( GenIt const& o ) const { return i == o.i; } bool operator!=( GenIt const& o ) const { return i != o.i; } };
struct View { typedef unsigned char value_type; typedef unsigned char const* const_iterator; unsigned char const* p; std::size_t n; unsigned char const* begin() const { return p; } unsigned char const* end() const { return p + n; } unsigned char const* data() const { return p; } std::size_t size() const { return n; } };
struct View16 { typedef unsigned short value_type; typedef unsigned short const* const_iterator; unsigned short const* p; std::size_t n; unsigned short const* begin() const { return p; } unsigned short const* end() const { return p + n; } unsigned short const* data() const { return p; } std::size_t size() const { return n; } };
template<class F> static bytes size_bytes( u64 n ){ Ctx c; c.f = flavor_of<F>(); c.size( n ); return c.m; }
template<class F> static void tail( char const* w, Count const& h, u64 elems, u64 cnt ){ bytes s = size_bytes<F>( cnt ), got( h.last + 16 - s.size(), h.last + 16 ); lg().distinct( fpv( cnt, fp( w ) ) ); if( h.n != elems + s.size() || got != s ) lg().violation( std::string( "huge range " ) + w, std::string( w ) + ": " + std::to_string( h.n ) + " bytes hashed, size field " + hex( got ) + "; expected " + std::to_string( elems + s.size() ) + " and " + hex( s ) ); }

static void huge( int which )
{
    u64 constexpr big = ( 1ull << 32 ) + 11;
    if( which == 0 )
    {
        std::size_t const per = 1 << 21; int fd = memfd_create( "r", 0 ); if( fd < 0 || ftruncate( fd, per ) ) std::exit( 3 );
        u64 total = 2 * big + per; u8* b = (u8*)mmap( nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ); if( b == MAP_FAILED ) std::exit( 3 );
        for( u64 i = 0; i + per <= total; i += per ) if( mmap( b + i, per, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0 ) == MAP_FAILED ) std::exit( 3 );
        // the recorder does not read long updates, so this is about the sizes passed along
        { View v{ b, big }; Count h; h2::hash_append( h, {}, v ); tail<h2::default_flavor>( "contiguous bytes", h, big, big ); Count g; h2::hash_append( g, h2::big_endian_flavor(), v ); tail<h2::big_endian_flavor>( "contiguous bytes", g, big, big ); Count k; h2::hash_append( k, FlavB32(), v ); tail<FlavB32>( "contiguous bytes size32", k, big, big ); }
        { View16 v{ (unsigned short const*)b, big }; Count h; h2::hash_append( h, h2::little_endian_flavor(), v ); tail<h2::little_endian_flavor>( "contiguous shorts", h, 2 * big, big ); }
        { Count h; h2::hash_append_sized_range( h, {}, (unsigned char const*)b, (unsigned char const*)b + big ); tail<h2::default_flavor>( "sized byte range", h, big, big ); Count g; h2::hash_append_range( g, {}, (unsigned char const*)b, (unsigned char const*)b + big ); lg().eval(); if( g.n != big ) lg().violation( "huge range bytes", "hash_append_range of " + std::to_string( big ) + " bytes hashed " + std::to_string( g.n ) ); }
        // (g++ does not deduce the bound of C arrays as long as that)
        { typedef std::array<u8, big> B; typedef std::array<unsigned short, big> S; auto n = []( auto fl, auto const& v, u64 w, char const* what ){ Count h; h2::hash_append( h, fl, v ); lg().eval(); if( h.n != w ) lg().violation( std::string( "huge array " ) + what, std::string( what ) + ": " + std::to_string( h.n ) + " bytes hashed, the array has " + std::to_string( w ) ); };
          n( h2::default_flavor(), *(B const*)b, big, "array<unsigned char>" ); n( h2::big_endian_flavor(), *(B const*)b, big, "array<unsigned char> big" ); n( h2::little_endian_flavor(), *(S const*)b, 2 * big, "array<unsigned short>" ); }
        munmap( b, total );
    }
    else if( which == 3 )   // elements one at a time
    {
        std::size_t const per = 1 << 21; int fd = memfd_create( "r", 0 ); if( fd < 0 || ftruncate( fd, per ) ) std::exit( 3 );
        u64 total = 4 * big + per; u8* b = (u8*)mmap( nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ); if( b == MAP_FAILED ) std::exit( 3 );
        for( u64 i = 0; i + per <= total; i += per ) if( mmap( b + i, per, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0 ) == MAP_FAILED ) std::exit( 3 );
        struct Sz { u64 n = 0; Sz(){} explicit Sz( std::uint64_t ){} Sz( unsigned char const*, std::size_t ){} typedef u64 result_type; void update( void const*, std::size_t k ){ n += k; } u64 result(){ return n; } };
        Sz h; h2::hash_append( h, {}, *(std::array<float, big> const*)b ); lg().eval(); if( h.n != 4 * big ) lg().violation( "huge array floats", "array of " + std::to_string( big ) + " floats: " + std::to_string( h.n ) + " bytes hashed" );
        munmap( b, total );
    }
    else if( which == 1 ){ Count h; h2::hash_append_sized_range( h, {}, GenIt{ 0 }, GenIt{ big } ); u64 s = 0; for( u64 i = 0; i < big; ++i ) s += (u8)( i * 7 >> 3 ) * ( 2 * i + 1 ); bytes z = size_bytes<h2::default_flavor>( big ); { u64 i = big; for( u8 x: z ) s += x * ( 2 * i++ + 1 ); } tail<h2::default_flavor>( "input iterators", h, big, big ); if( s != h.sum ) lg().violation( "huge range contents", "elements of a long input range are not those of the range" ); }
    else { Count h; h2::hash_append_unordered_range( h, {}, GenIt{ 0 }, GenIt{ big } ); // each element's hash is 1
        bytes w; Ctx c; c.f = flavor_of<h2::default_flavor>(); c.num( big, 8 ); c.size( big ); lg().distinct( 99 ); if( h.n != 16 || bytes( h.last, h.last + 16 ) != c.m ) lg().violation( "huge unordered range", "message " + hex( h.last, 16 ) + " expected " + hex( c.m ) ); }
    lg().count( "elements in ranges longer than 2^32", big );
}

int main( int argc, char** argv )
{
#if defined(VF_HUGE)
    huge( argc > 1 ? std::atoi( argv[1] ) : 0 ); return lg().finish();
#else
#define X( T ) flavors<T>( #T );
    X( unsigned char ) X( char ) X( unsigned short ) X( int ) X( long long ) X( float ) X( double ) X( std::string ) X( ut::D1 ) X( ut::Contig ) X( ut::Contig1 ) X( ut::E8 ) X( ut::ES )
#undef X
    Rng r( seed() * 7001 );
    for( u64 k = 0; k < 400 * scale(); ++k ) // single pass streams: every element read and advanced over exactly once
    {
        Stream s; s.d = gen<std::vector<int>>( r ); std::size_t n = s.d.size(); bool sized = k & 1, unord = k % 5 == 4; InIt f{ &s, 0 }, l{ &s, n }; Rec h; Ctx c; c.f = flavor_of<h2::big_endian_flavor>(); c.reduce = &Rec::reduce;
        if( unord ){ h2::hash_append_unordered_range( h, h2::big_endian_flavor(), f, l ); u64 w = 0; for( int x: s.d ){ Ctx e( c ); ser( e, x ); w += Rec::reduce( e.m ); } c.num( w, 8 ); c.size( n ); }
        else { for( int x: s.d ) ser( c, x ); if( sized ){ h2::hash_append_sized_range( h, h2::big_endian_flavor(), f, l ); c.size( n ); } else h2::hash_append_range( h, h2::big_endian_flavor(), f, l ); }
        lg().distinct( fp( h.log.data(), h.log.size(), k % 10 ) );
        if( h.log != c.m ) lg().violation( "input stream", "message " + hex( h.log ) + " expected " + hex( c.m ) );
        if( s.derefs < n || s.incs != n || s.past || s.stale ) lg().violation( "input stream passes", std::to_string( n ) + " elements: " + std::to_string( s.derefs ) + " reads, " + std::to_string( s.incs ) + " increments, " + std::to_string( s.past ) + " past the end, " + std::to_string( s.stale ) + " stale" );
    }
    for( u64 k = 0; k < 200 * scale(); ++k ) // proxy references
    {
        std::vector<int> v = gen<std::vector<int>>( r ); std::vector<bool> w; for( int x: v ) w.push_back( x & 1 ); std::size_t n = v.size(); int const* p = v.data();
        auto go = [&]( auto tag, auto fl, char const* what ){ typedef decltype( tag ) Cat; typedef decltype( fl ) F; Ctx c; c.f = flavor_of<F>(); c.reduce = &Rec::reduce; for( int x: v ) ser( c, (long long)x ); rng<F>( ( std::string( "wide " ) + what ).c_str(), WideIt<Cat>{ p }, WideIt<Cat>{ p + n }, c.m, n ); Ctx d; d.f = c.f; for( bool x: w ) d.num( x, 1 ); rng<F>( ( std::string( "bits " ) + what ).c_str(), BitIt<Cat>{ w.begin() }, BitIt<Cat>{ w.end() }, d.m, n ); };
        go( std::input_iterator_tag(), h2::big_endian_flavor(), "input" ); go( std::forward_iterator_tag(), h2::default_flavor(), "forward" ); go( std::bidirectional_iterator_tag(), h2::little_endian_flavor(), "bidirectional" ); go( std::random_access_iterator_tag(), FlavB32(), "random access" );
    }
    // views and spans
#if __cplusplus >= 201703L
    for( u64 k = 0; k < 200 * scale(); ++k ){ std::string s = gen<std::string>( r ); std::string_view v( s ); Rec a, b; h2::hash_append( a, {}, s ); h2::hash_append( b, {}, v ); lg().eval(); if( a.log != b.log ) lg().violation( "string_view", "string and string_view differ" ); std::u16string w = gen<std::u16string>( r ); std::u16string_view y( w ); Rec c, d; h2::hash_append( c, h2::big_endian_flavor(), w ); h2::hash_append( d, h2::big_endian_flavor(), y ); if( c.log != d.log ) lg().violation( "string_view", "u16string and u16string_view differ" ); }
#endif
#if __cplusplus >= 202002L
    for( u64 k = 0; k < 200 * scale(); ++k ){ std::vector<int> s = gen<std::vector<int>>( r ); std::span<int const> v( s ); Rec a, b; h2::hash_append( a, h2::big_endian_flavor(), s ); h2::hash_append( b, h2::big_endian_flavor(), v ); lg().eval(); if( a.log != b.log ) lg().violation( "span", "vector and span differ" ); }
#endif
    // sizes around every power of two of the small size types
    for( std::size_t n: { 127, 128, 255, 256, 257, 511, 512, 65535, 65536, 65537, 70000 } ){ std::vector<unsigned char> v = r.buf( n ); Rec a; h2::hash_append( a, FlavL8(), v ); Rec b; h2::hash_append( b, FlavB16(), v ); Rec c; h2::hash_append( c, {}, std::list<unsigned char>( v.begin(), v.end() ) ); lg().distinct( n ); if( a.log != expected<FlavL8, Rec>( v ) || b.log != expected<FlavB16, Rec>( v ) || c.log != expected<h2::default_flavor, Rec>( v ) ) lg().violation( "size wrap", std::to_string( n ) + " elements" ); }
    fixed_arrays();
    lg().sample( "12 iterator kinds x 13 element types x 5 flavors; single-pass streams with counted reads" );
    return lg().finish();
#endif
}
