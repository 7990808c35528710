// C23: the traits that choose fast paths and message shapes tell the truth. For every type of the lists the traits are
// read by the monitor, and what they claim is confronted with what is observed: storage bytes, equality, element
// counts and the recorded messages. The documented answers for built-in types, and user specializations, are checked too.
#include "types.hpp"
#include "bigarr.hpp"
#include <boost/hash2/is_contiguously_hashable.hpp>
#include <boost/hash2/is_trivially_equality_comparable.hpp>
#include <boost/hash2/is_endian_independent.hpp>
#include <boost/hash2/has_constant_size.hpp>
#include <memory>
#if __cplusplus >= 202002L
#include <ranges>
#endif
#include <new>
using namespace vf;

namespace
{
template<class T> bool claims_tec(){ return h2::is_trivially_equality_comparable<T>::value; }
template<class T, h2::endian E> bool claims_ch(){ return h2::is_contiguously_hashable<T, E>::value; }
// storage filled with `fill` before the object is built, so that padding shows
template<class T> struct Box { alignas( alignof( T ) ) unsigned char s[ sizeof( T ) ]; T* p; Box( T const& v, int fill ){ std::memset( s, fill, sizeof s ); p = new( s ) T( v ); } ~Box(){ p->~T(); } Box( Box const& ) = delete; Box& operator=( Box const& ) = delete; };
template<class T, class F> void bytes_claim( char const* tn, T const& v )
{
    if( !claims_ch<T, F::byte_order>() ) return;
    Box<T> b( v, 0xA5 ); bytes st( b.s, b.s + sizeof( T ) ), want = expected<F, Rec>( *b.p ); lg().distinct( fp( st.data(), st.size(), fp( std::string( tn ) + flavor_of<F>().name ) ) );
    if( st != want ) lg().violation( std::string( "contiguously hashable " ) + tn, std::string( tn ) + " is reported contiguously hashable in " + flavor_of<F>().name + " order, but a value stored as " + hex( st ) + " has the message " + hex( want ) );
    Rec h; h2::hash_append( h, F(), v ); lg().eval(); if( h.log != want ) lg().violation( std::string( "contiguous message " ) + tn, std::string( tn ) + ": message " + hex( h.log ) + " expected " + hex( want ) );
    // a sequence of them is its storage
    T const a[3] = { v, v, v }; Rec g; h2::hash_append_range( g, F(), &a[0], &a[0] + 3 ); bytes w3; for( int i = 0; i < 3; ++i ) w3.insert( w3.end(), want.begin(), want.end() ); if( g.log != w3 ) lg().violation( std::string( "contiguous range " ) + tn, std::string( tn ) + ": three in a range " + hex( g.log ) + " expected " + hex( w3 ) );
}
template<class T> void equality_claim( char const* tn, T const& x, T const& y )
{
    if( !claims_tec<T>() ) return;
    Box<T> a( x, 0x11 ), b( y, 0x77 ), c( x, 0xEE ); bool const eq = *a.p == *b.p, same = std::memcmp( a.s, b.s, sizeof( T ) ) == 0; lg().eval();
    if( eq != same ) lg().violation( std::string( "trivially equality comparable " ) + tn, std::string( tn ) + " is reported trivially equality comparable, but " + hex( a.s, sizeof( T ) ) + " and " + hex( b.s, sizeof( T ) ) + ( eq ? " are equal" : " are not equal" ) );
    if( std::memcmp( a.s, c.s, sizeof( T ) ) != 0 ) lg().violation( std::string( "trivially equality comparable, padding " ) + tn, std::string( tn ) + " is reported trivially equality comparable, but a copy differs in its bytes" );
}
template<class T> void cv( char const* tn )
{
    auto chk = [&]( bool x, bool y, char const* tr ){ lg().eval(); if( x != y ) lg().violation( std::string( "const " ) + tr + " " + tn, std::string( tr ) + " differs between " + tn + " and its const version" ); };
    chk( claims_tec<T>(), claims_tec<T const>(), "is_trivially_equality_comparable" ); chk( h2::is_endian_independent<T>::value, h2::is_endian_independent<T const>::value, "is_endian_independent" ); chk( h2::has_constant_size<T>::value, h2::has_constant_size<T const>::value, "has_constant_size" );
    chk( claims_ch<T, h2::endian::native>(), claims_ch<T const, h2::endian::native>(), "is_contiguously_hashable<native>" ); chk( claims_ch<T, h2::endian::big>(), claims_ch<T const, h2::endian::big>(), "is_contiguously_hashable<big>" ); chk( claims_ch<T, h2::endian::little>(), claims_ch<T const, h2::endian::little>(), "is_contiguously_hashable<little>" );
    chk( claims_ch<T, h2::endian::big>(), claims_ch<T[3], h2::endian::big>(), "is_contiguously_hashable of arrays" ); chk( claims_ch<T, h2::endian::native>(), claims_ch<T[2][3], h2::endian::native>(), "is_contiguously_hashable of arrays" ); chk( claims_ch<T, h2::endian::little>(), claims_ch<T const[5], h2::endian::little>(), "is_contiguously_hashable of const arrays" );
    // the documented definition from the two parts
    chk( claims_ch<T, h2::endian::native>(), claims_tec<T>(), "is_contiguously_hashable<native> and is_trivially_equality_comparable" ); chk( claims_ch<T, h2::endian::native == h2::endian::big ? h2::endian::little : h2::endian::big>(), claims_tec<T>() && h2::is_endian_independent<T>::value, "is_contiguously_hashable in the foreign order and its parts" );
    bool const n = h2::endian::native == h2::endian::big ? claims_ch<T, h2::endian::big>() : claims_ch<T, h2::endian::little>(); chk( n, claims_ch<T, h2::endian::native>(), "is_contiguously_hashable under two names of the native order" );
}
template<class T> void endian_claim( char const* tn, T const& v )
{
    if( !h2::is_endian_independent<T>::value || !claims_tec<T>() ) return;
    bytes l = expected<h2::little_endian_flavor, Rec>( v ), b = expected<h2::big_endian_flavor, Rec>( v ); lg().eval(); if( l != b ) lg().violation( std::string( "endian independent " ) + tn, std::string( tn ) + " is reported endian independent, but a value has the messages " + hex( l ) + " and " + hex( b ) );
}
template<class T> void scalar( char const* tn )
{
    Rng r( seed() * 5915587 + fp( tn ) ); cv<T>( tn ); lg().count( "types" ); if( claims_tec<T>() ) lg().count( "types reported trivially equality comparable" );
    for( u64 k = 0; k < 60 * scale(); ++k )
    {
        T const x = gen<T>( r ); T y = gen<T>( r ); if( k % 3 == 0 ) y = x;
        equality_claim( tn, x, y ); endian_claim( tn, x ); bytes_claim<T, h2::default_flavor>( tn, x ); bytes_claim<T, h2::big_endian_flavor>( tn, x ); bytes_claim<T, h2::little_endian_flavor>( tn, x ); bytes_claim<T, FlavB16>( tn, x );
    }
}
// sizes: counts of two values of a type reported to be of constant size
template<class T> auto count_of( T const& v, int ) -> decltype( v.begin(), std::size_t() ){ std::size_t n = 0; for( auto i = v.begin(); i != v.end(); ++i ) ++n; return n; }
template<class T> std::size_t count_of( T const&, ... ){ return 0; }
template<class T> void range( char const* tn, bool documented )
{
    Rng r( seed() * 8675309 + fp( tn ) ); cv<T>( tn ); lg().count( "range types" ); bool const c = h2::has_constant_size<T>::value, cc = h2::has_constant_size<T const>::value; lg().distinct( fp( tn ) );
    if( c != documented || cc != documented ) lg().violation( std::string( "has_constant_size " ) + tn, std::string( tn ) + ": has_constant_size is " + ( c ? "true" : "false" ) + ", documented otherwise" );
    std::size_t first = 0; for( u64 k = 0; k < 25 * scale(); ++k ){ T v = gen<T>( r ); std::size_t n = count_of( v, 0 ); lg().eval(); if( k == 0 ) first = n; if( c && n != first ) lg().violation( std::string( "constant size " ) + tn, std::string( tn ) + " is reported of constant size, but has values of " + std::to_string( first ) + " and " + std::to_string( n ) + " elements" );
        Rec h; h2::hash_append( h, h2::big_endian_flavor(), v ); bytes w = expected<h2::big_endian_flavor, Rec>( v ); if( h.log != w ) lg().violation( std::string( "message " ) + tn, std::string( tn ) + ": message " + hex( h.log, 120 ) + " expected " + hex( w, 120 ) ); }
}
// user types and specializations
enum class Part: unsigned { };                                    // documented example: compares modulo 256, specialized to false
inline bool operator==( Part a, Part b ){ return unsigned( a ) % 256 == unsigned( b ) % 256; }
struct Plain { int v; bool operator==( Plain const& o ) const { return v == o.v; } }; BOOST_DESCRIBE_STRUCT( Plain, (), ( v ) )
struct Three { unsigned char a, b, c; bool operator==( Three const& o ) const { return a == o.a && b == o.b && c == o.c; } }; BOOST_DESCRIBE_STRUCT( Three, (), ( a, b, c ) )
struct Unspec { unsigned char a, b; bool operator==( Unspec const& o ) const { return a == o.a && b == o.b; } }; BOOST_DESCRIBE_STRUCT( Unspec, (), ( a, b ) )
struct OneByte { unsigned char a; bool operator==( OneByte const& o ) const { return ( a & 0x7F ) == ( o.a & 0x7F ); } template<class H, class F> friend void tag_invoke( h2::hash_append_tag const&, H& h, F const& f, OneByte const& v ){ h2::hash_append( h, f, (unsigned char)( v.a & 0x7F ) ); } };   // one byte, but not compared by it
struct Uuid { typedef unsigned char value_type; typedef unsigned char const* const_iterator; unsigned char d[16]; unsigned char const* begin() const { return d; } unsigned char const* end() const { return d + 16; } unsigned char const* data() const { return d; } unsigned char const& front() const { return d[0]; } std::size_t size() const { return 16; } };
struct Uuid2: Uuid {};                                            // the same without the specialization
template<class T> struct Pair2 { T a, b; bool operator==( Pair2 const& o ) const { return a == o.a && b == o.b; } BOOST_DESCRIBE_CLASS( Pair2, (), ( a, b ), (), () ) };
}
namespace boost { namespace hash2 {
template<> struct is_trivially_equality_comparable<Part>: std::false_type {};
template<> struct is_trivially_equality_comparable<Plain>: std::integral_constant<bool, sizeof( Plain ) == sizeof( int )> {};
template<> struct is_trivially_equality_comparable<Three>: std::true_type {}; template<> struct is_endian_independent<Three>: std::true_type {};
template<> struct has_constant_size<Uuid>: std::true_type {};
template<class T> struct is_trivially_equality_comparable<Pair2<T>>: std::integral_constant<bool, sizeof( Pair2<T> ) == 2 * sizeof( T ) && is_trivially_equality_comparable<T>::value> {};
template<class T> struct is_endian_independent<Pair2<T>>: is_endian_independent<T> {};
} }
namespace vf
{
template<> struct Ser<Plain> { static void go( Ctx& c, Plain const& v ){ ser( c, v.v ); } }; template<> struct Gen<Plain> { static Plain go( Rng& r ){ return Plain{ gen<int>( r ) }; } };
template<> struct Ser<Three> { static void go( Ctx& c, Three const& v ){ ser( c, v.a ); ser( c, v.b ); ser( c, v.c ); } }; template<> struct Gen<Three> { static Three go( Rng& r ){ return Three{ (u8)r.next(), (u8)r.next(), (u8)r.next() }; } };
template<> struct Ser<Unspec> { static void go( Ctx& c, Unspec const& v ){ ser( c, v.a ); ser( c, v.b ); } }; template<> struct Gen<Unspec> { static Unspec go( Rng& r ){ return Unspec{ (u8)r.next(), (u8)r.next() }; } };
template<> struct Ser<OneByte> { static void go( Ctx& c, OneByte const& v ){ ser( c, (u8)( v.a & 0x7F ) ); } }; template<> struct Gen<OneByte> { static OneByte go( Rng& r ){ return OneByte{ (u8)r.next() }; } };
template<> struct Ser<Uuid> { static void go( Ctx& c, Uuid const& v ){ ser_fixed( c, v.d, v.d + 16 ); } }; template<> struct Gen<Uuid> { static Uuid go( Rng& r ){ Uuid u; r.fill( u.d, 16 ); return u; } };
template<> struct Ser<Uuid2> { static void go( Ctx& c, Uuid2 const& v ){ ser_fixed( c, v.d, v.d + 16 ); c.size( 16 ); } }; template<> struct Gen<Uuid2> { static Uuid2 go( Rng& r ){ Uuid2 u; r.fill( u.d, 16 ); return u; } };
template<class T> struct Ser<Pair2<T>> { static void go( Ctx& c, Pair2<T> const& v ){ ser( c, v.a ); ser( c, v.b ); } }; template<class T> struct Gen<Pair2<T>> { static Pair2<T> go( Rng& r ){ T a = gen<T>( r ); return Pair2<T>{ a, gen<T>( r ) }; } };
template<> struct Gen<Part> { static Part go( Rng& r ){ return static_cast<Part>( r.next() & 0x3FF ); } };
}
namespace
{
template<class T> void documented( char const* tn, bool tec, bool ei )
{
    lg().distinct( fp( std::string( "doc " ) + tn ) );
    if( claims_tec<T>() != tec ) lg().violation( std::string( "documented is_trivially_equality_comparable " ) + tn, std::string( tn ) + " is reported " + ( tec ? "not " : "" ) + "trivially equality comparable" );
    if( h2::is_endian_independent<T>::value != ei ) lg().violation( std::string( "documented is_endian_independent " ) + tn, std::string( tn ) + " is reported " + ( ei ? "not " : "" ) + "endian independent" );
}
// contiguously hashable values in every place; how many updates they take is counted only
struct Calls: Rec { std::vector<std::size_t> n; Calls(){} explicit Calls( u64 s ): Rec( s ){} Calls( unsigned char const* p, std::size_t k ): Rec( p, k ){} void update( void const* p, std::size_t k ){ n.push_back( k ); Rec::update( p, k ); } void update( unsigned char const* p, std::size_t k ){ n.push_back( k ); Rec::update( p, k ); } };
template<class F, class T> void one_call( char const* tn, T const& v, std::size_t sz, char const* where ){ Calls h; h2::hash_append( h, F(), v ); lg().eval(); std::size_t t = 0; for( std::size_t k: h.n ) t += k; lg().count( h.n.empty() || h.n[0] != sz ? "contiguous values given in several updates" : "contiguous values given in one update" ); if( t != h.log.size() || h.log != expected<F, Rec>( v ) ) lg().violation( std::string( "fast path " ) + tn + " " + where, std::string( tn ) + " " + where + ": message " + hex( h.log, 200 ) + " expected " + hex( expected<F, Rec>( v ), 200 ) ); }
struct Empty {}; union Un { int i; char c[4]; }; union Un1 { char c; }; struct Mem { int x; void f() {} }; enum class EB: bool { a, b }; struct Conv { int v; operator int() const { return v; } }; struct Ptr1 { char* p; };
// constant size of user types known to the library by one thing only
struct TupleOnly {}; struct ArrayBase: std::array<int, 2> {}; struct BArrayBase: boost::array<int, 2> {}; struct DigestBase: h2::digest<4> {}; struct SizeFn { static constexpr std::size_t size(){ return 3; } };
}
namespace std { template<> struct tuple_size<TupleOnly>: integral_constant<size_t, 2> {}; }
namespace
{
template<class T> void documented_size( char const* tn, bool cs )
{
    lg().distinct( fp( std::string( "docsize " ) + tn ) ); lg().eval();
    if( h2::has_constant_size<T>::value != cs || h2::has_constant_size<T const>::value != cs ) lg().violation( std::string( "documented has_constant_size " ) + tn, std::string( tn ) + " (or its const version) is reported " + ( cs ? "not " : "" ) + "of constant size" );
}
void documented_more()
{
#define X( T, a, b ) { typedef T Y_; documented<Y_>( #T, a, b ); documented<Y_ const>( #T " const", a, b ); }
    X( Empty, false, true ) X( Un, false, false ) X( Un1, false, true ) X( int Mem::*, false, false ) typedef void (Mem::*MF)(); X( MF, false, false ) typedef int (Mem::*MFC)( int ) const; X( MFC, false, false ) X( EB, true, true ) X( Conv, false, false ) X( Ptr1, false, false ) X( Mem*, true, false ) X( Un*, true, false ) typedef int Mem::** PM; X( PM, true, false ) typedef int (*FA)[3]; X( FA, true, false ) X( long double, false, false ) X( std::vector<bool>, false, false ) X( std::unique_ptr<int>, false, false ) X( std::shared_ptr<char>, false, false ) X( std::vector<char>, false, false )
    typedef std::array<unsigned char, 4> A4; X( A4, false, false ) typedef std::array<char, 1> A1; X( A1, false, true ) typedef boost::array<int, 2> BA; X( BA, false, false ) typedef std::array<int*, 2> AP; X( AP, false, false ) typedef std::array<std::array<short, 2>, 2> AA; X( AA, false, false ) typedef std::pair<char, char> PCC; X( PCC, false, false ) typedef std::tuple<int> TI1; X( TI1, false, false ) typedef std::tuple<> TN; X( TN, false, true ) X( h2::digest<16>, false, false ) X( h2::digest<2>, false, false )
    { typedef int volatile VI; documented<VI>( "int volatile", true, false ); typedef char const volatile VC; documented<VC>( "char const volatile", true, true ); typedef ut::E8 volatile VE; documented<VE>( "E8 volatile", true, true ); typedef int* volatile VP; documented<VP>( "int* volatile", true, false ); typedef double volatile VD; documented<VD>( "double volatile", false, false ); }
#if defined(__cpp_lib_byte)
    X( std::byte, true, true )
#endif
#undef X
    documented_size<TupleOnly>( "TupleOnly", true ); documented_size<Empty>( "Empty", false ); documented_size<int>( "int", false ); documented_size<Un>( "Un", false ); documented_size<ArrayBase>( "ArrayBase", false ); documented_size<BArrayBase>( "BArrayBase", false ); documented_size<DigestBase>( "DigestBase", false ); documented_size<SizeFn>( "SizeFn", false ); documented_size<Mem>( "Mem", false ); documented_size<int*>( "int*", false ); documented_size<std::nullptr_t>( "nullptr_t", false ); documented_size<std::array<TupleOnly, 2>>( "array<TupleOnly, 2>", true ); documented_size<std::vector<TupleOnly>>( "vector<TupleOnly>", false ); documented_size<std::array<std::vector<int>, 0>>( "array<vector<int>, 0>", true ); documented_size<boost::array<std::array<int, 2>, 2>>( "boost::array<array>", true ); typedef boost::array<h2::digest<3>, 1> BD; documented_size<BD>( "boost::array<digest<3>, 1>", true );
}
}
int main()
{
    documented_more();
#define X( T ) scalar<T>( #T );
    VF_INTS( X ) VF_ENUMS( X ) VF_PTRS( X ) VF_FLOATS( X ) X( Plain ) X( Three ) X( Unspec ) X( OneByte ) X( Pair2<int> ) X( Pair2<unsigned char> ) X( Pair2<char> ) X( Pair2<short> ) X( Pair2<float> ) X( Pair2<int*> ) X( Pair2<Pair2<unsigned short>> ) X( Pair2<Three> ) X( ut::Contig ) X( ut::Contig1 ) X( ut::D1 ) X( ut::DPad ) X( ut::TI ) X( ut::UTup ) X( h2::digest<8> ) X( std::string )
#if defined(__cpp_char8_t)
    X( char8_t )
#endif
#undef X
#define X( T ) documented<T>( #T, true, sizeof( T ) == 1 );
    VF_INTS( X ) VF_ENUMS( X ) X( int* ) X( void const* ) X( void** ) X( fnptr ) X( char const volatile* ) X( std::string* )
#undef X
#define X( T ) documented<T>( #T, false, sizeof( T ) == 1 );
    X( float ) X( double ) X( std::nullptr_t ) X( Unspec ) X( OneByte ) X( ut::DPad ) X( ut::D0 ) X( ut::D1 ) X( ut::TI ) X( std::string ) X( std::vector<int> ) X( Part ) X( h2::digest<4> ) X( h2::digest<1> )
#undef X
    { typedef std::pair<int, int> PI; documented<PI>( "pair<int,int>", false, false ); typedef std::array<int, 2> A2; documented<A2>( "array<int,2>", false, false ); typedef std::tuple<char> TC; documented<TC>( "tuple<char>", false, sizeof( TC ) == 1 ); documented<Three>( "Three", true, true ); documented<Plain>( "Plain", true, false ); typedef Pair2<char> PC; documented<PC>( "Pair2<char>", true, true ); typedef Pair2<float> PF; documented<PF>( "Pair2<float>", false, false ); documented<int const>( "int const", true, false ); documented<char const>( "char const", true, true ); documented<double const>( "double const", false, false ); documented<Three const>( "Three const", true, true ); documented<Part const>( "Part const", false, false ); typedef int* const PC2; documented<PC2>( "int* const", true, false ); typedef ut::E8 const EC; documented<EC>( "E8 const", true, true ); }
#define V( ... ) range<__VA_ARGS__>( #__VA_ARGS__, false );
    V( std::vector<int> ) V( std::vector<unsigned char> ) V( std::vector<bool> ) V( std::string ) V( std::u32string ) V( std::deque<short> ) V( std::list<int> ) V( std::forward_list<char> ) V( std::set<int> ) V( std::map<int, std::string> ) V( std::multimap<short, double> ) V( std::unordered_set<int> ) V( std::unordered_map<int, std::string> ) V( boost::unordered_multiset<int> ) V( ut::CRange<int> ) V( ut::LRange<int> ) V( ut::MyVec ) V( Uuid2 ) V( std::vector<std::array<int, 2>> ) V( std::list<h2::digest<16>> )
#undef V
#define V( ... ) range<__VA_ARGS__>( #__VA_ARGS__, true );
    V( std::array<int, 3> ) V( std::array<unsigned char, 1> ) V( std::array<std::string, 2> ) V( std::array<int, 0> ) V( std::array<std::vector<int>, 2> ) V( boost::array<int, 3> ) V( boost::array<std::string, 2> ) V( boost::array<int, 0> ) V( h2::digest<1> ) V( h2::digest<16> ) V( h2::digest<64> ) V( ut::FRange<int, 3> ) V( ut::FRange<int, 0> ) V( ut::FixOn<std::forward_list<int>, 3> ) V( ut::FixOn<std::forward_list<char>, 0> ) V( ut::FixOn<std::deque<unsigned char>, 5> ) V( ut::FixOn<std::map<int, char>, 2> ) V( ut::FixOnce<int, 3> ) V( ut::FixOnce<unsigned char, 16> ) V( ut::FixC<int, 3> ) V( ut::FixC<std::string, 2> ) V( Uuid ) V( std::pair<int, std::string> ) V( std::tuple<> ) V( std::tuple<int, char> ) V( ut::UTup )
#undef V
#if __cplusplus >= 202002L
    { // a range with a tuple size that is not its element count
        int a[5] = { 1, 2, 3, 4, 5 }; typedef std::ranges::subrange<int const*> SR; SR x( a, a + 1 ), y( a + 1, a + 3 ), z( a, a + 2 ), w( a + 2, a + 3 ); bool const c = h2::has_constant_size<SR>::value; lg().eval(); lg().distinct( fp( "subrange" ) );
        Rec g, h; h2::hash_append( g, {}, std::make_pair( x, y ) ); h2::hash_append( h, {}, std::make_pair( z, w ) ); if( c && x.size() != y.size() ) lg().violation( "constant size std::ranges::subrange", "std::ranges::subrange<int const*> is reported of constant size (its tuple size is 2), but has values of 1 and 2 elements; the pairs of subranges ({1},{2,3}) and ({1,2},{3}) have " + std::string( g.log == h.log ? "the same message " : "the messages " ) + hex( g.log ) + " " + hex( h.log ) );
        if( !c ){ Ctx k; k.f = flavor_of<h2::default_flavor>(); ser( k, 1 ); k.size( 1 ); ser( k, 2 ); ser( k, 3 ); k.size( 2 ); if( g.log != k.m ) lg().violation( "message std::ranges::subrange", "message " + hex( g.log ) + " expected " + hex( k.m ) ); }
    }
#endif
    Rng r( seed() * 77 + 23 );
    for( int i = 0; i < 40; ++i )
    {
        Plain p = gen<Plain>( r ); Three t = gen<Three>( r ); ut::Contig1 c = gen<ut::Contig1>( r ); typedef h2::big_endian_flavor B; typedef h2::little_endian_flavor L; typedef h2::default_flavor D;
        one_call<D>( "Plain", p, sizeof( Plain ), "alone" ); one_call<B>( "Three", t, 3, "alone" ); one_call<L>( "Three", t, 3, "alone" ); one_call<B>( "Contig1", c, 3, "alone" ); Three a[4] = { t, t, t, t }; one_call<B>( "Three", a, 12, "in an array" ); std::vector<Three> v( 5, t ); one_call<B>( "Three", v, 15, "in a vector" ); one_call<L>( "Three", v, 15, "in a vector" ); std::array<Three, 3> s = { { t, t, t } }; one_call<B>( "Three", s, 9, "in an array" ); std::vector<Plain> w( 6, p ); one_call<D>( "Plain", w, 6 * sizeof( Plain ), "in a vector" );
        Plain const pa[2] = { p, p }; one_call<D>( "Plain", pa, sizeof pa, "in a const array" ); int m[3][4] = { { i } }; one_call<D>( "int", m, sizeof m, "in a nested array" ); std::vector<unsigned char> u = r.buf( 40 ); one_call<B>( "unsigned char", u, 40, "in a vector" ); std::string q( 17, 'q' ); one_call<B>( "char", q, 17, "in a string" );
    }
    lg().sample( "claims of 4 traits confronted with storage bytes, equality and element counts of generated values; 24 user specializations" );
    fixed_arrays();
    return lg().finish();
}
