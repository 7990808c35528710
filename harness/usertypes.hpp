// User-defined types exercising every documented customization point.
#ifndef VERIF_USERTYPES_HPP
#define VERIF_USERTYPES_HPP
#include "ser.hpp"

namespace ut
{
using vf::u8; using vf::u16; using vf::u32; using vf::u64;
enum E0 { e0a, e0b = 70000 };
enum class E8: unsigned char { a, b = 255 };
enum class ES: short { a = -1, b = 300 };
enum class EL: long long { a = -5 };
enum class EBool: bool { f, t };

// --- described classes
struct D0 {}; BOOST_DESCRIBE_STRUCT( D0, (), () )
struct D1 { int x; std::string s; bool operator==( D1 const& o ) const { return x == o.x && s == o.s; } }; BOOST_DESCRIBE_STRUCT( D1, (), ( x, s ) )
struct D2: D1 { std::vector<short> v; bool operator==( D2 const& o ) const { return D1::operator==( o ) && v == o.v; } }; BOOST_DESCRIBE_STRUCT( D2, ( D1 ), ( v ) )
struct DPad { char c; double d; char e; bool operator==( DPad const& o ) const { return c == o.c && d == o.d && e == o.e; } }; BOOST_DESCRIBE_STRUCT( DPad, (), ( c, d, e ) )   // padding must never be hashed
class DPriv
{
    int a_ = 0; BOOST_DESCRIBE_CLASS( DPriv, (), (), ( c_ ), ( a_, b_ ) )
protected: long c_ = 0; private: std::string b_;
public: DPriv(){} DPriv( int a, std::string b, long c ): a_( a ), c_( c ), b_( b ){} int a() const { return a_; } std::string b() const { return b_; } long c() const { return c_; }
    bool operator==( DPriv const& o ) const { return a_ == o.a_ && b_ == o.b_ && c_ == o.c_; }
};
struct DMulti: D0, D2, private DPriv { DMulti(){} DMulti( D2 const& d, DPriv const& p, unsigned char z_ ): D2( d ), DPriv( p ), z( z_ ){} unsigned char z = 0; DPriv const& priv() const { return *this; }
    bool operator==( DMulti const& o ) const { return D2::operator==( o ) && priv() == o.priv() && z == o.z; } BOOST_DESCRIBE_CLASS( DMulti, ( D0, D2, DPriv ), ( z ), (), () ) };
struct DOnlyBase: D1 { bool operator==( DOnlyBase const& o ) const { return D1::operator==( o ); } }; BOOST_DESCRIBE_STRUCT( DOnlyBase, ( D1 ), () )
struct DEmptyBase: D0 { int x; bool operator==( DEmptyBase const& o ) const { return x == o.x; } }; BOOST_DESCRIBE_STRUCT( DEmptyBase, ( D0 ), ( x ) )
struct DArr { int a[3]; char b[2][2]; float f[2]; std::string s[2]; bool operator==( DArr const& o ) const { for( int i = 0; i < 3; ++i ) if( a[i] != o.a[i] ) return false; for( int i = 0; i < 4; ++i ) if( b[i/2][i%2] != o.b[i/2][i%2] ) return false; return f[0] == o.f[0] && f[1] == o.f[1] && s[0] == o.s[0] && s[1] == o.s[1]; } };
BOOST_DESCRIBE_STRUCT( DArr, (), ( a, b, f, s ) )
struct DEnum { E8 e; EBool b; ES s; D0 z; bool operator==( DEnum const& o ) const { return e == o.e && b == o.b && s == o.s; } }; BOOST_DESCRIBE_STRUCT( DEnum, (), ( e, b, s, z ) )
template<class T> struct DT { T t; std::vector<T> v; bool operator==( DT const& o ) const { return t == o.t && v == o.v; } BOOST_DESCRIBE_CLASS( DT, (), ( t, v ), (), () ) };

// --- tag_invoke
class TI
{
    std::string name_; int skip_ = 0; u16 x_ = 0; // skip_ is not part of the value
public: TI(){} TI( std::string n, u16 x, int skip = 0 ): name_( n ), skip_( skip ), x_( x ){} std::string const& name() const { return name_; } u16 x() const { return x_; }
    bool operator==( TI const& o ) const { return name_ == o.name_ && x_ == o.x_; }
    template<class Provider, class Hash, class Flavor> friend BOOST_CXX14_CONSTEXPR void tag_invoke( Provider const&, Hash& h, Flavor const& f, TI const& v ){ boost::hash2::hash_append( h, f, v.x_ ); boost::hash2::hash_append( h, f, v.name_ ); }
};
struct TS // using hash_append_sized_range and hash_append_size from tag_invoke
{
    std::list<u16> l; u8 extra = 0;
    bool operator==( TS const& o ) const { return l == o.l && extra == o.extra; }
    template<class Hash, class Flavor> friend void tag_invoke( boost::hash2::hash_append_tag const&, Hash& h, Flavor const& f, TS const& v ){ boost::hash2::hash_append_sized_range( h, f, v.l.begin(), v.l.end() ); boost::hash2::hash_append_size( h, f, (int)v.extra ); }
};

// --- trait specializations
struct Contig { u16 a, b; bool operator==( Contig const& o ) const { return a == o.a && b == o.b; } };                 // hashed as raw bytes, in native order only
struct Contig1 { u8 a, b, c; bool operator==( Contig1 const& o ) const { return a == o.a && b == o.b && c == o.c; } }; // raw bytes in every flavor

// --- types whose address is not what & says, and which do not take part in comma expressions
struct Amp { int x; std::string s; static Amp& other(){ static Amp a[ 8 ] = { { -1, "other" } }; return a[ 0 ]; } Amp* operator&(){ return std::addressof( other() ); } Amp const* operator&() const { return std::addressof( other() ); } template<class T> void operator,( T&& ) const = delete; bool operator==( Amp const& o ) const { return x == o.x && s == o.s; } };
BOOST_DESCRIBE_STRUCT( Amp, (), ( x, s ) )
struct AmpC { u8 a, b; static AmpC const* other(){ static AmpC const a[ 600 ] = { { 9, 9 } }; return a; } AmpC const* operator&() const { return other(); } template<class T> void operator,( T&& ) const = delete; bool operator==( AmpC const& o ) const { return a == o.a && b == o.b; } };   // hashed as raw bytes
BOOST_DESCRIBE_STRUCT( AmpC, (), ( a, b ) )

// --- user ranges
template<class T> struct CRange // contiguous, variable size
{
    typedef T value_type; typedef T const* const_iterator; std::vector<T> d; T const* begin() const { return d.data(); } T const* end() const { return d.data() + d.size(); } T const* data() const { return d.data(); } std::size_t size() const { return d.size(); }
    bool operator==( CRange const& o ) const { return d == o.d; }
};
template<class T> struct LRange // bidirectional, no data()
{
    typedef T value_type; std::list<T> d; typedef typename std::list<T>::const_iterator const_iterator; const_iterator begin() const { return d.begin(); } const_iterator end() const { return d.end(); } bool operator==( LRange const& o ) const { return d == o.d; }
};
template<class T, std::size_t N> struct FRange // list based, but of constant size (specializes has_constant_size)
{
    typedef T value_type; std::list<T> d; typedef typename std::list<T>::const_iterator const_iterator; const_iterator begin() const { return d.begin(); } const_iterator end() const { return d.end(); } bool operator==( FRange const& o ) const { return d == o.d; }
};
// the same over any container, so with iterators of any category
template<class C> struct On
{
    typedef typename C::value_type value_type; typedef typename C::const_iterator const_iterator; C d; const_iterator begin() const { return d.begin(); } const_iterator end() const { return d.end(); } bool operator==( On const& o ) const { return d == o.d; }
};
template<class C, std::size_t N> struct FixOn: On<C> {};   // of constant size
template<class T, std::size_t N> struct FixC // contiguous, of constant size
{
    typedef T value_type; typedef T const* const_iterator; std::vector<T> d; T const* begin() const { return d.data(); } T const* end() const { return d.data() + d.size(); } T const* data() const { return d.data(); } T const& front() const { return d.front(); } std::size_t size() const { return d.size(); }
    bool operator==( FixC const& o ) const { return d == o.d; }
};
template<class T> struct Once // input iterators, the elements made as they are read
{
    typedef T value_type; std::vector<T> d;
    struct const_iterator { typedef std::input_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T const* pointer; typedef T reference; T const* p; T operator*() const { return *p; } T const* operator->() const { return p; } const_iterator& operator++(){ ++p; return *this; } const_iterator operator++( int ){ const_iterator t( *this ); ++p; return t; } bool operator==( const_iterator const& o ) const { return p == o.p; } bool operator!=( const_iterator const& o ) const { return p != o.p; } };
    const_iterator begin() const { return const_iterator{ d.data() }; } const_iterator end() const { return const_iterator{ d.data() + d.size() }; } bool operator==( Once const& o ) const { return d == o.d; }
};
template<class T, std::size_t N> struct FixOnce: Once<T> {};   // of constant size
struct MyVec: std::vector<int> {};
// --- user tuple
struct UTup { short a; std::string b; bool operator==( UTup const& o ) const { return a == o.a && b == o.b; } };
template<std::size_t I> typename std::enable_if<I == 0, short const&>::type get( UTup const& t ){ return t.a; }
template<std::size_t I> typename std::enable_if<I == 1, std::string const&>::type get( UTup const& t ){ return t.b; }
} // namespace ut

namespace std { template<> struct tuple_size<ut::UTup>: integral_constant<size_t, 2> {}; template<> struct tuple_element<0, ut::UTup> { typedef short type; }; template<> struct tuple_element<1, ut::UTup> { typedef std::string type; }; }
namespace boost { namespace hash2 {
template<> struct is_trivially_equality_comparable<ut::Contig>: std::true_type {};
template<> struct is_trivially_equality_comparable<ut::Contig1>: std::true_type {};
template<> struct is_endian_independent<ut::Contig1>: std::true_type {};
template<> struct is_trivially_equality_comparable<ut::AmpC>: std::true_type {};
template<> struct is_endian_independent<ut::AmpC>: std::true_type {};
template<class T, std::size_t N> struct has_constant_size<ut::FRange<T, N>>: std::true_type {};
template<class C, std::size_t N> struct has_constant_size<ut::FixOn<C, N>>: std::true_type {};
template<class T, std::size_t N> struct has_constant_size<ut::FixC<T, N>>: std::true_type {};
template<class T, std::size_t N> struct has_constant_size<ut::FixOnce<T, N>>: std::true_type {};
// in flavors of the other byte order a Contig is hashed member by member
template<class Hash, class Flavor> void tag_invoke_contig( Hash& h, Flavor const& f, ut::Contig const& v ){ hash_append( h, f, v.a ); hash_append( h, f, v.b ); }
} }
namespace ut { template<class Hash, class Flavor> void tag_invoke( boost::hash2::hash_append_tag const&, Hash& h, Flavor const& f, Contig const& v ){ boost::hash2::tag_invoke_contig( h, f, v ); }
               template<class Hash, class Flavor> void tag_invoke( boost::hash2::hash_append_tag const&, Hash& h, Flavor const& f, Contig1 const& v ){ boost::hash2::hash_append( h, f, v.a ); boost::hash2::hash_append( h, f, v.b ); boost::hash2::hash_append( h, f, v.c ); } }

namespace vf
{
template<> struct Ser<ut::D0> { static void go( Ctx& c, ut::D0 const& ){ c.zero(); } };
template<> struct Ser<ut::D1> { static void go( Ctx& c, ut::D1 const& v ){ ser( c, v.x ); ser( c, v.s ); } };
template<> struct Ser<ut::D2> { static void go( Ctx& c, ut::D2 const& v ){ ser( c, static_cast<ut::D1 const&>( v ) ); ser( c, v.v ); } };
template<> struct Ser<ut::DPad> { static void go( Ctx& c, ut::DPad const& v ){ ser( c, v.c ); ser( c, v.d ); ser( c, v.e ); } };
template<> struct Ser<ut::DPriv> { static void go( Ctx& c, ut::DPriv const& v ){ ser( c, v.c() ); ser( c, v.a() ); ser( c, v.b() ); } };   // protected members come before private ones in the description
template<> struct Ser<ut::DMulti> { static void go( Ctx& c, ut::DMulti const& v ){ c.zero(); ser( c, static_cast<ut::D2 const&>( v ) ); ser( c, v.priv() ); ser( c, v.z ); } };
template<> struct Ser<ut::DOnlyBase> { static void go( Ctx& c, ut::DOnlyBase const& v ){ ser( c, static_cast<ut::D1 const&>( v ) ); } };
template<> struct Ser<ut::DEmptyBase> { static void go( Ctx& c, ut::DEmptyBase const& v ){ c.zero(); ser( c, v.x ); } };
template<> struct Ser<ut::DArr> { static void go( Ctx& c, ut::DArr const& v ){ for( int x: v.a ) ser( c, x ); for( int i = 0; i < 4; ++i ) ser( c, v.b[i/2][i%2] ); ser( c, v.f[0] ); ser( c, v.f[1] ); ser( c, v.s[0] ); ser( c, v.s[1] ); } };
template<> struct Ser<ut::DEnum> { static void go( Ctx& c, ut::DEnum const& v ){ ser( c, v.e ); ser( c, v.b ); ser( c, v.s ); c.zero(); } };
template<class T> struct Ser<ut::DT<T>> { static void go( Ctx& c, ut::DT<T> const& v ){ ser( c, v.t ); ser( c, v.v ); } };
template<> struct Ser<ut::TI> { static void go( Ctx& c, ut::TI const& v ){ ser( c, v.x() ); ser( c, v.name() ); } };
template<> struct Ser<ut::TS> { static void go( Ctx& c, ut::TS const& v ){ ser( c, v.l ); c.size( v.extra ); } };
template<> struct Ser<ut::Contig> { static void go( Ctx& c, ut::Contig const& v ){ ser( c, v.a ); ser( c, v.b ); } };
template<> struct Ser<ut::Contig1> { static void go( Ctx& c, ut::Contig1 const& v ){ ser( c, v.a ); ser( c, v.b ); ser( c, v.c ); } };
template<> struct Ser<ut::Amp> { static void go( Ctx& c, ut::Amp const& v ){ ser( c, v.x ); ser( c, v.s ); } };
template<> struct Ser<ut::AmpC> { static void go( Ctx& c, ut::AmpC const& v ){ ser( c, v.a ); ser( c, v.b ); } };
template<class T> struct Ser<ut::CRange<T>> { static void go( Ctx& c, ut::CRange<T> const& v ){ ser( c, v.d ); } };
template<class T> struct Ser<ut::LRange<T>> { static void go( Ctx& c, ut::LRange<T> const& v ){ ser( c, v.d ); } };
template<class T, std::size_t N> struct Ser<ut::FRange<T, N>> { static void go( Ctx& c, ut::FRange<T, N> const& v ){ ser_fixed( c, v.d.begin(), v.d.end() ); } };
template<class C> struct Ser<ut::On<C>> { static void go( Ctx& c, ut::On<C> const& v ){ ser( c, v.d ); } };
template<class C, std::size_t N> struct Ser<ut::FixOn<C, N>> { static void go( Ctx& c, ut::FixOn<C, N> const& v ){ ser_fixed( c, v.d.begin(), v.d.end() ); } };
template<class T, std::size_t N> struct Ser<ut::FixC<T, N>> { static void go( Ctx& c, ut::FixC<T, N> const& v ){ ser_fixed( c, v.d.begin(), v.d.end() ); } };
template<class T> struct Ser<ut::Once<T>> { static void go( Ctx& c, ut::Once<T> const& v ){ ser( c, v.d ); } };
template<class T, std::size_t N> struct Ser<ut::FixOnce<T, N>> { static void go( Ctx& c, ut::FixOnce<T, N> const& v ){ ser_fixed( c, v.d.begin(), v.d.end() ); } };
template<> struct Ser<ut::MyVec> { static void go( Ctx& c, ut::MyVec const& v ){ ser( c, static_cast<std::vector<int> const&>( v ) ); } };
template<> struct Ser<ut::UTup> { static void go( Ctx& c, ut::UTup const& v ){ ser( c, v.a ); ser( c, v.b ); } };

template<> struct Gen<ut::E0> { static ut::E0 go( Rng& r ){ return static_cast<ut::E0>( gen<u32>( r ) & 0x1FFFF ); } };   // the values an enumeration without fixed underlying type can hold
template<> struct Gen<ut::D0> { static ut::D0 go( Rng& ){ return ut::D0(); } };
template<> struct Gen<ut::D1> { static ut::D1 go( Rng& r ){ ut::D1 v; v.x = gen<int>( r ); v.s = gen<std::string>( r ); return v; } };
template<> struct Gen<ut::D2> { static ut::D2 go( Rng& r ){ ut::D2 v; static_cast<ut::D1&>( v ) = gen<ut::D1>( r ); v.v = gen<std::vector<short>>( r ); return v; } };
template<> struct Gen<ut::DPad> { static ut::DPad go( Rng& r ){ ut::DPad v; u8 p = (u8)r.next(); for( std::size_t i = 0; i < sizeof v; ++i ) ( (u8*)&v )[i] = p; v.c = gen<char>( r ); v.d = gen<double>( r ); v.e = gen<char>( r ); return v; } };
template<> struct Gen<ut::DPriv> { static ut::DPriv go( Rng& r ){ int a = gen<int>( r ); std::string b = gen<std::string>( r ); return ut::DPriv( a, b, gen<long>( r ) ); } };
template<> struct Gen<ut::DMulti> { static ut::DMulti go( Rng& r ){ ut::D2 a = gen<ut::D2>( r ); ut::DPriv b = gen<ut::DPriv>( r ); return ut::DMulti( a, b, (u8)r.next() ); } };
template<> struct Gen<ut::DOnlyBase> { static ut::DOnlyBase go( Rng& r ){ ut::DOnlyBase v; static_cast<ut::D1&>( v ) = gen<ut::D1>( r ); return v; } };
template<> struct Gen<ut::DEmptyBase> { static ut::DEmptyBase go( Rng& r ){ ut::DEmptyBase v; v.x = gen<int>( r ); return v; } };
template<> struct Gen<ut::DArr> { static ut::DArr go( Rng& r ){ ut::DArr v; gen_into( r, v.a ); gen_into( r, v.b ); gen_into( r, v.f ); gen_into( r, v.s ); return v; } };
template<> struct Gen<ut::DEnum> { static ut::DEnum go( Rng& r ){ ut::DEnum v; v.e = gen<ut::E8>( r ); v.b = gen<ut::EBool>( r ); v.s = gen<ut::ES>( r ); return v; } };
template<class T> struct Gen<ut::DT<T>> { static ut::DT<T> go( Rng& r ){ ut::DT<T> v; v.t = gen<T>( r ); v.v = gen<std::vector<T>>( r ); return v; } };
template<> struct Gen<ut::TI> { static ut::TI go( Rng& r ){ std::string s = gen<std::string>( r ); u16 x = gen<u16>( r ); return ut::TI( s, x, (int)r.next() ); } };
template<> struct Gen<ut::TS> { static ut::TS go( Rng& r ){ ut::TS v; v.l = gen<std::list<u16>>( r ); v.extra = (u8)r.next(); return v; } };
template<> struct Gen<ut::Contig> { static ut::Contig go( Rng& r ){ ut::Contig v; v.a = gen<u16>( r ); v.b = gen<u16>( r ); return v; } };
template<> struct Gen<ut::Contig1> { static ut::Contig1 go( Rng& r ){ ut::Contig1 v; v.a = (u8)r.next(); v.b = (u8)r.next(); v.c = (u8)r.next(); return v; } };
template<> struct Gen<ut::Amp> { static ut::Amp go( Rng& r ){ ut::Amp v; v.x = gen<int>( r ); v.s = gen<std::string>( r ); return v; } };
template<> struct Gen<ut::AmpC> { static ut::AmpC go( Rng& r ){ ut::AmpC v; v.a = (u8)r.next(); v.b = (u8)r.next(); return v; } };
template<class T> struct Gen<ut::CRange<T>> { static ut::CRange<T> go( Rng& r ){ ut::CRange<T> v; v.d = gen<std::vector<T>>( r ); return v; } };
template<class T> struct Gen<ut::LRange<T>> { static ut::LRange<T> go( Rng& r ){ ut::LRange<T> v; v.d = gen<std::list<T>>( r ); return v; } };
template<class T, std::size_t N> struct Gen<ut::FRange<T, N>> { static ut::FRange<T, N> go( Rng& r ){ ut::FRange<T, N> v; for( std::size_t i = 0; i < N; ++i ) v.d.push_back( gen<T>( r ) ); return v; } };
template<class V> inline auto put( V& v, typename V::value_type const& x, int ) -> decltype( v.push_back( x ) ){ v.push_back( x ); }
template<class V> inline auto put( V& v, typename V::value_type const& x, long ) -> decltype( v.push_front( x ) ){ v.push_front( x ); }
template<class V> inline auto put( V& v, typename V::value_type const& x, ... ) -> decltype( v.insert( x ), void() ){ v.insert( x ); }
template<class C> struct Gen<ut::On<C>> { static ut::On<C> go( Rng& r ){ ut::On<C> v; v.d = gen<C>( r ); return v; } };
template<class C, std::size_t N> struct Gen<ut::FixOn<C, N>> { static ut::FixOn<C, N> go( Rng& r ){ ut::FixOn<C, N> v; while( (std::size_t)std::distance( v.d.begin(), v.d.end() ) < N ) put( v.d, gen<typename C::value_type>( r ), 0 ); return v; } };
template<class T, std::size_t N> struct Gen<ut::FixC<T, N>> { static ut::FixC<T, N> go( Rng& r ){ ut::FixC<T, N> v; while( v.d.size() < N ) v.d.push_back( gen<T>( r ) ); return v; } };
template<class T> struct Gen<ut::Once<T>> { static ut::Once<T> go( Rng& r ){ ut::Once<T> v; v.d = gen<std::vector<T>>( r ); return v; } };
template<class T, std::size_t N> struct Gen<ut::FixOnce<T, N>> { static ut::FixOnce<T, N> go( Rng& r ){ ut::FixOnce<T, N> v; while( v.d.size() < N ) v.d.push_back( gen<T>( r ) ); return v; } };
template<> struct Gen<ut::MyVec> { static ut::MyVec go( Rng& r ){ ut::MyVec v; static_cast<std::vector<int>&>( v ) = gen<std::vector<int>>( r ); return v; } };
template<> struct Gen<ut::UTup> { static ut::UTup go( Rng& r ){ ut::UTup v; v.a = gen<short>( r ); v.b = gen<std::string>( r ); return v; } };
} // namespace vf

// type lists (each entry is a complete type)
#define VF_T( ... ) X( __VA_ARGS__ )
#endif
