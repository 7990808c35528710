// C15/C16 (foreign containers): containers, views and ranges of the standard library and of Boost that the library does
// not name, with custom allocators, comparators and hashers. What each contributes follows from its iteration alone.
#include "types.hpp"
#include <boost/container/vector.hpp>
#include <boost/container/small_vector.hpp>
#include <boost/container/static_vector.hpp>
#include <boost/container/stable_vector.hpp>
#include <boost/container/devector.hpp>
#include <boost/container/deque.hpp>
#include <boost/container/list.hpp>
#include <boost/container/slist.hpp>
#include <boost/container/set.hpp>
#include <boost/container/map.hpp>
#include <boost/container/flat_set.hpp>
#include <boost/container/flat_map.hpp>
#include <boost/container/string.hpp>
#include <boost/unordered/unordered_flat_set.hpp>
#include <boost/unordered/unordered_flat_map.hpp>
#include <boost/unordered/unordered_node_set.hpp>
#include <boost/unordered/unordered_node_map.hpp>
#include <memory_resource>
#include <initializer_list>
#include <ranges>
#include <span>
#include <string_view>
#include <functional>
using namespace vf; namespace bc = boost::container;

namespace
{
template<class T> struct Al { typedef T value_type; int id = 7; Al( int i = 7 ): id( i ){} template<class U> Al( Al<U> const& o ): id( o.id ){} T* allocate( std::size_t n ){ return static_cast<T*>( ::operator new( n * sizeof( T ) + 16 ) ); } void deallocate( T* p, std::size_t ){ ::operator delete( p ); } bool operator==( Al const& o ) const { return id == o.id; } bool operator!=( Al const& o ) const { return id != o.id; } };
struct BadHash { template<class T> std::size_t operator()( T const& ) const { return 42; } };
struct LastDigit { bool operator()( int a, int b ) const { return a % 10 < b % 10; } };
enum Kind { SIZED, FIXED, UNORD };
template<class F, class R, class X> void one( char const* n, Kind k, X const& x )
{
    Ctx c; c.f = flavor_of<F>(); c.reduce = &R::reduce; u64 cnt = 0;
    bytes pre = { 1, 2, 3 }; R h; h.update( pre.data(), pre.size() ); c.m = pre; typedef std::iter_value_t<decltype( x.begin() )> E;
    if( k == UNORD ){ u64 w = 0; for( auto i = x.begin(); i != x.end(); ++i, ++cnt ){ Ctx e( c ); ser<E>( e, *i ); w += c.reduce( e.m ); } c.num( w, 8 ); c.size( cnt ); }
    else { for( auto i = x.begin(); i != x.end(); ++i, ++cnt ) ser<E>( c, *i ); if( k == SIZED ) c.size( cnt ); else if( cnt == 0 ) c.zero(); }
    h2::hash_append( h, F(), x ); lg().distinct( fp( h.log.data(), h.log.size(), fp( std::string( n ) + flavor_of<F>().name ) ) );
    if( h.log != c.m ) lg().violation( std::string( "foreign " ) + n, std::string( n ) + " of " + std::to_string( cnt ) + " elements in " + flavor_of<F>().name + ": message " + hex( h.log, 200 ) + " expected " + hex( c.m, 200 ) );
}
template<class X> void all( char const* n, Kind k, X const& x ){ one<h2::default_flavor, Rec>( n, k, x ); one<h2::big_endian_flavor, Rec>( n, k, x ); one<FlavL8, Rec>( n, k, x ); }
#define S( ... ) { __VA_ARGS__ x( v.begin(), v.end() ); all( #__VA_ARGS__, SIZED, x ); lg().count( "container types and values" ); }
#define U( ... ) { __VA_ARGS__ x( v.begin(), v.end() ); all( #__VA_ARGS__, UNORD, x ); lg().count( "container types and values" ); }
template<class T> void seqs( Rng& r )
{
    std::vector<T> v = gen<std::vector<T>>( r ); if( v.size() > 60 ) v.resize( 60 );
    S( std::vector<T, Al<T>> ) S( std::deque<T, Al<T>> ) S( std::list<T, Al<T>> ) S( std::forward_list<T, Al<T>> ) S( std::pmr::vector<T> ) S( std::pmr::deque<T> ) S( std::pmr::list<T> ) S( std::pmr::forward_list<T> )
    S( bc::vector<T> ) S( bc::small_vector<T, 4> ) S( bc::static_vector<T, 64> ) S( bc::stable_vector<T> ) S( bc::devector<T> ) S( bc::deque<T> ) S( bc::list<T> ) S( bc::slist<T> )
    std::span<T> s( v ); all( "span<T>", SIZED, s ); std::span<T const> t( v ); all( "span<T const>", SIZED, t ); if( v.size() >= 2 ){ std::span<T, 2> f( v.data(), 2 ); all( "span<T, 2>", SIZED, f ); std::span<T const, 1> g( v.data() + 1, 1 ); all( "span<T const, 1>", SIZED, g ); }
    if( v.size() >= 3 ){ std::initializer_list<T> il = { v[0], v[1], v[2], v[0] }; all( "initializer_list<T>", SIZED, il ); bool one = r.chance( 1, 2 ); std::initializer_list<T> i1 = { one ? v[1] : v[2] }; all( "initializer_list<T> of 1", SIZED, i1 ); std::initializer_list<T> i0 = {}; all( "initializer_list<T> of 0", SIZED, i0 ); }
    all( "ref_view", SIZED, std::views::all( v ) ); all( "take_view", SIZED, std::views::take( v, (std::ptrdiff_t)r.below( 9 ) ) ); all( "drop_view", SIZED, std::views::drop( v, (std::ptrdiff_t)r.below( 9 ) ) ); all( "reverse_view", SIZED, std::views::reverse( v ) ); all( "empty_view", SIZED, std::views::empty<T> );
    if( !v.empty() ) all( "single_view", SIZED, std::views::single( v[0] ) );
    std::vector<std::vector<T>> w( 1 + r.below( 3 ), v ); { std::vector<std::span<T const>> y; for( auto& q: w ) y.push_back( std::span<T const>( q ).subspan( r.below( q.size() + 1 ) ) ); lg().eval(); Rec a, b; std::vector<std::vector<T>> z; for( auto q: y ) z.emplace_back( q.begin(), q.end() ); h2::hash_append( a, h2::big_endian_flavor(), y ); h2::hash_append( b, h2::big_endian_flavor(), z ); if( a.log != b.log ) lg().violation( "foreign vector of spans", "a vector of spans and the vector of equal vectors differ" ); }
}
template<class T> void sets( Rng& r )
{
    std::vector<T> v = gen<std::vector<T>>( r ); if( v.size() > 60 ) v.resize( 60 ); if( v.size() > 2 ) v.push_back( v[1] );
    S( std::set<T, std::greater<T>> ) S( std::multiset<T, std::greater<>> ) S( std::set<T, std::less<>, Al<T>> ) S( std::pmr::set<T> ) S( bc::set<T> ) S( bc::multiset<T> ) S( bc::flat_set<T> ) S( bc::flat_multiset<T, std::greater<T>> )
    U( std::unordered_set<T, BadHash> ) U( std::unordered_multiset<T, BadHash> ) U( std::unordered_set<T, std::hash<T>, std::equal_to<>, Al<T>> ) U( std::pmr::unordered_set<T> ) U( boost::unordered_flat_set<T> ) U( boost::unordered_node_set<T> ) U( boost::unordered_set<T, BadHash> )
}
template<class K, class M> void maps( Rng& r )
{
    std::map<K, M> v = gen<std::map<K, M>>( r );
    S( std::map<K, M, std::greater<K>> ) S( std::multimap<K, M, std::greater<>> ) S( std::pmr::map<K, M> ) S( bc::map<K, M> ) S( bc::flat_map<K, M> ) S( bc::flat_multimap<K, M, std::greater<K>> ) S( std::vector<std::pair<K, M>> ) S( bc::stable_vector<std::pair<K const, M>> )
    U( std::unordered_map<K, M, BadHash> ) U( std::unordered_multimap<K, M, BadHash> ) U( std::pmr::unordered_map<K, M> ) U( boost::unordered_flat_map<K, M> ) U( boost::unordered_node_map<K, M> ) U( boost::unordered_multimap<K, M, BadHash> )
}
template<class C> void strs( Rng& r )
{
    std::basic_string<C> v; std::size_t n = gen_count( r ); while( n-- ) v.push_back( (C)r.next() );
    S( std::basic_string<C, std::char_traits<C>, Al<C>> ) S( std::pmr::basic_string<C> ) S( bc::basic_string<C> ) S( std::vector<C> ) S( std::basic_string_view<C> )
    std::basic_string_view<C> w( v ); if( !w.empty() ){ all( "string_view tail", SIZED, w.substr( 1 ) ); all( "string_view head", SIZED, w.substr( 0, w.size() / 2 ) ); }
}
}
int main()
{
    Rng r( seed() * 86028121 + 15 );
    for( u64 k = 0; k < 300 * scale(); ++k )
    {
#if VF_GROUP == 0
        seqs<int>( r ); seqs<unsigned char>( r );
#elif VF_GROUP == 1
        seqs<std::string>( r ); seqs<ut::D1>( r );
#elif VF_GROUP == 2
        seqs<ut::Contig>( r ); seqs<std::array<short, 2>>( r );
#elif VF_GROUP == 3
        sets<int>( r ); sets<std::string>( r );
#elif VF_GROUP == 4
        maps<int, std::string>( r ); maps<std::string, std::vector<short>>( r );
#else
        strs<char>( r ); strs<wchar_t>( r ); strs<char8_t>( r ); strs<char16_t>( r ); strs<char32_t>( r );
        { std::vector<int> v = gen<std::vector<int>>( r ); if( v.size() > 60 ) v.resize( 60 ); S( std::set<int, LastDigit> ) S( std::multiset<int, LastDigit> ) S( std::vector<bool, Al<bool>> ) S( bc::vector<bool> ) S( std::pmr::vector<bool> ) S( std::deque<bool> ) }
        { int a = (int)r.below( 50 ), b = a + (int)r.below( 40 ); all( "iota_view", SIZED, std::views::iota( a, b ) ); all( "transform_view", SIZED, std::views::transform( std::views::iota( a, b ), []( int i ){ return (long long)i * i; } ) ); }
#endif
    }
    lg().sample( "60 container, view and range types of the standard library and of Boost with custom allocators, comparators and hashers" );
    return lg().finish();
}
