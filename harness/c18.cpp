// C18: equal values <=> equal messages. Monitor: messages of large pools of values of one type (all small ones, values
// whose contents imitate the bytes of sizes, random ones), grouped by message; and many representations of one value.
#include "types.hpp"
#include "bigarr.hpp"
#include "algs.hpp"
#include <algorithm>
using namespace vf;
#ifndef VF_GROUP
# define VF_GROUP 0
#endif

// ---- all small values of a type, at most `lim`
template<class T, class En = void> struct En_;
template<class T> static std::vector<T> small( std::size_t lim ){ std::vector<T> v = En_<T>::go( lim ); if( v.size() > lim ) v.resize( lim ); return v; }
template<class T> struct En_<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type> { static std::vector<T> go( std::size_t ){ std::vector<T> v = { 0, 1, 2, (T)-1, 8 }; if( sizeof( T ) > 1 ) { v.push_back( (T)0x100 ); v.push_back( (T)0x101 ); } return v; } };
template<> struct En_<bool> { static std::vector<bool> go( std::size_t ){ return { false, true }; } };
template<class T> struct En_<T, typename std::enable_if<std::is_enum<T>::value>::type> { static std::vector<T> go( std::size_t l ){ std::vector<T> v; for( auto x: small<typename std::underlying_type<T>::type>( l ) ) v.push_back( (T)x ); return v; } };
template<class T> struct En_<T, typename std::enable_if<std::is_floating_point<T>::value>::type> { static std::vector<T> go( std::size_t ){ return { 0, 1, -1, T( 0.5 ), std::numeric_limits<T>::denorm_min(), -std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::infinity() }; } };
template<class V> static std::vector<V> seqs( std::size_t lim )
{
    typedef typename V::value_type E; std::size_t per = lim <= 8 ? 2 : lim <= 60 ? 3 : lim <= 400 ? 7 : lim <= 3000 ? 14 : 30; std::vector<E> e = small<E>( per ); per = e.size(); std::vector<V> out; std::vector<std::vector<std::size_t>> cur( 1 );
    for( int len = 0; len < 7 && out.size() < lim; ++len )
    {
        for( auto const& c: cur ){ if( out.size() >= lim ) break; std::vector<E> t; for( std::size_t i: c ) t.push_back( e[i] ); out.push_back( V( t.begin(), t.end() ) ); }
        if( cur.size() * per > 4 * lim ) break; std::vector<std::vector<std::size_t>> nx; for( auto const& c: cur ) for( std::size_t i = 0; i < per; ++i ){ auto d = c; d.push_back( i ); nx.push_back( d ); } cur.swap( nx );
    }
    return out;
}
template<class T> struct En_<std::vector<T>> { static std::vector<std::vector<T>> go( std::size_t l ){ return seqs<std::vector<T>>( l ); } };
template<class T> struct En_<std::list<T>> { static std::vector<std::list<T>> go( std::size_t l ){ return seqs<std::list<T>>( l ); } };
template<class T> struct En_<std::deque<T>> { static std::vector<std::deque<T>> go( std::size_t l ){ return seqs<std::deque<T>>( l ); } };
template<class T> struct En_<std::forward_list<T>> { static std::vector<std::forward_list<T>> go( std::size_t l ){ return seqs<std::forward_list<T>>( l ); } };
template<class T> struct En_<std::basic_string<T>> { static std::vector<std::basic_string<T>> go( std::size_t l ){ return seqs<std::basic_string<T>>( l ); } };
template<class T> struct En_<std::set<T>> { static std::vector<std::set<T>> go( std::size_t l ){ return seqs<std::set<T>>( l ); } };
template<class T> struct En_<std::multiset<T>> { static std::vector<std::multiset<T>> go( std::size_t l ){ return seqs<std::multiset<T>>( l ); } };
template<class A, class B> static std::vector<std::pair<A, B>> pairs( std::size_t lim ){ std::size_t k = 2; while( k * k < lim ) ++k; std::vector<A> a = small<A>( k ); std::vector<B> b = small<B>( lim / ( a.size() ? a.size() : 1 ) + 1 ); std::vector<std::pair<A, B>> v; for( auto const& x: a ) for( auto const& y: b ) if( v.size() < lim ) v.push_back( { x, y } ); return v; }
template<class A, class B> struct En_<std::pair<A, B>> { static std::vector<std::pair<A, B>> go( std::size_t l ){ return pairs<A, B>( l ); } };
template<class M> static std::vector<M> mapsof( std::size_t lim ){ typedef std::pair<typename M::key_type, typename M::mapped_type> P; std::vector<M> v; for( auto const& s: seqs<std::vector<P>>( lim ) ){ M m; for( auto const& p: s ) m.insert( typename M::value_type( p.first, p.second ) ); v.push_back( m ); } return v; }
template<class K, class V> struct En_<std::map<K, V>> { static std::vector<std::map<K, V>> go( std::size_t l ){ return mapsof<std::map<K, V>>( l ); } };
template<class K, class V> struct En_<std::multimap<K, V>> { static std::vector<std::multimap<K, V>> go( std::size_t l ){ return mapsof<std::multimap<K, V>>( l ); } };
template<class A, class B> struct En_<std::tuple<A, B>> { static std::vector<std::tuple<A, B>> go( std::size_t l ){ std::vector<std::tuple<A, B>> v; for( auto const& p: pairs<A, B>( l ) ) v.push_back( std::tuple<A, B>( p.first, p.second ) ); return v; } };
template<class A, class B, class C> struct En_<std::tuple<A, B, C>> { static std::vector<std::tuple<A, B, C>> go( std::size_t l ){ std::vector<std::tuple<A, B, C>> v; for( auto const& p: pairs<std::pair<A, B>, C>( l ) ) v.push_back( std::tuple<A, B, C>( p.first.first, p.first.second, p.second ) ); return v; } };
template<> struct En_<std::tuple<>> { static std::vector<std::tuple<>> go( std::size_t ){ return std::vector<std::tuple<>>( 1 ); } };
template<class T> struct En_<std::array<T, 2>> { static std::vector<std::array<T, 2>> go( std::size_t l ){ std::vector<std::array<T, 2>> v; for( auto const& p: pairs<T, T>( l ) ) v.push_back( std::array<T, 2>{ { p.first, p.second } } ); return v; } };
template<> struct En_<ut::D1> { static std::vector<ut::D1> go( std::size_t l ){ std::vector<ut::D1> v; for( auto const& p: pairs<int, std::string>( l ) ){ ut::D1 d; d.x = p.first; d.s = p.second; v.push_back( d ); } return v; } };
template<> struct En_<ut::D2> { static std::vector<ut::D2> go( std::size_t l ){ std::vector<ut::D2> v; for( auto const& p: pairs<ut::D1, std::vector<short>>( l ) ){ ut::D2 d; static_cast<ut::D1&>( d ) = p.first; d.v = p.second; v.push_back( d ); } return v; } };
template<class T> struct En_<ut::DT<T>> { static std::vector<ut::DT<T>> go( std::size_t l ){ std::vector<ut::DT<T>> v; for( auto const& p: pairs<T, std::vector<T>>( l ) ){ ut::DT<T> d; d.t = p.first; d.v = p.second; v.push_back( d ); } return v; } };
template<> struct En_<ut::DPad> { static std::vector<ut::DPad> go( std::size_t l ){ std::vector<ut::DPad> v; for( auto const& p: pairs<std::pair<char, char>, double>( l ) ){ ut::DPad d; std::memset( (void*)&d, (int)v.size(), sizeof d ); d.c = p.first.first; d.e = p.first.second; d.d = p.second; v.push_back( d ); } return v; } };
template<> struct En_<ut::TI> { static std::vector<ut::TI> go( std::size_t l ){ std::vector<ut::TI> v; for( auto const& p: pairs<std::string, u16>( l ) ) v.push_back( ut::TI( p.first, p.second, (int)v.size() ) ); return v; } };
template<> struct En_<ut::Contig> { static std::vector<ut::Contig> go( std::size_t l ){ std::vector<ut::Contig> v; for( auto const& p: pairs<u16, u16>( l ) ) v.push_back( ut::Contig{ p.first, p.second } ); return v; } };
template<> struct En_<ut::UTup> { static std::vector<ut::UTup> go( std::size_t l ){ std::vector<ut::UTup> v; for( auto const& p: pairs<short, std::string>( l ) ){ ut::UTup d; d.a = p.first; d.b = p.second; v.push_back( d ); } return v; } };

// ---- values whose contents look like sizes: bytes drawn from the images of small sizes in all flavors
struct MRng: Rng { using Rng::Rng; };
static std::string mimic( Rng& r ){ static char const* const w[] = { "\0\0\0\0\0\0\0", "\1\0\0\0\0\0\0\0", "\0\0\0\0\0\0\0\1", "\2\0\0\0\0\0\0\0", "\0\0\0\0\0\0\0\2", "\0\1", "\1", "\2", "\x10\0\0\0\0\0\0\0", "\0\0\0\0\0\0\0\x10" }; static std::size_t const n[] = { 7, 8, 8, 8, 8, 2, 1, 1, 8, 8 }; std::string s; for( std::size_t k = r.below( 5 ); k--; ){ std::size_t i = r.below( 10 ); s.append( w[i], n[i] ); } return s; }
template<class T> struct Mim { static T go( Rng& r ){ return gen<T>( r ); } };
template<> struct Mim<std::string> { static std::string go( Rng& r ){ return mimic( r ); } };
template<> struct Mim<u8> { static u8 go( Rng& r ){ return (u8)r.below( 3 ); } };
template<> struct Mim<char> { static char go( Rng& r ){ return (char)r.below( 3 ); } };
template<class T> struct Mim<std::vector<T>> { static std::vector<T> go( Rng& r ){ std::vector<T> v; for( std::size_t k = r.below( 4 ); k--; ) v.push_back( Mim<T>::go( r ) ); return v; } };
template<> struct Mim<std::vector<u8>> { static std::vector<u8> go( Rng& r ){ std::string s = mimic( r ); return std::vector<u8>( s.begin(), s.end() ); } };
template<class T> struct Mim<std::list<T>> { static std::list<T> go( Rng& r ){ std::list<T> v; for( std::size_t k = r.below( 4 ); k--; ) v.push_back( Mim<T>::go( r ) ); return v; } };
template<class A, class B> struct Mim<std::pair<A, B>> { static std::pair<A, B> go( Rng& r ){ A a = Mim<A>::go( r ); return { a, Mim<B>::go( r ) }; } };
template<class A, class B> struct Mim<std::map<A, B>> { static std::map<A, B> go( Rng& r ){ std::map<A, B> v; for( std::size_t k = r.below( 4 ); k--; ){ A a = Mim<A>::go( r ); v[ a ] = Mim<B>::go( r ); } return v; } };
template<class... T> struct Mim<std::tuple<T...>> { static std::tuple<T...> go( Rng& r ){ (void)r; return std::tuple<T...>{ Mim<T>::go( r )... }; } };
template<class T> struct Mim<std::array<T, 2>> { static std::array<T, 2> go( Rng& r ){ std::array<T, 2> a; a[0] = Mim<T>::go( r ); a[1] = Mim<T>::go( r ); return a; } };
template<class T> struct Mim<ut::DT<T>> { static ut::DT<T> go( Rng& r ){ ut::DT<T> a; a.t = Mim<T>::go( r ); a.v = Mim<std::vector<T>>::go( r ); return a; } };

template<class F, class T> static void pool( char const* tn, std::vector<T> const& v )
{
    struct H { std::size_t operator()( bytes const& b ) const { return (std::size_t)fp( b.data(), b.size() ); } };
    std::unordered_map<bytes, std::size_t, H> seen; u64 dup = 0;
    for( std::size_t i = 0; i < v.size(); ++i )
    {
        Rec r; h2::hash_append( r, F(), v[i] );
        if( r.log.empty() ) lg().violation( std::string( "empty message " ) + tn, std::string( tn ) + " in " + flavor_of<F>().name + " flavor: hash_append passed no bytes" );
        auto it = seen.insert( { r.log, i } ); lg().distinct( fp( r.log.data(), r.log.size(), fp( std::string( tn ) + flavor_of<F>().name ) ) );
        if( !it.second ){ ++dup; if( !( v[ it.first->second ] == v[i] ) ){ bytes a = expected<h2::little_endian_flavor, Rec>( v[i] ), b = expected<h2::little_endian_flavor, Rec>( v[ it.first->second ] ); lg().violation( std::string( "ambiguous " ) + tn, std::string( tn ) + " in " + flavor_of<F>().name + " flavor: two unequal values give the message " + hex( r.log, 120 ) + " (they should serialize as " + hex( a, 120 ) + " and " + hex( b, 120 ) + ")" ); } }
    }
    // equal values have equal messages: group by the documented serialization (floats compare by value there)
    std::unordered_map<bytes, bytes, H> rev; for( auto const& x: v ){ Rec r; h2::hash_append( r, F(), x ); bytes c = expected<h2::big_endian_flavor, Rec>( x ); auto it = rev.insert( { c, r.log } ); lg().eval(); if( it.first->second != r.log ) lg().violation( std::string( "unstable " ) + tn, std::string( tn ) + ": equal values give the messages " + hex( it.first->second, 100 ) + " and " + hex( r.log, 100 ) ); }
    lg().count( "values pooled", v.size() ); lg().count( "equal values met", dup );
}
template<class T> static void type( char const* tn )
{
    Rng r( seed() * 122949829 + fp( tn ) ); std::vector<T> v = small<T>( thorough() ? 40000 : 4000 ); std::size_t n = v.size();
    for( u64 k = 0; k < 1500 * scale(); ++k ){ v.push_back( Mim<T>::go( r ) ); v.push_back( gen<T>( r ) ); }
    lg().count( "small values enumerated", n );
    pool<h2::default_flavor>( tn, v ); pool<h2::big_endian_flavor>( tn, v ); pool<FlavB16>( tn, v ); pool<FlavB32>( tn, v );
}
// ---- representations of one value
template<class F, class T> static void reps( char const* tn, std::vector<T> const& v ){ bytes m; for( std::size_t i = 0; i < v.size(); ++i ){ Rec r; h2::hash_append( r, F(), v[i] ); lg().distinct( fpv( i, fp( r.log.data(), r.log.size(), fp( tn ) ) ) ); if( i == 0 ) m = r.log; else if( r.log != m ) lg().violation( std::string( "representation " ) + tn, std::string( tn ) + ": representation " + std::to_string( i ) + " of a value gives the message " + hex( r.log ) + " instead of " + hex( m ) ); } }
template<class T> static void reps2( char const* tn, std::vector<T> const& v ){ reps<h2::default_flavor>( tn, v ); reps<h2::big_endian_flavor>( tn, v ); }
template<class E> static void vec_reps( char const* tn, Rng& r )
{
    typedef std::vector<E> V; std::vector<V> f; V a = gen<V>( r ); f.push_back( a ); { V b; b.reserve( a.size() + 1 + r.below( 99 ) ); b = a; V c; c.reserve( a.size() * 2 + 7 ); for( auto const& x: a ) c.push_back( x ); f.push_back( std::move( c ) ); f.push_back( b ); V d( a ); d.push_back( gen<E>( r ) ); d.pop_back(); f.push_back( d ); V e( a ); e.insert( e.begin(), gen<E>( r ) ); e.erase( e.begin() ); f.push_back( std::move( e ) ); } reps2( tn, f );
    std::vector<std::deque<E>> g; { std::deque<E> b( a.begin(), a.end() ), c, d; for( auto it = a.rbegin(); it != a.rend(); ++it ) c.push_front( *it ); for( int i = 0; i < 300; ++i ) d.push_back( gen<E>( r ) ); for( auto const& x: a ) d.push_back( x ); for( int i = 0; i < 300; ++i ) d.pop_front(); g = { b, c, d }; } reps2( ( std::string( "deque from " ) + tn ).c_str(), g );
    std::vector<std::list<E>> l; { std::list<E> b( a.begin(), a.end() ), c( b ), d; c.reverse(); c.reverse(); for( auto const& x: a ){ d.push_back( x ); d.push_back( x ); } bool k = false; for( auto it = d.begin(); it != d.end(); k = !k ){ if( k ) it = d.erase( it ); else ++it; } l = { b, c, d }; } reps2( ( std::string( "list from " ) + tn ).c_str(), l );
    // the same elements in any sequence container: one message
    Rec x, y, z, w; h2::hash_append( x, h2::big_endian_flavor(), a ); h2::hash_append( y, h2::big_endian_flavor(), std::list<E>( a.begin(), a.end() ) ); h2::hash_append( z, h2::big_endian_flavor(), std::deque<E>( a.begin(), a.end() ) ); h2::hash_append( w, h2::big_endian_flavor(), std::forward_list<E>( a.begin(), a.end() ) ); lg().eval(); if( x.log != y.log || x.log != z.log || x.log != w.log ) lg().violation( std::string( "container kinds " ) + tn, std::string( tn ) + ": vector, list, deque and forward_list of the same elements differ" );
}
static void other_reps( Rng& r )
{
    { std::string s = gen<std::string>( r ); std::vector<std::string> f( 1, s ); std::string t; t.reserve( 500 ); t = s; f.push_back( std::move( t ) ); std::string u = s + "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"; u.resize( s.size() ); f.push_back( std::move( u ) ); std::string w = s; w.shrink_to_fit(); f.push_back( w ); reps2( "string", f ); }
    { std::vector<int> e = gen<std::vector<int>>( r ); std::vector<std::set<int>> f; for( int k = 0; k < 4; ++k ){ for( std::size_t i = e.size(); i > 1; --i ) std::swap( e[ i - 1 ], e[ r.below( i ) ] ); f.push_back( std::set<int>( e.begin(), e.end() ) ); } reps2( "set", f ); std::vector<std::multiset<int>> g; for( int k = 0; k < 4; ++k ){ for( std::size_t i = e.size(); i > 1; --i ) std::swap( e[ i - 1 ], e[ r.below( i ) ] ); g.push_back( std::multiset<int>( e.begin(), e.end() ) ); } reps2( "multiset", g ); std::vector<std::map<int, int>> h; for( int k = 0; k < 4; ++k ){ for( std::size_t i = e.size(); i > 1; --i ) std::swap( e[ i - 1 ], e[ r.below( i ) ] ); std::map<int, int> m; for( int x: e ) m[ x ] = x * 3; h.push_back( m ); } reps2( "map", h ); }
    { std::vector<ut::DPad> f; ut::DPad p = gen<ut::DPad>( r ); for( int k = 0; k < 5; ++k ){ ut::DPad d; std::memset( (void*)&d, (int)r.next(), sizeof d ); d.c = p.c; d.d = p.d; d.e = p.e; f.push_back( p ); std::memcpy( (void*)&f.back(), &d, sizeof d ); } reps2( "padded structure", f ); std::vector<std::vector<ut::DPad>> g; for( auto const& d: f ){ g.push_back( std::vector<ut::DPad>( 2, p ) ); std::memcpy( (void*)&g.back()[1], &d, sizeof d ); } reps2( "vector of padded structures", g ); }
    { std::vector<std::pair<char, long>> f; std::pair<char, long> p( gen<char>( r ), gen<long>( r ) ); for( int k = 0; k < 4; ++k ){ std::pair<char, long> q; std::memset( (void*)&q, (int)r.next(), sizeof q ); q.first = p.first; q.second = p.second; f.push_back( p ); std::memcpy( (void*)&f.back(), &q, sizeof q ); } reps2( "pair with padding", f ); }
    { double z = 0.0, m = -0.0; reps2<std::vector<double>>( "zeros", { { z, m }, { m, z }, { z, z }, { m, m } } ); reps2<std::pair<float, double>>( "zeros in pairs", { { 0.0f, m }, { -0.0f, z }, { 0.0f, 0.0 } } ); reps2<std::array<float, 2>>( "zeros in arrays", { { { 0.0f, -0.0f } }, { { -0.0f, -0.0f } }, { { 0.0f, 0.0f } } } ); reps2<std::map<int, double>>( "zeros in maps", { { { 1, z } }, { { 1, m } } } ); }
    { std::vector<ut::TI> f; ut::TI t = gen<ut::TI>( r ); for( int k = 0; k < 4; ++k ) f.push_back( ut::TI( t.name(), t.x(), (int)r.next() ) ); reps2( "customized type with undescribed state", f ); }
    { std::vector<std::nullptr_t> f( 3, nullptr ); reps2( "nullptr", f ); int x[2]; reps2<int*>( "pointers", { &x[1], x + 1, &x[0] + 1 } ); }
    { std::vector<bool> a = gen<std::vector<bool>>( r ), b; b.reserve( 700 ); for( bool q: a ) b.push_back( q ); std::vector<bool> c( 77, true ); c.insert( c.end(), a.begin(), a.end() ); c.erase( c.begin(), c.begin() + 77 ); reps2<std::vector<bool>>( "vector<bool>", { a, b, c } ); Rec x, y; h2::hash_append( x, {}, a ); h2::hash_append( y, {}, std::list<bool>( a.begin(), a.end() ) ); lg().eval(); if( x.log != y.log ) lg().violation( "container kinds bool", "vector<bool> and list<bool> differ" ); }
}
// ---- unordered containers, up to chance: all small ones under 64 bit and longer hashes
template<class H, class C> static void unord( char const* hn, char const* tn, std::vector<C> const& v )
{
    std::map<bytes, std::size_t> seen; for( std::size_t i = 0; i < v.size(); ++i ){ H h; h2::hash_append( h, h2::default_flavor(), v[i] ); auto it = seen.insert( { rbytes( h.result() ), i } ); lg().distinct( fpv( i, fp( std::string( hn ) + tn ) ) ); bool eq = it.second || v[ it.first->second ] == v[i]; if( !eq ) lg().violation( std::string( "unordered collision " ) + hn + " " + tn, std::string( tn ) + " with " + hn + ": two unequal containers of " + std::to_string( v[i].size() ) + " and " + std::to_string( v[ it.first->second ].size() ) + " elements hash the same" ); }
    lg().count( "unordered values pooled", v.size() );
}
template<class C, class S> static std::vector<C> conv( std::vector<S> const& s ){ std::vector<C> v; for( auto const& x: s ) v.push_back( C( x.begin(), x.end() ) ); return v; }
template<class C> static void unords( char const* tn, std::vector<C> const& v )
{
    /* not fnv1a: its element hashes are linear, so sums of them collide systematically, as documented */ unord<h2::xxhash_64>( "xxhash_64", tn, v ); unord<h2::siphash_64>( "siphash_64", tn, v ); unord<h2::md5_128>( "md5_128", tn, v ); unord<h2::sha2_256>( "sha2_256", tn, v ); unord<h2::sha2_512_224>( "sha2_512_224", tn, v ); unord<h2::hmac_sha1_160>( "hmac_sha1_160", tn, v ); unord<h2::ripemd_160>( "ripemd_160", tn, v );
}

// ---- long sequences: two neighbours whose zero elements are divided differently, at counts around every power of 256
struct RecFp { typedef u64 result_type; u64 a = 0x243F6A8885A308D3ull, b = 0x13198A2E03707344ull, n = 0; RecFp(){} explicit RecFp( u64 ){} RecFp( unsigned char const*, std::size_t ){}
    void update( void const* p, std::size_t k ){ u8 const* q = static_cast<u8 const*>( p ); n += k; for( std::size_t i = 0; i < k; ++i ){ a = ( a ^ q[i] ) * 0x9E3779B97F4A7C15ull; b = ( ( b << 7 ) | ( b >> 57 ) ) + q[i] + 0x632BE59BD9B4E019ull; b ^= b >> 29; } }
    u64 result(){ return a ^ b; } typedef std::tuple<u64, u64, u64> key_t; key_t key() const { return key_t( a, b, n ); } };
static std::vector<std::size_t> counts( std::size_t max ){ std::vector<std::size_t> v; for( std::size_t c: { 0ul, 1ul, 2ul, 8ul, 127ul, 128ul, 255ul, 256ul, 257ul, 511ul, 512ul, 4096ul, 32767ul, 32768ul, 65535ul, 65536ul, 65537ul, 65792ul, 131072ul, 1048576ul, 16777216ul } ) if( c <= max ) v.push_back( c ); return v; }
template<class F, class C> static void big( char const* tn, std::size_t max, C (*mk)( std::size_t ) )
{
    std::vector<std::size_t> cs = counts( max ); std::map<RecFp::key_t, std::pair<std::size_t, std::size_t>> seen; std::set<std::pair<std::size_t, std::size_t>> todo;
    for( std::size_t t: cs ) for( std::size_t c: cs ) if( c <= t ){ todo.insert( { c, t - c } ); todo.insert( { t - c, c } ); }
    for( auto const& p: todo ){ RecFp h; std::pair<C, C> const v( mk( p.first ), mk( p.second ) ); h2::hash_append( h, F(), v ); lg().distinct( fpv( p.first, fpv( p.second, fp( std::string( tn ) + flavor_of<F>().name ) ) ) ); auto it = seen.insert( { h.key(), p } );
        if( !it.second ) lg().violation( std::string( "ambiguous counts " ) + tn, std::string( "two adjacent " ) + tn + " in " + flavor_of<F>().name + " flavor: " + std::to_string( p.first ) + "+" + std::to_string( p.second ) + " and " + std::to_string( it.first->second.first ) + "+" + std::to_string( it.first->second.second ) + " elements give the same message of " + std::to_string( h.n ) + " bytes" ); }
    lg().count( "long pairs", todo.size() );
}
template<class C> static C zeros( std::size_t n ){ return C( n ); }
template<class C> static C iota( std::size_t n ){ C c; for( std::size_t i = 0; i < n; ++i ) c.insert( c.end(), typename C::value_type( (u8)0 ) ); return c; }
template<class T> static ut::CRange<T> crange( std::size_t n ){ ut::CRange<T> c; c.d.resize( n ); return c; }
template<class T> static ut::LRange<T> lrange( std::size_t n ){ ut::LRange<T> c; c.d.resize( n ); return c; }
template<class C> static void big2( char const* tn, std::size_t max, C (*mk)( std::size_t ) ){ big<h2::default_flavor>( tn, max, mk ); big<h2::big_endian_flavor>( tn, max / 4, mk ); big<FlavB32>( tn, max / 4, mk ); big<FlavB16>( tn, 32768, mk ); }
template<class It> static RecFp::key_t two_ranges( u64 n1, u64 n2 ){ RecFp h; h2::hash_append_sized_range( h, h2::default_flavor(), It( 0 ), It( n1 ) ); h2::hash_append_sized_range( h, h2::default_flavor(), It( 0 ), It( n2 ) ); return h.key(); }
template<class C> struct ZIt { typedef u8 value_type; typedef std::ptrdiff_t difference_type; typedef u8 const& reference; typedef u8 const* pointer; typedef C iterator_category; u64 i; explicit ZIt( u64 k = 0 ): i( k ){} u8 const& operator*() const { static u8 const z = 0; return z; } ZIt& operator++(){ ++i; return *this; } ZIt operator++( int ){ ZIt t( *this ); ++i; return t; } ZIt& operator--(){ --i; return *this; } ZIt operator--( int ){ ZIt t( *this ); --i; return t; } ZIt& operator+=( difference_type d ){ i += d; return *this; } ZIt& operator-=( difference_type d ){ i -= d; return *this; } friend ZIt operator+( ZIt a, difference_type d ){ return a += d; } friend ZIt operator+( difference_type d, ZIt a ){ return a += d; } friend ZIt operator-( ZIt a, difference_type d ){ return a -= d; } difference_type operator-( ZIt const& o ) const { return (difference_type)( i - o.i ); } u8 const& operator[]( difference_type ) const { return **this; }
    bool operator==( ZIt const& o ) const { return i == o.i; } bool operator!=( ZIt const& o ) const { return i != o.i; } bool operator<( ZIt const& o ) const { return i < o.i; } bool operator>( ZIt const& o ) const { return i > o.i; } bool operator<=( ZIt const& o ) const { return i <= o.i; } bool operator>=( ZIt const& o ) const { return i >= o.i; } };
template<class It> static void huge( char const* tn ){ u64 const N = 1ull << 32; std::map<RecFp::key_t, u64> seen; for( u64 c: std::vector<u64>( thorough() ? std::vector<u64>{ 0, N, 65536, N / 2 } : std::vector<u64>{ 0, N } ) ){ auto k = two_ranges<It>( c, N - c ); lg().eval(); lg().distinct( fpv( c, fp( tn ) ) ); auto it = seen.insert( { k, c } ); if( !it.second ) lg().violation( std::string( "ambiguous counts " ) + tn, std::string( "two adjacent " ) + tn + " of 2^32 elements in all, divided at " + std::to_string( c ) + " and at " + std::to_string( it.first->second ) + ", give the same message" ); } lg().count( "pairs of ranges of 2^32 elements", 2 ); }
static void big_all()
{
    std::size_t const M = 1048576, S = 131072;
    big2<std::vector<u8>>( "vector<unsigned char>", M, zeros ); big2<std::vector<char>>( "vector<char>", M, zeros ); big2<std::vector<short>>( "vector<short>", S, zeros ); big2<std::vector<bool>>( "vector<bool>", S, zeros ); big2<std::vector<double>>( "vector<double>", S, zeros ); big2<std::vector<std::tuple<>>>( "vector<tuple<>>", S, zeros ); big2<std::vector<ut::D0>>( "vector<D0>", S, zeros ); big2<std::vector<std::array<char, 2>>>( "vector<array<char,2>>", S, zeros ); big2<std::vector<std::pair<bool, char>>>( "vector<pair<bool,char>>", S, zeros ); big2<std::vector<ut::Contig>>( "vector<Contig>", S, zeros ); big2<std::vector<ut::Contig1>>( "vector<Contig1>", S, zeros );
    big2<std::string>( "string", M, []( std::size_t n ){ return std::string( n, '\0' ); } ); big2<std::u16string>( "u16string", S, []( std::size_t n ){ return std::u16string( n, u'\0' ); } ); big2<std::deque<u8>>( "deque<unsigned char>", S, zeros ); big2<std::deque<bool>>( "deque<bool>", S, zeros ); big2<std::list<u8>>( "list<unsigned char>", S, zeros ); big2<std::list<char>>( "list<char>", S, zeros ); big2<std::list<std::tuple<>>>( "list<tuple<>>", S, zeros ); big2<std::forward_list<u8>>( "forward_list<unsigned char>", S, zeros ); big2<std::forward_list<bool>>( "forward_list<bool>", S, zeros );
    big2<std::multiset<u8>>( "multiset<unsigned char>", S, iota ); big2<std::multimap<u8, char>>( "multimap<unsigned char,char>", S, []( std::size_t n ){ std::multimap<u8, char> c; while( n-- ) c.insert( c.end(), { (u8)0, '\0' } ); return c; } ); big2<ut::CRange<u8>>( "user contiguous range", S, crange ); big2<ut::CRange<char>>( "user contiguous range of char", S, crange ); big2<ut::LRange<u8>>( "user range", S, lrange );
    huge<ZIt<std::random_access_iterator_tag>>( "random access ranges" ); huge<ZIt<std::forward_iterator_tag>>( "forward ranges" ); 
}

int main()
{
#define X( ... ) type<__VA_ARGS__>( #__VA_ARGS__ );
#if VF_GROUP == 0
    X( bool ) X( char ) X( short ) X( unsigned ) X( long long ) X( wchar_t ) X( float ) X( double ) X( ut::ES ) X( std::string ) X( std::u16string ) X( std::wstring ) X( std::vector<u8> ) X( std::vector<int> ) X( std::vector<bool> ) X( std::vector<double> ) X( std::list<short> ) X( std::forward_list<char> ) X( std::deque<u8> ) X( std::set<int> ) X( std::multiset<u8> ) X( std::set<std::string> )
#elif VF_GROUP == 1
    X( std::vector<std::string> ) X( std::vector<std::vector<u8>> ) X( std::vector<std::vector<std::vector<u8>>> ) X( std::vector<std::vector<std::vector<std::vector<char>>>> ) X( std::list<std::vector<std::string>> ) X( std::pair<std::string, std::string> ) X( std::pair<std::vector<u8>, std::vector<u8>> ) X( std::pair<std::pair<std::string, std::string>, std::string> ) X( std::tuple<std::string, std::string, std::string> ) X( std::tuple<std::vector<u8>, u8, std::string> ) X( std::vector<std::pair<std::string, std::string>> ) X( std::array<std::string, 2> ) X( std::vector<std::array<std::string, 2>> ) X( std::array<std::vector<std::string>, 2> )
#elif VF_GROUP == 2
    X( std::map<std::string, std::string> ) X( std::map<u8, std::vector<u8>> ) X( std::map<std::string, std::vector<std::string>> ) X( std::multimap<u8, std::string> ) X( std::vector<std::map<u8, std::string>> ) X( ut::D1 ) X( ut::D2 ) X( ut::DT<std::string> ) X( ut::DT<ut::DT<u8>> ) X( std::vector<ut::D1> ) X( ut::DPad ) X( ut::TI ) X( std::vector<ut::TI> ) X( ut::Contig ) X( std::vector<ut::Contig> ) X( ut::UTup ) X( std::pair<ut::UTup, std::string> ) X( std::tuple<> ) X( std::vector<std::tuple<>> ) X( std::vector<std::vector<std::tuple<>>> ) X( std::pair<std::vector<std::tuple<>>, std::vector<u8>> ) X( std::tuple<bool, std::vector<bool>, std::string> )
#elif VF_GROUP == 4
    big_all();
#else
    Rng r( seed() * 15487469 );
    for( u64 k = 0; k < 400 * scale(); ++k ){ vec_reps<int>( "vector<int>", r ); vec_reps<u8>( "vector<unsigned char>", r ); vec_reps<std::string>( "vector<string>", r ); vec_reps<double>( "vector<double>", r ); vec_reps<ut::D1>( "vector<D1>", r ); vec_reps<ut::DPad>( "vector<DPad>", r ); vec_reps<ut::Contig1>( "vector<Contig1>", r ); other_reps( r ); }
    std::size_t const n = thorough() ? 20000 : 2500;
    unords( "unordered_multiset<uchar>", conv<std::unordered_multiset<u8>>( seqs<std::multiset<u8>>( n ) ) ); unords( "unordered_set<string>", conv<std::unordered_set<std::string>>( seqs<std::set<std::string>>( n ) ) ); unords( "unordered_map<uchar,string>", conv<std::unordered_map<u8, std::string>>( mapsof<std::map<u8, std::string>>( n ) ) ); unords( "unordered_multimap<string,string>", conv<std::unordered_multimap<std::string, std::string>>( mapsof<std::multimap<std::string, std::string>>( n ) ) ); unords( "boost::unordered_multiset<long>", conv<boost::unordered_multiset<long>>( seqs<std::multiset<long>>( n ) ) );
#endif
#undef X
    lg().sample( "all small values, values imitating size fields and random values of each type, grouped by message under 4 flavors" );
#if VF_GROUP == 0
    fixed_arrays();
#endif
    return lg().finish();
}
