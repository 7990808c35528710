// C13/C15/C16/C17: for every value of every supported type, hash_append produces exactly the documented message.
// The list of types to drive is chosen with -DVF_LIST=...; the oracle is the independent serializer in ser.hpp.
#include "algs.hpp"
#include "types.hpp"
using namespace vf;

// the library's own algorithms: appending a value equals updating with its documented message, in one piece
template<class R> static u64 to64( R const& r, std::true_type ){ return h2::get_integral_result<u64>( r ); }
template<class R> static u64 to64( R const& r, std::false_type ){ u64 w = 0; for( int i = 0; i < 8; ++i ) w |= (u64)r[i] << 8 * i; return w; }
template<class H> static u64 alg_reduce( bytes const& m ){ H h; h.update( m.data(), m.size() ); return to64( h.result(), std::is_integral<typename H::result_type>() ); }
template<class H, class F, class T> static void alg( char const* hn, char const* tn, T const& v, bytes const& pre )
{
    H a, b; a.update( pre.data(), pre.size() ); b.update( pre.data(), pre.size() ); h2::hash_append( a, F(), v );
    Ctx c; c.f = flavor_of<F>(); c.m = pre; c.reduce = &alg_reduce<H>; ser( c, v ); b.update( c.m.data() + pre.size(), c.m.size() - pre.size() );
    bytes x = rbytes( a.result() ), y = rbytes( b.result() ); lg().eval(); if( x != y ) lg().violation( std::string( "algorithm " ) + hn + " " + tn, std::string( tn ) + " with " + hn + " in flavor " + c.f.name + " after " + std::to_string( pre.size() ) + " bytes: " + hex( x ) + " expected " + hex( y ) );
}

template<class R, class F, class T> static void one( char const* tn, T const& v, Rng& r )
{
    Fl fl = flavor_of<F>(); R h; bytes pre = r.chance( 1, 3 ) ? r.buf( r.below( 40 ) ) : bytes(); if( !pre.empty() ) h.update( pre.data(), pre.size() );
    u64 c0 = h.calls; int how = (int)r.below( 2 );
    if( how ) h2::hash_append( h, F(), v ); else { F const f = F(); h2::hash_append( h, f, v ); }
    bytes want = expected<F, R>( v, pre ), got( h.log.begin() + pre.size(), h.log.end() );
    lg().distinct( fp( got.data(), got.size(), fp( std::string( tn ) + fl.name + ( pre.empty() ? "" : "+" ) ) ) );
    if( got != want ) lg().violation( std::string( "message " ) + tn + " " + fl.name, std::string( tn ) + " in flavor " + fl.name + ": message " + hex( got, 150 ) + " expected " + hex( want, 150 ) );
    else if( h.calls == c0 || got.empty() ) lg().violation( std::string( "no message " ) + tn, std::string( tn ) + ": hash_append did not feed the hash" );
    else if( h.results != 0 ) lg().violation( std::string( "finalized " ) + tn, std::string( tn ) + ": hash_append called result() on the object it appends to" );
}

template<class T> static void type( char const* tn, u64 salt )
{
    Rng r( seed() * 982451653 + fp( tn ) + salt ); u64 const n = 25 * scale() * VF_CASES;
    for( u64 k = 0; k < n; ++k )
    {
        T v = gen<T>( r ); T const& c = v;
        one<Rec, h2::default_flavor>( tn, c, r ); one<Rec, h2::little_endian_flavor>( tn, c, r ); one<Rec, h2::big_endian_flavor>( tn, c, r );
        if( k % 4 == 0 ){ one<Rec, FlavB32>( tn, c, r ); one<Rec, FlavL8>( tn, c, r ); one<RecA, FlavB16>( tn, c, r ); one<RecA, h2::default_flavor>( tn, c, r ); }
        // the flavor argument defaulted
        { Rec a, b; h2::hash_append( a, {}, c ); h2::hash_append( b, h2::default_flavor(), c ); lg().eval(); if( a.log != b.log ) lg().violation( std::string( "default flavor " ) + tn, std::string( tn ) + ": {} and default_flavor differ" ); }
        if( k % 6 == 0 ) { bytes pre = r.buf( r.below( 140 ) ); switch( k / 6 % 4 ){ case 0: alg<h2::fnv1a_32, h2::default_flavor>( "fnv1a_32", tn, c, pre ); break; case 1: alg<h2::siphash_64, h2::default_flavor>( "siphash_64", tn, c, pre ); break; case 2: alg<h2::md5_128, h2::big_endian_flavor>( "md5_128", tn, c, pre ); break; default: alg<h2::hmac_sha2_512_224, h2::default_flavor>( "hmac_sha2_512_224", tn, c, pre ); } }
    }
    lg().count( "types" ); lg().count( std::string( "values of " ) + tn, n );
}
template<class T, std::size_t N, class F, class R> static void arr_check( char const* tn, T const (&a)[N], Rng& )
{
    R h; h2::hash_append( h, F(), a ); bytes want = expected<F, R>( a ); lg().distinct( fp( h.log.data(), h.log.size(), fp( std::string( tn ) + flavor_of<F>().name ) ) );
    if( h.log != want ) lg().violation( std::string( "array " ) + tn, std::string( tn ) + "[" + std::to_string( N ) + "] in flavor " + flavor_of<F>().name + ": message " + hex( h.log, 150 ) + " expected " + hex( want, 150 ) );
}
template<class T> static void arrays( char const* tn )
{
    GenNest nest;
    Rng r( seed() * 7368787 + fp( tn ) );
    for( u64 k = 0; k < 4 * scale() * VF_CASES; ++k )
    {
        T a[1], b[3], c[2][3], d[5], e[18], g[67]; gen_into( r, a ); gen_into( r, b ); gen_into( r, c ); gen_into( r, d ); gen_into( r, e ); gen_into( r, g );
        arr_check<T, 5, h2::default_flavor, Rec>( tn, d, r ); arr_check<T, 18, h2::default_flavor, Rec>( tn, e, r ); arr_check<T, 18, h2::big_endian_flavor, Rec>( tn, e, r ); arr_check<T, 67, h2::default_flavor, Rec>( tn, g, r ); arr_check<T, 67, FlavB16, RecA>( tn, g, r );
        arr_check<T, 1, h2::default_flavor, Rec>( tn, a, r ); arr_check<T, 3, h2::big_endian_flavor, Rec>( tn, b, r ); arr_check<T, 3, h2::little_endian_flavor, RecA>( tn, b, r );
        arr_check<T[3], 2, h2::default_flavor, Rec>( tn, c, r ); arr_check<T[3], 2, h2::big_endian_flavor, Rec>( tn, c, r ); arr_check<T[3], 2, FlavL8, Rec>( tn, c, r );
    }
}

int main()
{
#define X( ... ) type<__VA_ARGS__>( #__VA_ARGS__, 1 ); arrays<__VA_ARGS__>( #__VA_ARGS__ );
    VF_LIST( X )
#undef X
    { Rec r; std::vector<std::string> v = { "ab", "", "c" }; h2::hash_append( r, {}, v ); lg().sample( "vector<string>{\"ab\",\"\",\"c\"} -> " + hex( r.log, 100 ) ); }
    return lg().finish();
}
