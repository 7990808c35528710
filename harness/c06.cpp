// C06: copies are equivalent and independent. A pool of objects is driven by random histories of update,
// result, copy construction, copy/move assignment, self assignment, swap, pass by value and relocation inside a
// growing std::vector. Oracle: for every object, a freshly constructed one replaying its logical history.
#include "algs.hpp"
using namespace vf;

struct Op { int k; bytes d; };                 // 0 update, 1 result
struct Hist { Ctor c; std::vector<Op> ops; };

template<class H> static H make_h( Ctor const& c ){ static u8 const z = 0; return c.k == Ctor::DEF ? H() : c.k == Ctor::SEED ? H( c.seed ) : H( c.b.empty() ? &z : c.b.data(), c.b.size() ); }
template<class H> static bytes upd( H& h, Op const& o ){ if( o.k == 0 ){ h.update( o.d.data(), o.d.size() ); return bytes(); } return rbytes( h.result() ); }
template<class H> static bytes by_value( H h, bytes const& d ){ h.update( d.data(), d.size() ); return rbytes( h.result() ); }

static std::string str( Hist const& h ){ std::string s = h.c.str(); for( Op const& o: h.ops ){ s += o.k ? " r" : " u" + std::to_string( o.d.size() ); if( s.size() > 700 ){ s += ".."; break; } } return s; }

template<class H> static void drive( char const* name, std::size_t block, u64 sd )
{
    Rng r( sd ); u64 const sc = scale();
    auto bad = [&]( char const* k, Hist const& h, std::string const& m ){ lg().violation( std::string( k ) + " " + name, std::string( name ) + " " + str( h ) + ": " + m ); };
    // replay: fresh object, same logical history, then the probe
    auto replay = [&]( Hist const& h, bytes const& tail ){ H o( make_h<H>( h.c ) ); for( Op const& x: h.ops ) upd( o, x ); o.update( tail.data(), tail.size() ); bytes a = rbytes( o.result() ), b = rbytes( o.result() ); a.insert( a.end(), b.begin(), b.end() ); return a; };
    for( u64 round = 0; round < 300 * sc; ++round )
    {
        std::vector<H> v; std::vector<Hist> hs; std::size_t const N = 2 + r.below( 5 );
        auto fresh = [&](){ Hist h; h.c = gen_ctor( r, block ); hs.push_back( h ); v.push_back( make_h<H>( h.c ) ); };   // push_back relocates the others
        for( std::size_t i = 0; i < N; ++i ) fresh();
        u64 f = fp( name );
        for( int step = 0; step < 60; ++step )
        {
            std::size_t i = r.below( v.size() ), j = r.below( v.size() ); int op = (int)r.below( 14 ); f = fpv( op << 8 | i << 4 | j, f );
            switch( op )
            {
            case 0: case 1: case 2: case 3: { Op o{ 0, gen_msg( r, gen_any( r, block, 500, 24 ) ) }; upd( v[i], o ); hs[i].ops.push_back( o ); f = fpv( o.d.size(), f ); break; }
            case 4: { H probe( make_h<H>( hs[i].c ) ); for( Op const& x: hs[i].ops ) upd( probe, x ); bytes w = rbytes( probe.result() ); Op o{ 1, {} }; bytes g = upd( v[i], o ); lg().eval();
                      if( g != w ) bad( "copy", hs[i], "result " + hex( g ) + " expected " + hex( w ) ); hs[i].ops.push_back( o ); break; }
            case 5: case 6: v[i] = v[j]; hs[i] = hs[j]; break;
            case 7: { H t( v[j] ); v[i] = t; hs[i] = hs[j]; upd( t, Op{ 0, r.buf( 9 ) } ); t.result(); break; }                    // the temporary goes its own way
            case 8: { H& x = v[i]; x = v[i]; break; }                                                                             // self assignment
            case 9: { if( i != j ){ H t( static_cast<H&&>( v[i] ) ); v[i] = static_cast<H&&>( v[j] ); v[j] = static_cast<H&&>( t ); std::swap( hs[i], hs[j] ); } break; }
            case 10: { bytes d = r.buf( r.below( r.chance( 1, 6 ) ? 5000 : 100 ) ); H t( make_h<H>( hs[i].c ) ); for( Op const& x: hs[i].ops ) upd( t, x ); bytes g = by_value( v[i], d ), w = by_value( t, d ); lg().eval(); if( g != w ) bad( "copy", hs[i], "passed by value: " + hex( g ) + " expected " + hex( w ) ); break; }
            case 11: { H* t = new H( v[j] ); hs[i] = hs[j]; v[i] = make_h<H>( gen_ctor( r, block ) ); v[i] = *t; delete t; break; }
            case 12: { H const& cj = v[j]; H t = cj; upd( v[j], Op{ 1, {} } ); v[j] = t; break; }                                 // save, disturb, restore
            default: if( v.size() < 12 ) { fresh(); if( r.chance( 1, 2 ) ){ v.push_back( v[i] ); hs.push_back( Hist( hs[i] ) ); } } else { Hist h; h.c = gen_ctor( r, block ); v[i] = make_h<H>( h.c ); hs[i] = h; }
            }
        }
        // every object, examined at the end, twice: through a copy first (must not disturb it), then itself
        for( std::size_t i = 0; i < v.size(); ++i )
        {
            bytes tail = r.buf( r.chance( 1, 12 ) ? r.below( 9000 ) : r.below( 2 * block + 3 ) ), w = replay( hs[i], tail );
            for( int t = 0; t < 3; ++t )
            {
                bytes a, b;
                if( t == 0 ){ H c( v[i] ); c.update( tail.data(), tail.size() ); a = rbytes( c.result() ); b = rbytes( c.result() ); }
                else if( t == 1 ){ H c( make_h<H>( gen_ctor( r, block ) ) ); c.update( tail.data(), tail.size() ); c = v[i]; c.update( tail.data(), tail.size() ); a = rbytes( c.result() ); b = rbytes( c.result() ); }
                else { v[i].update( tail.data(), tail.size() ); a = rbytes( v[i].result() ); b = rbytes( v[i].result() ); }
                a.insert( a.end(), b.begin(), b.end() ); lg().distinct( fpv( t, fpv( i, f ) ) );
                if( a != w ) bad( t == 2 ? "independence" : t == 1 ? "copy-assign" : "copy", hs[i], ( t == 2 ? std::string( "the original after its copies were used: " ) : std::string( "a copy: " ) ) + hex( a ) + " expected " + hex( w ) );
            }
        }
        lg().count( "histories" ); lg().count( "objects examined", v.size() );
    }
    // copies taken at every offset within three blocks, then diverging
    bytes m = r.buf( 3 * block + 40 );
    for( int seeded = 0; seeded < 2; ++seeded ) for( std::size_t n = 0; n <= 2 * block + 9; ++n )
    {
        Ctor ct; if( seeded ){ ct.k = Ctor::BYTES; ct.b = r.buf( 21 ); }
        H a( make_h<H>( ct ) ); a.update( m.data(), n ); H b( a ), c( make_h<H>( ct ) ); c.update( m.data(), 5 ); c = a;
        std::size_t k = r.below( block + 20 ); bytes other = r.buf( k );
        b.update( other.data(), k ); bytes rb = rbytes( b.result() ); c.update( m.data() + n, 11 ); bytes rc = rbytes( c.result() ); a.update( m.data() + n, 11 ); bytes ra = rbytes( a.result() );
        H x( make_h<H>( ct ) ); x.update( m.data(), n + 11 ); bytes wx = rbytes( x.result() ); H y( make_h<H>( ct ) ); y.update( m.data(), n ); y.update( other.data(), k ); bytes wy = rbytes( y.result() );
        Hist h; h.c = ct; h.ops.push_back( Op{ 0, bytes( m.begin(), m.begin() + n ) } ); lg().distinct( fpv( n * 2 + seeded, fp( name ) ) );
        if( ra != wx ) bad( "independence", h, "original after copying: " + hex( ra ) + " expected " + hex( wx ) );
        if( rc != wx ) bad( "copy-assign", h, "assigned: " + hex( rc ) + " expected " + hex( wx ) );
        if( rb != wy ) bad( "copy", h, "copied: " + hex( rb ) + " expected " + hex( wy ) );
    }
    lg().count( std::string( "algorithm " ) + name ); lg().sample( std::string( name ) + ": pool of up to 12 objects, 60 operations per history, copies at every offset up to " + std::to_string( 2 * block + 9 ) );
}

// objects that have absorbed more than 2^29, 2^31, 2^32 bytes: the copies and the original go on alike
template<class H> static void huge( char const* name, std::size_t block, u64 sd )
{
    Rng r( sd ); std::size_t const C = ( (std::size_t)1 << 25 ) + 64 * r.below( 9 ) + r.below( 63 ); bytes buf = r.buf( C + 1000 ); H h( make_h<H>( gen_ctor( r, block ) ) ), k( h ); u64 n = 0; bool const full = thorough();
    std::vector<u64> marks = { (u64)1 << 28, (u64)1 << 29, (u64)1 << 31, (u64)1 << 32 }; if( full ) marks.push_back( (u64)1 << 33 );
    auto ask = [&]( H& o, bytes const& t ){ o.update( t.data(), t.size() ); bytes a = rbytes( o.result() ); o.update( t.data(), t.size() / 2 ); bytes b = rbytes( o.result() ), c = rbytes( o.result() ); a.insert( a.end(), b.begin(), b.end() ); a.insert( a.end(), c.begin(), c.end() ); return a; };
    for( u64 mk: marks )
    {
        while( n <= mk ){ std::size_t m = C - r.below( 64 ), at = r.below( 900 ); h.update( buf.data() + at, m ); n += m; k = h; }    // k stays an assigned copy
        H a( h ), b( make_h<H>( gen_ctor( r, block ) ) ), e( make_h<H>( gen_ctor( r, block ) ) ); b.update( buf.data(), r.below( 3 * block ) ); b = h; { H t( a ); e = static_cast<H&&>( t ); } H keep( h ); bytes t = r.buf( r.below( 3 * block ) );
        bytes x = ask( a, t ), y = ask( b, t ), z = ask( e, t ), w = ask( k, t ), o = ask( h, t ); lg().eval( 4 ); lg().distinct( fpv( n, fp( name ) ) ); h = keep;
        char const* bad = x != o ? "a copy" : y != o ? "an object assigned from it" : z != o ? "an object moved from its copy" : w != o ? "an object assigned from it repeatedly" : nullptr;
        if( bad ) lg().violation( std::string( "huge copy " ) + name, std::string( name ) + " having absorbed " + std::to_string( n ) + " bytes: " + bad + " does not go on as the original" );
    }
    lg().count( "bytes absorbed by copied objects", n );
}

int main( int argc, char** argv )
{
    if( argc > 2 && std::string( argv[2] ) == "huge" )
    {
        int i = 0;
#define GO( c, k, m ) if( ++i && std::string( argv[1] ) == #c ) huge<h2::c>( #c, ref_block( k, ref::m ), seed() * 86028121 + i );
        VF_ALL( GO )
#undef GO
        return lg().finish();
    }
    int part = argc > 1 ? std::atoi( argv[1] ) : 0, parts = argc > 2 ? std::atoi( argv[2] ) : 1, idx = 0;
#define GO( c, k, m ) if( idx++ % parts == part ) drive<h2::c>( #c, ref_block( k, ref::m ), seed() * 49979687 + idx );
    VF_ALL( GO )
    return lg().finish();
}
