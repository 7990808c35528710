// C07: result() may be called repeatedly and interleaved with update(): every value of the extended sequence is a
// fixed function of the seed and of the whole history. Oracle: executable models of the documented finalizations
// (documented algorithms); replays plus sequence statistics (all, including the legacy ones).
#include "algs.hpp"
#include <unordered_map>
using namespace vf;
typedef std::unique_ptr<Obj> P;
static void bad( std::string const& k, Alg const& a, std::string const& m ){ lg().violation( k + " " + a.name, std::string( a.name ) + ": " + m ); }

struct Op { int k; bytes d; };
static std::string str( std::vector<Op> const& ops ){ std::string s; for( Op const& o: ops ){ s += o.k ? " r" : " u" + std::to_string( o.d.size() ) + ":" + hex( o.d, 12 ); if( s.size() > 800 ){ s += ".."; break; } } return s; }

int main( int argc, char** argv )
{
    int part = argc > 1 ? std::atoi( argv[1] ) : 0, parts = argc > 2 ? std::atoi( argv[2] ) : 1, idx = 0; u64 const sc = scale();
    for( Alg const& a: all_algs() )
    {
        if( idx++ % parts != part ) continue;
        Rng r( seed() * 86028121 + idx ); std::size_t const B = a.block;
        // --- exact conformance with the model over random histories
        for( u64 k = 0; k < 400 * sc; ++k )
        {
            Ctor c = gen_ctor( r, B ); std::vector<Op> ops; int len = 2 + (int)r.below( 30 ), style = (int)r.below( 4 );
            for( int i = 0; i < len; ++i )
            {
                bool res = style == 0 ? i > 0 : style == 1 ? i % 2 : r.chance( 1, 2 );
                if( res ) ops.push_back( Op{ 1, {} } ); else { bytes d = gen_msg( r, r.chance( 1, 8 ) ? 0 : gen_any( r, B, 400, 24 ) ); ops.push_back( Op{ 0, d } ); }
            }
            ops.push_back( Op{ 1, {} } );
            P o( a.make( c ) ), o2( a.make( c ) ); ref::ModelP m = make_model( a, c ); u64 f = fp( std::string( a.name ) + c.str() ); std::vector<bytes> rs;
            for( std::size_t i = 0; i < ops.size(); ++i )
            {
                Op const& q = ops[i]; f = fpv( q.k << 16 | q.d.size(), f );
                if( q.k == 0 ){ o->update( q.d.data(), q.d.size() ); o2->update( q.d.data(), q.d.size() ); if( m ) m->update( q.d ); continue; }
                bytes g = o->result(), g2 = o2->result(); lg().eval();
                if( g != g2 ) { bad( "replay", a, c.str() + str( ops ) + " op " + std::to_string( i ) + ": two identical histories gave " + hex( g ) + " and " + hex( g2 ) ); break; }
                if( m ){ bytes w = m->result(); if( g != w ){ bad( "extended-result", a, c.str() + str( ops ) + " op " + std::to_string( i ) + ": got " + hex( g ) + " expected " + hex( w ) ); break; } }
                rs.push_back( g );
            }
            lg().distinct( f );
        }
        // --- result after every message length, then two more, then an update and another
        for( std::size_t n = 0; n <= 3 * B + 5; ++n )
        {
            Ctor c = n % 2 ? gen_ctor( r, B ) : Ctor(); P o( a.make( c ) ); ref::ModelP m = make_model( a, c ); if( !m ) break;
            bytes d = r.buf( n ), e = r.buf( n % 11 ? r.below( 2 * B + 2 ) : r.below( 9000 ) ); o->update( d.data(), n ); m->update( d );
            for( int i = 0; i < 5; ++i )
            {
                bytes g = o->result(), w = m->result(); lg().eval(); if( g != w ){ bad( "extended-result", a, c.str() + " " + std::to_string( n ) + " bytes, result #" + std::to_string( i ) + ( i > 2 ? " (after another update)" : "" ) + ": got " + hex( g ) + " expected " + hex( w ) ); break; }
                if( i >= 2 ){ o->update( e.data(), e.size() ); m->update( e ); }
            }
        }
        // --- long extended sequences never repeat (as 8+ byte values), do not depend on anything but the history,
        //     and still depend on the message
        {
            std::size_t const L = ( a.out < 8 ? 34000 : 66000 ) * ( thorough() ? 10 : 1 ); int const per = a.out < 8 ? (int)( 8 / a.out ) : 1;
            std::unordered_map<std::string, u64> seen; bytes d = r.buf( 20 ); P o( a.make( Ctor() ) ), q( a.make( Ctor() ) ); o->update( d.data(), d.size() ); d[3] ^= 1; q->update( d.data(), d.size() ); u64 same = 0, rep = 0;
            // murmur3_32's and spooky2's finalization may reach a fixed point only by accident; a window of 8 bytes makes that negligible
            for( u64 i = 0; i < L; ++i )
            {
                bytes x, y; for( int t = 0; t < per; ++t ){ bytes z = o->result(); x.insert( x.end(), z.begin(), z.end() ); z = q->result(); y.insert( y.end(), z.begin(), z.end() ); }
                lg().eval( 2 ); same += x == y; auto e = seen.emplace( std::string( x.begin(), x.end() ), i ); if( !e.second && ++rep == 1 ) bad( "sequence-repeats", a, "results #" + std::to_string( e.first->second ) + " and #" + std::to_string( i ) + " of one sequence are equal: " + hex( x ) );
            }
            if( same ) bad( "sequence-message", a, std::to_string( same ) + " of " + std::to_string( L ) + " results do not depend on the message" );
            lg().count( "extended results compared pairwise", L );
        }
        // --- updates after result() matter, and so does result() itself
        for( u64 k = 0; k < 60 * sc; ++k )
        {
            Ctor c = gen_ctor( r, B ); bytes m1 = gen_msg( r, gen_any( r, B, 300 ) ), m2 = r.buf( 8 + r.below( 60 ) ), m3 = m2; m3[ r.below( m3.size() ) ] ^= (u8)( 1u << r.below( 8 ) );
            auto seq = [&]( bool mid, bytes const& second ){ P o( a.make( c ) ); o->update( m1.data(), m1.size() ); if( mid ) o->result(); o->update( second.data(), second.size() ); bytes x; for( int i = 0; x.size() < 16; ++i ){ bytes z = o->result(); x.insert( x.end(), z.begin(), z.end() ); } return x; };
            bytes s1 = seq( true, m2 ), s2 = seq( true, m3 ), s3 = seq( false, m2 ); lg().distinct( fp( s1.data(), s1.size(), fp( a.name ) ) );
            if( s1 == s2 && a.kind != K_FNV32 ) bad( "update-after-result", a, c.str() + " updates " + hex( m2, 80 ) + " and " + hex( m3, 80 ) + " after result() are indistinguishable" );
            // every bit of the message survives the first result
            std::size_t const n4 = 1 + gen_any( r, B, 300 ); bytes m4 = r.buf( n4 ); std::size_t const bit = ( k % 2 ? n4 - 1 - r.below( n4 < 9 ? n4 : 9 ) : r.below( n4 ) ) * 8 + r.below( 8 );
            auto later = [&]( bytes const& x ){ P o( a.make( c ) ); o->update( x.data(), x.size() ); o->result(); bytes z; if( k % 3 ){ o->update( m2.data(), m2.size() ); } while( z.size() < 16 ){ bytes y = o->result(); z.insert( z.end(), y.begin(), y.end() ); } return z; };
            bytes l1 = later( m4 ); m4[ bit / 8 ] ^= (u8)( 1u << bit % 8 ); bytes l2 = later( m4 ); lg().eval();
            if( l1 == l2 && a.kind != K_FNV32 ) bad( "message-forgotten", a, c.str() + ": flipping bit " + std::to_string( bit ) + " of a message of " + std::to_string( n4 ) + " bytes does not change the results after the first" );
            if( s1 == s3 && !a.legacy() ) bad( "result-changes-state", a, c.str() + " " + std::to_string( m1.size() ) + " bytes: result() left the object as it was" );
        }
        lg().count( std::string( "algorithm " ) + a.name ); lg().sample( std::string( a.name ) + ": histories like" + str( { Op{ 0, bytes( 3 ) }, Op{ 1, {} }, Op{ 1, {} }, Op{ 0, bytes( 65 ) }, Op{ 1, {} } } ) );
    }
    return lg().finish();
}
