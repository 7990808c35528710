// C08: no message, key or seed bytes stay readable in the object once they have been finalized.
// Monitor: the raw bytes of the object, compared across runs of the same history shape with independent random
// contents. A byte of the object that equals (or is a constant xor of) the same input byte in every run is a leak.
#include "algs.hpp"
using namespace vf;
typedef std::unique_ptr<Obj> P;

// storage starts out zero, so that padding and never-written members do not show what a freed block held
void* operator new( std::size_t n ){ if( void* p = std::calloc( 1, n ) ) return p; throw std::bad_alloc(); }
void operator delete( void* p ) noexcept { std::free( p ); }
void operator delete( void* p, std::size_t ) noexcept { std::free( p ); }

enum { RUNS = 9 };

// history shape: sizes of updates and result() calls; -1 is result(), -2 assigns a new object over this one
struct Shape { int ctor; std::size_t seedn; std::vector<long> ops; };

static std::string str( Shape const& s ){ std::string r = s.ctor ? "(seed " + std::to_string( s.seedn ) + "B)" : "()"; for( long o: s.ops ) r += o < 0 ? " r" : " u" + std::to_string( o ); return r; }

int main( int argc, char** argv )
{
    int part = argc > 1 ? std::atoi( argv[1] ) : 0, parts = argc > 2 ? std::atoi( argv[2] ) : 1, idx = 0; u64 const sc = scale();
    for( Alg const& a: all_algs() )
    {
        if( idx++ % parts != part ) continue;
        Rng r( seed() * 67867967 + idx ); std::size_t const B = a.block;
        auto examine = [&]( Shape const& sh, bool after_result )
        {
            // input bytes of every run, laid end to end: seed, then message
            std::vector<bytes> in( RUNS ), raw( RUNS ), rawc( RUNS ); std::size_t finalized = 0;
            bool const sipkey = sh.ctor && ( ( a.kind == K_SIP64 && sh.seedn == 16 ) || ( a.kind == K_SIP32 && sh.seedn == 8 ) );
            for( int k = 0; k < RUNS; ++k )
            {
                bytes sd = r.buf( sh.ctor ? sh.seedn : 0 ); in[k] = sd;
                P o( sh.ctor ? a.mk_bytes( sd.data(), sd.size() ) : a.mk_def() );
                finalized = in[k].size(); std::size_t since = 0;
                for( long op: sh.ops )
                {
                    if( op == -2 ){ P f( a.mk_def() ); o->assign( *f ); finalized = in[k].size(); since = 0; continue; } // nothing of what it held is left
                    if( op < 0 ){ o->result(); finalized = in[k].size(); since = 0; continue; }
                    bytes d = r.buf( op ); o->update( d.data(), d.size() ); in[k].insert( in[k].end(), d.begin(), d.end() ); since += op;
                    std::size_t done = since / B * B; if( in[k].size() - since + done > finalized ) finalized = in[k].size() - since + done;   // whole blocks have been consumed
                }
                raw[k].assign( (u8 const*)o->raw(), (u8 const*)o->raw() + o->size() );
                P c( o->clone() ); rawc[k].assign( (u8 const*)c->raw(), (u8 const*)c->raw() + c->size() );
            }
            lg().distinct( fp( a.name + str( sh ) ) );
            std::size_t jn = after_result ? in[0].size() : finalized; u64 cmp = 0;
            for( int copy = 0; copy < 2; ++copy )
            {
                auto const& rw = copy ? rawc : raw; std::size_t plain = 0;   // object bytes equal to a SipHash key byte
                for( std::size_t i = 0; i < rw[0].size(); ++i )
                {
                    bool fixed = true; for( int k = 1; k < RUNS; ++k ) fixed = fixed && rw[k][i] == rw[0][i];
                    if( fixed ) continue;
                    for( std::size_t j = 0; j < jn; ++j )
                    {
                        u8 const x = (u8)( rw[0][i] ^ in[0][j] ); int k = 1;
                        // SipHash's initial state is key xor constant, by specification: every byte of those constants is nonzero, but that HalfSipHash's first two words (the key's size) are the key itself
                        bool const spec = sipkey && j < sh.seedn; if( spec && x != 0 ) continue;
 while( k < RUNS && (u8)( rw[k][i] ^ in[k][j] ) == x ) ++k;
                        ++cmp;
                        if( k == RUNS && spec && a.kind == K_SIP32 && ++plain <= sh.seedn ) break;
                        if( k == RUNS )
                        {
                            lg().violation( std::string( "remnant " ) + a.name, std::string( a.name ) + str( sh ) + ": byte " + std::to_string( i ) + " of the object always holds input byte " + std::to_string( j ) + ( x ? " xor " + hex( &x, 1 ) : "" ) + ( after_result ? " after result()" : " although its block has been consumed or the object has been assigned over" ) + ( copy ? " (in a copy)" : "" ) );
                            i = rw[0].size(); break;
                        }
                    }
                }
            }
            lg().count( "object byte / input byte pairs compared", cmp );
        };
        std::size_t const step = thorough() ? 1 : 1 + B / 40;
        // one message of every length, then result()
        for( std::size_t n = 1; n <= 2 * B + 9; n += ( n < 20 || n % B > B - 20 || n % B < 4 ) ? 1 : step ) { examine( { 0, 0, { (long)n, -1 } }, true ); examine( { 0, 0, { (long)n, -1, -1 } }, true ); }
        // legacy algorithms only promise to hold on to nothing after result() of plain messages
        if( !a.legacy() )
        {
            // byte seeds (keys) of every length, right after construction
            for( std::size_t n = 1; n <= 2 * B + 40; n += ( n < 40 || n % B > B - 20 || n % B < 4 ) ? 1 : step ) { examine( { 1, n, {} }, true ); if( n % 3 == 0 ) examine( { 1, n, { (long)r.below( 2 * B + 1 ), -1 } }, true ); }
            // keyed and cryptographic algorithms: whole blocks consumed by update(), in several calls
            if( a.kind == K_SIP32 || a.kind == K_SIP64 || a.kind == K_MD || a.kind == K_HMAC ) for( u64 k = 0; k < 400 * sc; ++k ){ Shape s{ (int)r.below( 2 ), 1 + r.below( B + 20 ), {} }; for( int i = 0, m = 1 + (int)r.below( 4 ); i < m; ++i ) s.ops.push_back( 1 + (long)gen_any( r, B, 2 * B, 40, 1500 ) ); examine( s, false ); }
        }
        // assignment over an object in any state
        for( u64 k = 0; k < 250 * sc; ++k )
        {
            Shape s{ a.legacy() ? 0 : (int)r.below( 2 ), 1 + r.below( B + 20 ), {} }; for( int i = 0, m = (int)r.below( 4 ); i < m; ++i ) s.ops.push_back( r.chance( 1, 5 ) ? -1 : 1 + (long)gen_len( r, B, 2 * B ) );
            s.ops.push_back( -2 ); examine( s, false ); if( r.chance( 1, 3 ) ){ s.ops.push_back( 1 + (long)r.below( B ) ); s.ops.push_back( -1 ); examine( s, true ); }
        }
        // random shapes ending in result()
        for( u64 k = 0; k < 500 * sc; ++k )
        {
            Shape s{ a.legacy() ? 0 : (int)r.below( 2 ), 1 + r.below( 2 * B + 9 ), {} };
            for( int i = 0, m = 1 + (int)r.below( 5 ); i < m; ++i ) s.ops.push_back( r.chance( 1, 4 ) ? -1 : (long)gen_any( r, B, 2 * B + 9, 40, 1500 ) );
            s.ops.push_back( -1 ); examine( s, true );
        }
        lg().count( std::string( "algorithm " ) + a.name ); lg().sample( std::string( a.name ) + " " + str( { 1, 21, { 70, -1, 3, -1 } } ) + ": " + std::to_string( RUNS ) + " runs with independent contents" );
    }
    return lg().finish();
}
