// C24: checksum tools built from the library, end to end. The repository's own md5sum and hash2sum programs and a tool
// of the monitor's that reads in other ways are run over files of many sizes and kinds; their output is compared with
// OpenSSL and the references, file by file. The compile-time and result-extension programs are compared as well.
// c24 dir-of-tools part [expected outputs]
#include "algs.hpp"
#include <openssl/evp.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include <poll.h>
#include <csignal>
#include <fstream>
using namespace vf;

static EVP_MD const* ossl( ref::Md m )
{
    switch( m ){ case ref::MD5: return EVP_md5(); case ref::SHA1: return EVP_sha1(); case ref::SHA224: return EVP_sha224(); case ref::SHA256: return EVP_sha256(); case ref::SHA384: return EVP_sha384(); case ref::SHA512: return EVP_sha512();
    case ref::SHA512_224: return EVP_sha512_224(); case ref::SHA512_256: return EVP_sha512_256(); case ref::RMD160: return EVP_ripemd160(); default: return nullptr; }
}
struct Digest { EVP_MD_CTX* c = nullptr; ref::MdStream s; explicit Digest( ref::Md m ): s( m ){ if( ossl( m ) ){ c = EVP_MD_CTX_new(); if( !EVP_DigestInit_ex( c, ossl( m ), nullptr ) ){ EVP_MD_CTX_free( c ); c = nullptr; } } } ~Digest(){ if( c ) EVP_MD_CTX_free( c ); }
    void update( u8 const* p, std::size_t n ){ if( c ) EVP_DigestUpdate( c, p, n ); else s.update( p, n ); } std::string finish(){ bytes r; if( c ){ r.resize( 64 ); unsigned k = 0; EVP_DigestFinal_ex( c, r.data(), &k ); r.resize( k ); } else r = s.finish(); std::string t; char b[3]; for( u8 x: r ){ std::snprintf( b, 3, "%02x", x ); t += b; } return t; } };
static std::string of_file( ref::Md m, std::string const& f ){ Digest d( m ); int fd = open( f.c_str(), O_RDONLY ); bytes b( 1 << 20 ); for( ;; ){ ssize_t k = read( fd, b.data(), b.size() ); if( k <= 0 ) break; d.update( b.data(), (std::size_t)k ); } close( fd ); return d.finish(); }
static std::string of_bytes( ref::Md m, bytes const& b ){ Digest d( m ); d.update( b.data(), b.size() ); return d.finish(); }

struct Out { std::string out, err; int rc = -1; };
static Out run( std::vector<std::string> const& a, std::string const& cwd )
{
    int o[2], e[2]; Out r; if( pipe2( o, O_CLOEXEC ) || pipe2( e, O_CLOEXEC ) ) std::exit( 3 );
    pid_t p = fork(); if( p == 0 ){ if( chdir( cwd.c_str() ) ) _exit( 99 ); dup2( o[1], 1 ); dup2( e[1], 2 ); std::vector<char*> v; for( auto& s: a ) v.push_back( const_cast<char*>( s.c_str() ) ); v.push_back( nullptr ); execv( v[0], v.data() ); _exit( 98 ); }
    close( o[1] ); close( e[1] ); pollfd f[2] = { { o[0], POLLIN, 0 }, { e[0], POLLIN, 0 } }; int open_ = 2; char b[65536];
    while( open_ ){ poll( f, 2, -1 ); for( int i = 0; i < 2; ++i ) if( f[i].fd >= 0 && f[i].revents ){ ssize_t k = read( f[i].fd, b, sizeof b ); if( k <= 0 ){ close( f[i].fd ); f[i].fd = -1; --open_; } else ( i ? r.err : r.out ).append( b, (std::size_t)k ); } }
    int st = 0; waitpid( p, &st, 0 ); r.rc = WIFEXITED( st ) ? WEXITSTATUS( st ) : 1000 + WTERMSIG( st ); return r;
}
static std::string tools, dir;
static char const* const names[] = { "md5_128", "sha1_160", "sha2_256", "sha2_224", "sha2_512", "sha2_384", "sha2_512_256", "sha2_512_224", "ripemd_160", "ripemd_128" };
static Alg const& alg( std::string const& n ){ for( Alg const& a: all_algs() ) if( n == a.name ) return a; std::exit( 3 ); }
static void write_file( std::string const& f, bytes const& b ){ std::ofstream o( f, std::ios::binary ); o.write( (char const*)b.data(), (std::streamsize)b.size() ); }
struct File { std::string name; bool ok; u64 size; std::string sum; };
// one run of a tool over files: a line per readable file, in order; the others on the error stream only
static void check( std::string const& tool, std::string const& name, std::vector<File> const& fs, std::vector<std::string> pre )
{
    std::vector<std::string> a = { tools + "/" + tool }; a.insert( a.end(), pre.begin(), pre.end() ); std::string want; std::size_t bad = 0; for( File const& f: fs ){ a.push_back( f.name ); if( f.ok ) want += f.sum + " *" + f.name + "\n"; else ++bad; }
    Out r = run( a, dir ); lg().eval(); lg().count( "tool runs" ); lg().count( "files", fs.size() ); std::string cfg = tool + " " + name; for( auto& s: pre ) cfg += " " + s;
    if( r.rc ){ lg().violation( "exit " + cfg, cfg + " over " + std::to_string( fs.size() ) + " files ended with status " + std::to_string( r.rc ) + ", " + r.err.substr( 0, 300 ) ); return; }
    for( File const& f: fs ) lg().distinct( fp( cfg + f.sum + std::to_string( f.size ) ) );
    if( r.out != want ){ std::size_t i = 0; while( i < r.out.size() && i < want.size() && r.out[i] == want[i] ) ++i; std::size_t b = want.rfind( '\n', i ? i - 1 : 0 ); b = b == std::string::npos ? 0 : b + 1; std::string wl = want.substr( b, want.find( '\n', b ) - b ), gl = b < r.out.size() ? r.out.substr( b, r.out.find( '\n', b ) - b ) : "nothing"; u64 sz = 0; for( File const& f: fs ) if( wl == f.sum + " *" + f.name ) sz = f.size; lg().violation( "digest " + cfg, cfg + ": \"" + gl + "\" where \"" + wl + "\" (" + std::to_string( sz ) + " bytes) was expected" ); }
    std::size_t lines = (std::size_t)std::count( r.err.begin(), r.err.end(), '\n' ); if( ( bad == 0 ) != ( lines == 0 ) ) lg().violation( "errors " + cfg, cfg + ": " + std::to_string( bad ) + " unreadable files, but the error stream has: " + r.err.substr( 0, 300 ) );
}
int main( int argc, char** argv )
{
    std::signal( SIGPIPE, SIG_IGN ); tools = argv[1]; std::string part = argv[2]; char t[] = "/tmp/vf_c24_XXXXXX"; if( !mkdtemp( t ) ) return 3; dir = t; Rng r( seed() * 16127 + fp( part ) );
    struct Clean { ~Clean(){ std::string c = "rm -rf '" + dir + "'"; if( dir.compare( 0, 12, "/tmp/vf_c24_" ) == 0 && std::system( c.c_str() ) ){} } } clean;
    if( part == "outputs" )
    {
        // expected outputs, computed by the check from the data in the sources
        for( int i = 3; i + 1 < argc; i += 2 ){ Out o = run( { tools + "/" + argv[i] }, dir ); lg().eval(); lg().distinct( fp( std::string( argv[i] ) ) ); std::string w = argv[i + 1]; if( o.rc || o.out.find( w ) == std::string::npos ) lg().violation( std::string( "output of " ) + argv[i], std::string( argv[i] ) + " printed \"" + o.out.substr( 0, 200 ) + "\" (status " + std::to_string( o.rc ) + "), expected " + w ); }
        { Ctor c; c.k = Ctor::SEED; c.seed = 43; auto m = make_model( alg( "xxhash_64" ), c ); std::string tv = "The quick brown fox jumps over the lazy dog"; m->update( (u8 const*)tv.data(), tv.size() ); bytes b = m->result(), b2 = m->result(); b.insert( b.end(), b2.begin(), b2.end() ); std::string w; for( u8 x: b ){ char q[3]; std::snprintf( q, 3, "%02x", x ); w += q; } Out o = run( { tools + "/xxh128_from_xxh64" }, dir ); lg().eval(); lg().distinct( 77 ); if( o.rc || o.out != w + "\n" ) lg().violation( "output of xxh128_from_xxh64", "xxh128_from_xxh64 printed \"" + o.out + "\", expected " + w ); }
        for( char const* n: { "hash_without_seed", "hash_with_uint64_seed", "hash_with_byte_seed", "hash_with_any_seed", "hash_32_64" } ){ Out o = run( { tools + "/" + n }, dir ); lg().eval(); lg().distinct( fp( std::string( n ) ) ); if( o.rc || !o.err.empty() ) lg().violation( std::string( "output of " ) + n, std::string( n ) + " ended with status " + std::to_string( o.rc ) + " " + o.err.substr( 0, 200 ) ); }
        Out o = run( { tools + "/hash2sum" }, dir ); lg().eval(); if( o.rc == 0 || !o.out.empty() ) lg().violation( "usage", "hash2sum without arguments succeeds" ); o = run( { tools + "/hash2sum", "md5", "x" }, dir ); if( o.rc == 0 || !o.out.empty() ) lg().violation( "unknown", "hash2sum with an unknown algorithm succeeds" );
        return lg().finish();
    }
    if( part == "huge" )
    {
        // sparse files beyond 2^29 and 2^32 bytes with some contents here and there
        std::string n = argv[3]; ref::Md m = alg( n ).md;
        for( u64 size: { ( 1ull << 29 ) + 7, ( 1ull << 32 ) + 4099 } )
        {
            std::string f = dir + "/huge"; int fd = open( f.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0600 ); if( fd < 0 || ftruncate( fd, (off_t)size ) ) return 3; for( int k = 0; k < 24; ++k ){ bytes b = r.buf( 1 + r.below( 5000 ) ); if( pwrite( fd, b.data(), b.size(), (off_t)( k == 0 ? size - 5 : r.below( size - 6000 ) ) ) < 0 ) return 3; } if( ftruncate( fd, (off_t)size ) ) return 3; close( fd );
            File x{ "huge", true, size, of_file( m, f ) }; check( "hash2sum", "large", { x }, { n } ); if( n == "md5_128" ) check( "md5sum", "large", { x }, {} ); check( "c24_tool", "large", { x }, { n, "4" } ); unlink( f.c_str() );
        }
        return lg().finish();
    }
    // many files in one run
    std::vector<std::size_t> sizes; for( std::size_t i = 0; i <= 300; ++i ) sizes.push_back( i ); for( std::size_t c: { 4096, 8192, 12288, 65536, 131072 } ) for( std::size_t d = 0; d < 3; ++d ){ sizes.push_back( c - 1 + d ); } for( std::size_t d: { 56, 64, 112, 119, 120, 128 } ){ sizes.push_back( 4096 - d ); sizes.push_back( 4096 + d ); sizes.push_back( 4096 + d - 1 ); } for( u64 i = 0; i < 40 * scale(); ++i ) sizes.push_back( r.below( i % 8 == 7 ? 3000000 : 40000 ) );
    std::vector<bytes> contents; for( std::size_t i = 0; i < sizes.size(); ++i ){ bytes b( sizes[i] ); switch( i % 5 ){ case 0: case 1: case 2: b = r.buf( sizes[i] ); break; case 3: b.assign( sizes[i], (u8)r.next() ); break; default: for( std::size_t j = 0; j < b.size(); ++j ) b[j] = (u8)"line of text\r\n"[j % 14]; } contents.push_back( b ); }
    std::vector<std::string> fn; for( std::size_t i = 0; i < contents.size(); ++i ){ std::string n = i % 7 == 0 ? "name with spaces " + std::to_string( i ) : i % 7 == 1 ? "-" + std::to_string( i ) : i % 7 == 2 ? "%s%d\xC3\xA9" + std::to_string( i ) : "f" + std::to_string( i ); fn.push_back( n ); write_file( dir + "/" + n, contents[i] ); }
    mkdir( ( dir + "/folder" ).c_str(), 0700 );
    for( std::size_t ai = 0; ai < 10; ++ai )
    {
        std::string n = names[ai]; ref::Md m = alg( n ).md; std::vector<File> fs; for( std::size_t i = 0; i < fn.size(); ++i ){ fs.push_back( { fn[i], true, contents[i].size(), of_bytes( m, contents[i] ) } ); if( i == 100 ) fs.push_back( { "missing", false, 0, "" } ); if( i == 150 ) fs.push_back( { "folder", false, 0, "" } ); if( i == 200 ) fs.push_back( fs[3] ); }
        check( "hash2sum", "many", fs, { n } ); std::vector<File> rd; for( File const& f: fs ) if( f.ok ) rd.push_back( f ); for( char const* mode: { "0", "1", "2", "3", "4" } ) check( "c24_tool", "many", rd, { n, mode } ); if( ai == 0 ) check( "md5sum", "many", fs, {} );
        // a pipe whose writer dribbles, so that reads are short
        for( int k = 0; k < 3; ++k ){ std::string p = dir + "/pipe"; if( mkfifo( p.c_str(), 0600 ) ) return 3; bytes b = r.buf( 1 + r.below( 30000 ) ); u64 const sd = r.next(); pid_t w = fork(); if( w == 0 ){ int fd = open( p.c_str(), O_WRONLY ); Rng q( sd ); std::size_t i = 0; while( i < b.size() ){ std::size_t c = std::min<std::size_t>( b.size() - i, 1 + q.below( 3000 ) ); ssize_t z = write( fd, b.data() + i, c ); if( z <= 0 ) break; i += (std::size_t)z; if( q.below( 3 ) == 0 ) usleep( 500 ); } _exit( 0 ); } File x{ "pipe", true, b.size(), of_bytes( m, b ) }; check( "hash2sum", "pipe", { x }, { n } ); waitpid( w, nullptr, 0 ); unlink( p.c_str() ); lg().count( "pipes" ); }
    }
    lg().sample( std::to_string( fn.size() ) + " files of 0 to 3000000 bytes with 10 algorithms through three programs and five ways of reading" );
    return lg().finish();
}
