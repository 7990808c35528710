// A checksum program of the kind the documentation shows, reading in several ways: c24_tool ALG MODE files...
#include <boost/hash2/md5.hpp>
#include <boost/hash2/sha1.hpp>
#include <boost/hash2/sha2.hpp>
#include <boost/hash2/ripemd.hpp>
#include <boost/hash2/hash_append.hpp>
#include <boost/hash2/digest.hpp>
#include <fstream>
#include <iostream>
#include <iterator>
#include <sstream>
#include <string>
#include <vector>
#include <cstring>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
template<class H> int go( int argc, char** argv )
{
    int const mode = argv[2][0] - '0';
    for( int i = 3; i < argc; ++i )
    {
        H h; std::string d;
        if( mode == 0 ){ std::ifstream f( argv[i], std::ios::binary ); std::vector<char> b( 1, 0 ); std::size_t n = 1; while( f.read( b.data(), (std::streamsize)b.size() ), f.gcount() > 0 ){ h.update( static_cast<void const*>( b.data() ), (std::size_t)f.gcount() ); n = n * 2 % 509 + 1; b.resize( n ); } d = to_string( h.result() ); }
        else if( mode == 1 ){ std::ifstream f( argv[i], std::ios::binary ); boost::hash2::hash_append_range( h, {}, std::istreambuf_iterator<char>( f ), std::istreambuf_iterator<char>() ); std::ostringstream o; o << h.result(); d = o.str(); }
        else if( mode == 2 ){ std::ifstream f( argv[i], std::ios::binary ); std::string s{ std::istreambuf_iterator<char>( f ), std::istreambuf_iterator<char>() }; boost::hash2::hash_append_range( h, {}, s.data(), s.data() + s.size() ); auto r = h.result(); char b[2 * sizeof( r ) + 1]; to_chars( r, b ); d = b; }
        else if( mode == 3 ){ std::ifstream f( argv[i], std::ios::binary ); H saved( h ); h.update( "junk", 4 ); h = saved; char b[100]; while( f.read( b, sizeof b ), f.gcount() > 0 ){ H next( h ); next.update( reinterpret_cast<unsigned char const*>( b ), (std::size_t)f.gcount() ); h = next; } auto r = h.result(); std::string q( 2 * r.size(), '?' ); char* e = to_chars( r, &q[0], &q[0] + q.size() ); d.assign( &q[0], e ); }
        else { int fd = open( argv[i], O_RDONLY ); struct stat st; if( fd < 0 || fstat( fd, &st ) ) return 3; std::size_t n = (std::size_t)st.st_size; void* p = n ? mmap( nullptr, n, PROT_READ, MAP_PRIVATE, fd, 0 ) : nullptr; h.update( p, n ); d = to_string( h.result() ); if( n ) munmap( p, n ); close( fd ); }
        std::cout << d << " *" << argv[i] << "\n";
    }
    return std::cout.flush() ? 0 : 4;
}
int main( int argc, char** argv )
{
    namespace h2 = boost::hash2; if( argc < 3 ) return 2; std::string const n = argv[1];
#define X( A ) if( n == #A ) return go<h2::A>( argc, argv );
    X( md5_128 ) X( sha1_160 ) X( sha2_256 ) X( sha2_224 ) X( sha2_512 ) X( sha2_384 ) X( sha2_512_256 ) X( sha2_512_224 ) X( ripemd_160 ) X( ripemd_128 )
    return 2;
}
