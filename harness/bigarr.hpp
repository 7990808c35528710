// fixed-size arrays of many elements: the recorded message against the serializer
#pragma once
#include "types.hpp"
#include <memory>
namespace vf
{
#define VF_FIXED( E, ... ) fixed<__VA_ARGS__, E>( #__VA_ARGS__ );
template<class T> struct Box { T v; };
template<class F, class T> inline void fixed1( char const* w, T const& v ){ Rec a; h2::hash_append( a, F(), v ); lg().distinct( fp( a.log.data(), a.log.size(), fp( w ) ) ); if( a.log != expected<F, Rec>( v ) ) lg().violation( std::string( "large array " ) + w, std::string( w ) + ": message of " + std::to_string( a.log.size() ) + " bytes is not its elements" ); }
template<class T, class E> inline void fixed( char const* w ){ std::unique_ptr<Box<T>> p( new Box<T>() ); E* e = (E*)(void*)&p->v; for( std::size_t i = 0; i < sizeof( T ) / sizeof( E ); ++i ) e[i] = (E)( i * 7919 % 1000003 ); fixed1<h2::default_flavor>( w, p->v ); fixed1<h2::big_endian_flavor>( w, p->v ); fixed1<FlavB32>( w, p->v ); }
inline void fixed_arrays()
{
    VF_FIXED( float, float[ 70000 ] ) VF_FIXED( double, double[ 256 ] ) VF_FIXED( int, int[ 65536 ] ) VF_FIXED( int, int[ 70001 ] ) VF_FIXED( short, short[ 300 ][ 301 ] ) VF_FIXED( unsigned char, unsigned char[ 70000 ] ) VF_FIXED( unsigned char, unsigned char[ 5 ][ 66001 ] )
    VF_FIXED( float, std::array<float, 70000> ) VF_FIXED( float, std::array<float, 65537> ) VF_FIXED( double, std::array<double, 257> ) VF_FIXED( int, std::array<int, 70001> ) VF_FIXED( unsigned short, std::array<unsigned short, 65536> ) VF_FIXED( float, std::array<std::array<float, 300>, 301> ) VF_FIXED( int, std::array<int[ 300 ], 301> )
    VF_FIXED( double, boost::array<double, 66000> ) VF_FIXED( int, boost::array<int, 66001> ) VF_FIXED( unsigned char, h2::digest<70001> ) VF_FIXED( float, boost::array<float[ 3 ], 70000> )
    { std::unique_ptr<std::array<std::string, 66001>> p( new std::array<std::string, 66001>() ); for( std::size_t i = 0; i < 66001; ++i ) ( *p )[i] = std::to_string( i * i ); fixed1<h2::default_flavor>( "array<string,66001>", *p ); }
    lg().count( "large fixed-size arrays", 19 );
}
inline void float_arrays()
{
    VF_FIXED( float, float[ 70000 ] ) VF_FIXED( double, double[ 257 ] ) VF_FIXED( float, std::array<float, 70000> ) VF_FIXED( float, std::array<float, 65537> ) VF_FIXED( double, double[ 65600 ] ) VF_FIXED( float, std::array<std::array<float, 300>, 301> ) VF_FIXED( double, boost::array<double, 66000> ) VF_FIXED( float, float[ 300 ][ 301 ] )
    lg().count( "large fixed-size arrays", 8 );
}
}
