// Recording hash algorithms: user-defined algorithms (as the documentation allows) whose only purpose is to observe
// the message hash_append produces. Under MemorySanitizer / Valgrind they also check that every byte they are
// given is initialized; under AddressSanitizer that it is addressable.
#ifndef VERIF_REC_HPP
#define VERIF_REC_HPP
#include "common.hpp"
#include <array>
#if defined(__has_feature)
# if __has_feature(memory_sanitizer)
#  include <sanitizer/msan_interface.h>
#  define VF_CHECK_MEM(p,n) __msan_check_mem_is_initialized((p),(n))
# endif
#endif
#if defined(VF_VALGRIND)
# include <valgrind/memcheck.h>
# define VF_CHECK_MEM(p,n) do { if( VALGRIND_CHECK_MEM_IS_DEFINED((p),(n)) != 0 ) vf::lg().violation( "uninitialized bytes hashed", "update() was given uninitialized bytes" ); } while(0)
#endif
#if !defined(VF_CHECK_MEM)
# define VF_CHECK_MEM(p,n) ((void)0)
#endif

namespace vf
{
// one pass of reads over the given range, so that sanitizers see an access to every byte
inline void touch( void const* p, std::size_t n ){ VF_CHECK_MEM( p, n ); unsigned char const volatile* q = static_cast<unsigned char const volatile*>( p ); unsigned char x = 0; for( std::size_t i = 0; i < n; ++i ) x ^= q[i]; (void)x; }

struct RecBase
{
    bytes log; u64 calls = 0, zero = 0, results = 0;
    void add( void const* p, std::size_t n ){ ++calls; if( n == 0 ){ ++zero; return; } touch( p, n ); u8 const* q = static_cast<u8 const*>( p ); log.insert( log.end(), q, q + n ); }
    static u64 value( bytes const& m ){ return fp( m.data(), m.size(), 0x452821E638D01377ull + m.size() ); }
};

// 64 bit result, both update overloads
struct Rec: RecBase
{
    typedef u64 result_type;
    Rec(){} explicit Rec( u64 s ){ if( s ) update( &s, 8 ); } Rec( unsigned char const* p, std::size_t n ){ update( p, n ); }
    void update( void const* p, std::size_t n ){ add( p, n ); }
    void update( unsigned char const* p, std::size_t n ){ add( p, n ); }
    u64 result(){ ++results; u64 r = value( log ); log.push_back( 0x55 ); return r; }
    static u64 reduce( bytes const& m ){ return value( m ); }   // what get_integral_result<uint64_t> makes of the first result
};
// byte array result, only the void const* overload, as the documentation's minimal run-time algorithm
struct RecA: RecBase
{
    typedef std::array<unsigned char, 12> result_type;
    RecA(){} explicit RecA( u64 s ){ if( s ) update( &s, 8 ); } RecA( unsigned char const* p, std::size_t n ){ update( p, n ); }
    void update( void const* p, std::size_t n ){ add( p, n ); }
    result_type result(){ ++results; u64 r = value( log ); log.push_back( 0x55 ); result_type a; for( int i = 0; i < 12; ++i ) a[i] = i < 8 ? (unsigned char)( r >> 8 * i ) : (unsigned char)( 0xE0 + i ); return a; }
    static u64 reduce( bytes const& m ){ return value( m ); }
};
} // namespace vf
#endif
