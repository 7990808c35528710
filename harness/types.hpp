// Type lists shared by the serialization monitors. Macros take X( type ) with variadic types.
#ifndef VERIF_TYPES_HPP
#define VERIF_TYPES_HPP
#include "usertypes.hpp"
typedef void (*fnptr)( int );
#define VF_INTS( X ) X( bool ) X( char ) X( signed char ) X( unsigned char ) X( wchar_t ) X( char16_t ) X( char32_t ) X( short ) X( unsigned short ) X( int ) X( unsigned ) X( long ) X( unsigned long ) X( long long ) X( unsigned long long )
#define VF_ENUMS( X ) X( ut::E0 ) X( ut::E8 ) X( ut::ES ) X( ut::EL ) X( ut::EBool )
#define VF_PTRS( X ) X( int* ) X( void const* ) X( char const* ) X( std::string* ) X( std::nullptr_t ) X( int const volatile* ) X( void** )
#define VF_FLOATS( X ) X( float ) X( double )

#define VF_SEQ_A( X ) X( std::vector<unsigned char> ) X( std::vector<char> ) X( std::vector<int> ) X( std::vector<unsigned long long> ) X( std::vector<float> ) X( std::vector<double> ) X( std::vector<bool> ) X( std::vector<ut::ES> ) X( std::vector<void*> ) \
    X( std::string ) X( std::wstring ) X( std::u16string ) X( std::u32string ) X( std::deque<short> ) X( std::deque<unsigned char> ) X( std::list<unsigned long> ) X( std::forward_list<char> ) X( std::forward_list<double> ) X( std::deque<bool> )
#define VF_SEQ_B( X ) X( std::vector<std::string> ) X( std::vector<std::vector<unsigned short>> ) X( std::list<std::deque<unsigned char>> ) X( std::vector<std::pair<char, std::string>> ) X( std::vector<std::array<short, 3>> ) X( std::vector<std::vector<std::vector<bool>>> ) \
    X( std::set<int> ) X( std::set<std::string> ) X( std::multiset<unsigned char> ) X( std::map<int, std::string> ) X( std::map<std::string, std::vector<int>> ) X( std::multimap<short, double> ) \
    X( std::array<unsigned char, 3> ) X( std::array<int, 4> ) X( std::array<int, 1> ) X( std::array<int, 0> ) X( std::array<std::string, 2> ) X( std::array<std::string, 0> ) X( std::array<std::array<unsigned short, 2>, 3> ) X( std::array<float, 3> ) X( std::array<bool, 5> ) X( std::array<ut::Amp, 2> ) X( std::list<ut::Amp> ) X( std::array<std::array<int, 0>, 2> ) \
    X( boost::array<int, 3> ) X( boost::array<unsigned char, 5> ) X( boost::array<std::string, 2> ) X( boost::array<int, 0> ) X( boost::hash2::digest<16> ) X( boost::hash2::digest<20> ) X( boost::hash2::digest<64> ) X( std::vector<boost::hash2::digest<28>> ) \
    X( ut::CRange<int> ) X( ut::CRange<unsigned char> ) X( ut::CRange<std::string> ) X( ut::LRange<int> ) X( ut::LRange<std::string> ) X( ut::FRange<int, 3> ) X( ut::FRange<int, 0> ) X( ut::FRange<std::string, 2> ) X( ut::MyVec ) X( std::vector<ut::MyVec> ) \
    X( ut::On<std::forward_list<int>> ) X( ut::On<std::deque<unsigned char>> ) X( ut::On<std::set<std::string>> ) X( ut::On<std::list<ut::D1>> ) X( ut::Once<int> ) X( ut::Once<std::string> ) X( std::vector<ut::Once<unsigned char>> ) \
    X( ut::FixOn<std::forward_list<int>, 3> ) X( ut::FixOn<std::forward_list<std::string>, 2> ) X( ut::FixOn<std::forward_list<char>, 0> ) X( ut::FixOn<std::deque<unsigned char>, 5> ) X( ut::FixOn<std::deque<std::string>, 1> ) X( ut::FixOn<std::set<short>, 4> ) X( ut::FixOn<std::map<int, char>, 2> ) X( ut::FixOnce<int, 3> ) X( ut::FixOnce<unsigned char, 16> ) X( ut::FixOnce<int, 0> ) X( ut::FixC<int, 3> ) X( ut::FixC<unsigned char, 16> ) X( ut::FixC<std::string, 2> ) X( ut::FixC<double, 2> ) X( std::vector<ut::FixOn<std::forward_list<short>, 2>> )
#define VF_AGG( X ) X( std::pair<int, std::string> ) X( std::pair<unsigned char, double> ) X( std::tuple<> ) X( std::tuple<char> ) X( std::tuple<std::string, double, char> ) X( std::tuple<std::tuple<>, std::tuple<>> ) X( std::tuple<std::tuple<int, short>, std::pair<char, std::vector<int>>, std::array<int, 0>> ) X( std::pair<std::string, std::string> ) X( std::tuple<bool, ut::E8, int*, float> ) \
    X( std::pair<std::pair<char, short>, std::pair<int, long>> ) X( ut::UTup ) X( std::vector<ut::UTup> ) \
    X( ut::D0 ) X( ut::D1 ) X( ut::D2 ) X( ut::DPad ) X( ut::DPriv ) X( ut::DMulti ) X( ut::DOnlyBase ) X( ut::DEmptyBase ) X( ut::DArr ) X( ut::DEnum ) X( ut::DT<int> ) X( ut::DT<ut::D1> ) X( ut::DT<ut::DT<std::string>> ) X( std::vector<ut::D0> ) X( std::vector<ut::DPad> ) X( std::map<short, ut::D2> ) X( std::pair<ut::D0, ut::D0> ) \
    X( ut::TI ) X( ut::TS ) X( std::vector<ut::TI> ) X( ut::DT<ut::TI> ) X( std::pair<ut::TI, ut::TS> ) X( ut::Contig ) X( ut::Contig1 ) X( std::vector<ut::Contig> ) X( std::vector<ut::Contig1> ) X( std::array<ut::Contig, 3> ) X( std::array<ut::Contig1, 2> ) X( ut::DT<ut::Contig> ) X( std::deque<ut::Contig1> ) \
    X( ut::Amp ) X( std::array<ut::Amp, 3> ) X( std::array<ut::Amp, 1> ) X( boost::array<ut::Amp, 2> ) X( std::vector<ut::Amp> ) X( std::deque<ut::Amp> ) X( std::pair<ut::Amp, int> ) X( std::tuple<char, ut::Amp> ) X( ut::FixC<ut::Amp, 2> ) X( ut::AmpC ) X( std::array<ut::AmpC, 4> ) X( boost::array<ut::AmpC, 3> ) X( std::vector<ut::AmpC> ) X( std::list<ut::AmpC> ) X( std::tuple<ut::AmpC, ut::AmpC> )
// floating point inside everything that can hold it
#define VF_FLOATC( X ) X( std::vector<float> ) X( std::vector<double> ) X( std::deque<float> ) X( std::list<double> ) X( std::forward_list<float> ) X( std::array<float, 1> ) X( std::array<double, 4> ) X( std::array<float, 17> ) X( std::array<double, 64> ) X( std::array<std::array<float, 4>, 4> ) X( boost::array<double, 9> ) X( boost::array<float, 5> ) \
    X( std::set<double> ) X( std::map<float, double> ) X( std::multimap<double, float> ) X( std::unordered_map<int, double> ) X( std::unordered_multiset<float> ) X( std::pair<float, double> ) X( std::pair<double, double> ) X( std::tuple<float> ) X( std::tuple<double, float, double, std::vector<double>> ) X( std::vector<std::pair<float, float>> ) X( std::vector<std::array<double, 2>> ) X( std::vector<std::vector<float>> ) \
    X( ut::DPad ) X( ut::DArr ) X( ut::DT<double> ) X( ut::DT<float> ) X( std::vector<ut::DPad> ) X( ut::CRange<double> ) X( ut::CRange<float> ) X( ut::LRange<double> ) X( ut::FRange<float, 6> )
#define VF_UNORD( X ) X( std::unordered_set<int> ) X( std::unordered_set<std::string> ) X( std::unordered_multiset<unsigned char> ) X( std::unordered_map<int, std::string> ) X( std::unordered_map<std::string, std::vector<short>> ) X( std::unordered_multimap<short, double> ) \
    X( boost::unordered_set<std::string> ) X( boost::unordered_multiset<int> ) X( boost::unordered_map<unsigned char, std::string> ) X( boost::unordered_multimap<int, ut::D1> ) X( std::vector<std::unordered_set<short>> ) X( std::pair<std::string, std::unordered_map<char, int>> ) X( std::unordered_map<int, std::unordered_set<int>> ) X( ut::DT<std::unordered_multiset<int>> ) X( std::list<boost::unordered_map<int, int>> )
#endif
