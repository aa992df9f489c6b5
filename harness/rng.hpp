// Every random draw of the code under test becomes an enumerated choice.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <string>
#include <utility>
#include <vector>
#include <random>
#include <boost/random.hpp>
namespace rng
{
struct Path { std::vector< std::pair< int, int > > c; size_t pos; int levels; size_t cap; bool extremes, last; long draws; Path() : pos( 0 ), levels( 12 ), cap( ~(size_t)0 ), extremes( false ), last( false ), draws( 0 ) {} };
inline Path& P() { static Path p; return p; }
inline int choose( int n )
{
	Path& p = P(); ++p.draws; if( n <= 1 ) return 0;
	if( p.pos >= p.cap ) { ++p.pos; return (int)( p.pos * 7 % n ); }	// distributions that reject draws: beyond the cap a fixed sequence
	if( p.pos == p.c.size() ) p.c.push_back( std::make_pair( 0, n ) );
	std::pair< int, int >& e = p.c[ p.pos++ ]; e.second = n; if( e.first >= n ) e.first = n - 1; return e.first;
}
inline void begin() { P().c.clear(); P().pos = 0; }
inline void restart() { P().pos = 0; P().draws = 0; P().last = false; }
// next choice sequence in depth-first order; false when all have been explored
inline bool advance()
{
	Path& p = P(); if( p.pos < p.c.size() ) p.c.resize( p.pos ); while( !p.c.empty() ) { if( ++p.c.back().first < p.c.back().second ) { p.pos = 0; return true; } p.c.pop_back(); }
	p.pos = 0; return false;
}
inline std::string str() { std::string r; for( size_t i = 0; i < P().pos && i < P().c.size(); i++ ) r += std::to_string( P().c[ i ].first ) + "/" + std::to_string( P().c[ i ].second ) + " "; return r; }
inline uint32_t word() { Path& p = P(); // extreme values never twice in a row: distributions reject some of them and draw again
	int k = choose( p.levels + ( p.extremes && !p.last ? 2 : 0 ) ); p.last = k >= p.levels; if( k == p.levels ) return 0; if( k > p.levels ) return 0xffffffffu; return (uint32_t)( ( 2.0 * k + 1 ) / ( 2.0 * p.levels ) * 4294967296.0 ); }
struct Engine
{
	typedef uint32_t result_type; static constexpr bool has_fixed_range = false;
	static constexpr result_type ( min )() { return 0; } static constexpr result_type ( max )() { return 0xffffffffu; }
	Engine() {} template< class T > explicit Engine( const T& ) {} template< class T > void seed( const T& ) {} void seed() {}
	result_type operator()() { return word(); }
};
}
namespace boost { namespace random { typedef rng::Engine vc_mt19937; } typedef rng::Engine vc_mt19937; }
namespace std { typedef rng::Engine vc_mt19937; }
#define mt19937 vc_mt19937
