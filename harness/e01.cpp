// E01: homographies are recovered exactly from exact correspondences.
#include "ut.hpp"
#include <algorithm>
#include <utAlgorithm/Homography.h>
using namespace ut;
namespace um = Ubitrack::Math; namespace ua = Ubitrack::Algorithm;
typedef std::array< double, 2 > P2;
static bool apply( const M3& h, const P2& p, P2& o ) { V3 r = mul( h, v3( p[ 0 ], p[ 1 ], 1 ) ); if( r[ 2 ] == 0 ) return false; o = P2{ { r[ 0 ] / r[ 2 ], r[ 1 ] / r[ 2 ] } }; return true; }
static double area( const P2& a, const P2& b, const P2& c ) { return ( b[ 0 ] - a[ 0 ] ) * ( c[ 1 ] - a[ 1 ] ) - ( b[ 1 ] - a[ 1 ] ) * ( c[ 0 ] - a[ 0 ] ); }
static double spread( const std::vector< P2 >& p ) { double m = 0; for( auto& a : p ) for( auto& b : p ) m = std::max( m, std::hypot( a[ 0 ] - b[ 0 ], a[ 1 ] - b[ 1 ] ) ); return m; }
// four points no three of which are (nearly) on a line
static bool frame( const std::vector< P2 >& p, double q )
{
	double s = spread( p ); s = s * s; size_t n = p.size();
	for( size_t a = 0; a < n; a++ ) for( size_t b = a + 1; b < n; b++ ) for( size_t c = b + 1; c < n; c++ ) for( size_t d = c + 1; d < n; d++ ) if( std::fabs( area( p[ a ], p[ b ], p[ c ] ) ) > q * s && std::fabs( area( p[ a ], p[ b ], p[ d ] ) ) > q * s && std::fabs( area( p[ a ], p[ c ], p[ d ] ) ) > q * s && std::fabs( area( p[ b ], p[ c ], p[ d ] ) ) > q * s ) return true;
	return false;
}
template< class T > static std::vector< um::Vector< T, 2 > > up( const std::vector< P2 >& p ) { std::vector< um::Vector< T, 2 > > r; for( auto& a : p ) r.push_back( um::Vector< T, 2 >( (T)a[ 0 ], (T)a[ 1 ] ) ); return r; }
struct Map { M3 h; std::string s; };
static std::vector< Map > maps()
{
	std::vector< Map > r; std::vector< double > ang = vc::thorough ? std::vector< double >{ 0, 17, 45, 90, 135, 180, 233, 270 } : std::vector< double >{ 0, 45, 90, 200 };
	std::vector< std::array< double, 2 > > sc = { { { 1, 1 } }, { { 1, -1 } }, { { 300, 200 } }, { { 0.02, 0.05 } }, { { -2, 3 } } }, off = { { { 0, 0 } }, { { 320, 240 } }, { { -3, 1000 } } }, per = { { { 0, 0 } }, { { 0.2, 0 } }, { { 0, -0.15 } }, { { 0.1, 0.12 } } };
	for( double a : ang ) for( auto& s : sc ) for( double sh : { 0.0, 0.7, -2.0 } ) for( auto& o : off ) for( auto& p : per ) { double c = std::cos( a * PI / 180 ), n = std::sin( a * PI / 180 ); M3 A = { { { c, -n, 0 }, { n, c, 0 }, { 0, 0, 1 } } }, S = { { { s[ 0 ], sh * s[ 0 ], 0 }, { 0, s[ 1 ], 0 }, { 0, 0, 1 } } }, O = { { { 1, 0, o[ 0 ] }, { 0, 1, o[ 1 ] }, { 0, 0, 1 } } }, P = ident(); P.m[ 2 ][ 0 ] = p[ 0 ]; P.m[ 2 ][ 1 ] = p[ 1 ]; r.push_back( { mul( O, mul( S, mul( A, P ) ) ), vc::fmt( "turn %g scale (%g,%g) shear %g offset (%g,%g) perspective (%g,%g)", a, s[ 0 ], s[ 1 ], sh, o[ 0 ], o[ 1 ], p[ 0 ], p[ 1 ] ) } ); }
	return r;
}
// grid in [-1,1]^2, where the perspectives stay in front of infinity
static std::vector< P2 > grid( int n ) { std::vector< P2 > g; for( int i = 0; i < n; i++ ) for( int j = 0; j < n; j++ ) g.push_back( P2{ { -1 + 2.0 * i / ( n - 1 ), -1 + 2.0 * j / ( n - 1 ) } } ); return g; }
template< class T > static void judge( const um::Matrix< T, 3, 3 >& e, const M3& h, const std::vector< P2 >& from, const std::vector< P2 >& to, double s, const P2& o, double tol, const char* key, const std::string& what )
{
	double sp = spread( to ); M3 m = m3( e );
	for( auto& g : grid( 5 ) ) { P2 w, q; apply( h, g, w ); P2 in = P2{ { g[ 0 ] * s + o[ 0 ], g[ 1 ] * s + o[ 1 ] } }; bool ok = apply( m, in, q ); vc::step(); VC_CHECK( ok && std::hypot( q[ 0 ] - w[ 0 ], q[ 1 ] - w[ 1 ] ) <= tol * sp, key, "%s: (%g,%g) maps to (%.9g,%.9g) instead of (%.9g,%.9g)", what.c_str(), in[ 0 ], in[ 1 ], q[ 0 ], q[ 1 ], w[ 0 ], w[ 1 ] ); }
	VC_CHECK( std::fabs( det( m ) ) > 0, key, "%s: singular", what.c_str() ); (void)from; vc::state();
}
static void body()
{
	std::vector< P2 > g = grid( 3 ); std::vector< std::vector< P2 > > sets;
	for( int k = 0; k < 512; k++ ) { std::vector< P2 > p; for( int i = 0; i < 9; i++ ) if( k >> i & 1 ) p.push_back( g[ i ] ); if( p.size() >= 4 && frame( p, 0.1 ) && ( p.size() == 4 || k % 13 == 0 || p.size() == 9 ) ) sets.push_back( p ); }
	for( auto& m : maps() )
	{
		if( !vc::next( "homography %s: all %zu point sets", m.s.c_str(), sets.size() ) ) continue;
		size_t n = 0;
		for( size_t k = 0; k < sets.size(); k++ )
		{
			std::vector< P2 > from = sets[ k ], to; for( auto& p : from ) { P2 w; apply( m.h, p, w ); to.push_back( w ); } 
			// order of the correspondences: rotate and reverse
			size_t r = ( k + n++ ) % from.size(); std::rotate( from.begin(), from.begin() + r, from.end() ); std::rotate( to.begin(), to.begin() + r, to.end() ); if( k % 2 ) { std::reverse( from.begin(), from.end() ); std::reverse( to.begin(), to.end() ); } std::string w = vc::fmt( "%zu points (set %zu)", from.size(), k );
			double q = 0; { std::vector< P2 > t4( to ); q = frame( t4, 0.01 ) ? 1 : 0; }
			judge( ua::homographyDLT( up< double >( from ), up< double >( to ) ), m.h, from, to, 1, P2{ { 0, 0 } }, 1e-7, "dlt", w );
			if( q ) judge( ua::homographyDLT( up< float >( from ), up< float >( to ) ), m.h, from, to, 1, P2{ { 0, 0 } }, 0.02, "dlt-float", w );
			// scaled and shifted source points
			std::vector< P2 > f2; for( auto& p : from ) f2.push_back( P2{ { p[ 0 ] * 250 + 320, p[ 1 ] * 250 - 700 } } ); judge( ua::homographyDLT( up< double >( f2 ), up< double >( to ) ), m.h, f2, to, 250, P2{ { 320, -700 } }, 1e-6, "dlt-shifted", w );
		}
		// the unit square: corners (-.5,.5) (-.5,-.5) (.5,-.5) (.5,.5)
		std::vector< P2 > sq = { P2{ { -0.5, 0.5 } }, P2{ { -0.5, -0.5 } }, P2{ { 0.5, -0.5 } }, P2{ { 0.5, 0.5 } } }, to; for( auto& p : sq ) { P2 w; apply( m.h, p, w ); to.push_back( w ); }
		judge( ua::squareHomography( up< double >( to ) ), m.h, sq, to, 1, P2{ { 0, 0 } }, 1e-8, "square", "square" ); judge( ua::homographyDLT( up< double >( sq ), up< double >( to ) ), m.h, sq, to, 1, P2{ { 0, 0 } }, 1e-7, "square-dlt", "square" ); judge( ua::squareHomography( up< float >( to ) ), m.h, sq, to, 1, P2{ { 0, 0 } }, 0.02, "square-float", "square" );
		VC_OUT( "%s", m.s.c_str() );
	}
	// source and destination points in any unit
	for( auto& m : maps() )
	{
		if( !vc::next( "homography %s in other units", m.s.c_str() ) ) continue;
		for( double fs : { 1e-8, 1e-5, 1e-3, 1e4, 1e7 } ) for( double fd : { 1e-7, 1e-3, 1.0, 1e5 } ) for( size_t k = 0; k < sets.size(); k += 7 )
		{
			M3 h = m.h; for( int j = 0; j < 3; j++ ) { h.m[ 0 ][ j ] *= fd; h.m[ 1 ][ j ] *= fd; } std::vector< P2 > from, to; for( auto& p : sets[ k ] ) { P2 w; apply( h, p, w ); to.push_back( w ); from.push_back( P2{ { p[ 0 ] * fs, p[ 1 ] * fs } } ); }
			judge( ua::homographyDLT( up< double >( from ), up< double >( to ) ), h, from, to, fs, P2{ { 0, 0 } }, 1e-7, "dlt-units", vc::fmt( "%zu points (set %zu), units %g and %g", from.size(), k, fs, fd ) );
			if( k % 21 == 0 ) { std::vector< P2 > sq = { P2{ { -0.5, 0.5 } }, P2{ { -0.5, -0.5 } }, P2{ { 0.5, -0.5 } }, P2{ { 0.5, 0.5 } } }, ts; for( auto& p : sq ) { P2 w; apply( h, p, w ); ts.push_back( w ); } judge( ua::squareHomography( up< double >( ts ) ), h, sq, ts, 1, P2{ { 0, 0 } }, 1e-8, "square-units", vc::fmt( "unit %g", fd ) ); }
		}
		VC_OUT( "units %s", m.s.c_str() );
	}
	// every number of correspondences
	{
		auto mp = maps(); for( size_t n : sizes( 4, 70, vc::pick( 260, 2050 ) ) )
		{
			if( !vc::next( "%zu correspondences", n ) ) continue; std::vector< P2 > from; for( auto& x : spreadPoints( n ) ) from.push_back( P2{ { x[ 0 ], x[ 1 ] } } ); std::vector< P2 > few( from.begin(), from.begin() + std::min< size_t >( n, 12 ) ); if( !frame( few, 0.02 ) ) continue;
			for( size_t k = n % 13; k < mp.size(); k += n > 70 ? 97 : 13 ) { std::vector< P2 > to; for( auto& p : from ) { P2 w; apply( mp[ k ].h, p, w ); to.push_back( w ); } judge( ua::homographyDLT( up< double >( from ), up< double >( to ) ), mp[ k ].h, from, to, 1, P2{ { 0, 0 } }, 1e-6, "dlt-many", vc::fmt( "%zu points", n ) ); }
			VC_OUT( "%zu", n );
		}
	}
	// every order of the four correspondences
	for( int k = 0; k < 24; k++ )
	{
		if( !vc::next( "permutation %d of the square's corners", k ) ) continue; std::array< int, 4 > pm = { { 0, 1, 2, 3 } }; for( int i = 0; i < k; i++ ) std::next_permutation( pm.begin(), pm.end() );
		for( auto& m : maps() ) { std::vector< P2 > sq = { P2{ { -0.5, 0.5 } }, P2{ { -0.5, -0.5 } }, P2{ { 0.5, -0.5 } }, P2{ { 0.5, 0.5 } } }, from, to; for( int i : pm ) { from.push_back( sq[ i ] ); P2 w; apply( m.h, sq[ i ], w ); to.push_back( w ); } judge( ua::homographyDLT( up< double >( from ), up< double >( to ) ), m.h, from, to, 1, P2{ { 0, 0 } }, 1e-7, "dlt-order", m.s ); }
		// corners joined to a bow tie or turned over: the map still takes the corners there
		std::vector< P2 > c = { P2{ { 10, 30 } }, P2{ { 12, 8 } }, P2{ { 33, 5 } }, P2{ { 40, 37 } } }, to; for( int i : pm ) to.push_back( c[ i ] ); std::vector< P2 > sq = { P2{ { -0.5, 0.5 } }, P2{ { -0.5, -0.5 } }, P2{ { 0.5, -0.5 } }, P2{ { 0.5, 0.5 } } };
		M3 a = m3( ua::squareHomography( up< double >( to ) ) ), b = m3( ua::homographyDLT( up< double >( sq ), up< double >( to ) ) ); for( int i = 0; i < 4; i++ ) { P2 p, q; bool o = apply( a, sq[ i ], p ), o2 = apply( b, sq[ i ], q ); VC_CHECK( o && std::hypot( p[ 0 ] - to[ i ][ 0 ], p[ 1 ] - to[ i ][ 1 ] ) < 1e-7, "corner", "square: corner %d", i ); VC_CHECK( o2 && std::hypot( q[ 0 ] - to[ i ][ 0 ], q[ 1 ] - to[ i ][ 1 ] ) < 1e-7, "corner", "dlt: corner %d", i ); }
		VC_OUT( "perm %d", k );
	}
	// degenerate input must come back (with whatever result)
	for( int k = 0; k < 81; k++ )
	{
		if( !vc::next( "degenerate points %d", k ) ) continue; std::vector< P2 > from, to; int x = k; for( int i = 0; i < 4; i++ ) { int c = x % 3; x /= 3; from.push_back( P2{ { (double)c, 2.0 * c } } ); to.push_back( P2{ { (double)( i % 2 ), (double)( i / 2 ) } } ); }
		M3 a = m3( ua::homographyDLT( up< double >( from ), up< double >( to ) ) ), b = m3( ua::homographyDLT( up< double >( to ), up< double >( from ) ) ), c = m3( ua::squareHomography( up< double >( from ) ) ); VC_OUT( "deg %d %d%d%d", k, std::isfinite( a.m[ 0 ][ 0 ] ), std::isfinite( b.m[ 0 ][ 0 ] ), std::isfinite( c.m[ 0 ][ 0 ] ) ); vc::state();
	}
}
VC_MAIN( body() )
