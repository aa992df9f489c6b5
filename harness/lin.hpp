// Independent oracle mathematics: plain arrays, textbook formulas, no code of the repository.
#ifndef LIN_HPP
#define LIN_HPP
#include <cmath>
#include <cstddef>
#include <vector>
#include <array>
#include <algorithm>
#include <string>
namespace lin {
typedef std::array< double, 3 > V3;
struct M3 { double m[ 3 ][ 3 ]; };
const double PI = 3.14159265358979323846;

inline V3 v3( double x, double y, double z ) { V3 r = {{ x, y, z }}; return r; }
inline V3 add( const V3& a, const V3& b ) { return v3( a[ 0 ] + b[ 0 ], a[ 1 ] + b[ 1 ], a[ 2 ] + b[ 2 ] ); }
inline V3 sub( const V3& a, const V3& b ) { return v3( a[ 0 ] - b[ 0 ], a[ 1 ] - b[ 1 ], a[ 2 ] - b[ 2 ] ); }
inline V3 mulS( const V3& a, double s ) { return v3( a[ 0 ] * s, a[ 1 ] * s, a[ 2 ] * s ); }
inline double dot( const V3& a, const V3& b ) { return a[ 0 ] * b[ 0 ] + a[ 1 ] * b[ 1 ] + a[ 2 ] * b[ 2 ]; }
inline V3 cross( const V3& a, const V3& b ) { return v3( a[ 1 ] * b[ 2 ] - a[ 2 ] * b[ 1 ], a[ 2 ] * b[ 0 ] - a[ 0 ] * b[ 2 ], a[ 0 ] * b[ 1 ] - a[ 1 ] * b[ 0 ] ); }
inline double norm( const V3& a ) { return std::sqrt( dot( a, a ) ); }
inline V3 unit( const V3& a ) { return mulS( a, 1 / norm( a ) ); }
inline double dist( const V3& a, const V3& b ) { return norm( sub( a, b ) ); }

inline M3 ident() { M3 r = {{{ 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }}}; return r; }
inline M3 mul( const M3& a, const M3& b )
{ M3 r; for( int i = 0; i < 3; i++ ) for( int j = 0; j < 3; j++ ) { r.m[ i ][ j ] = 0; for( int k = 0; k < 3; k++ ) r.m[ i ][ j ] += a.m[ i ][ k ] * b.m[ k ][ j ]; } return r; }
inline M3 trans( const M3& a ) { M3 r; for( int i = 0; i < 3; i++ ) for( int j = 0; j < 3; j++ ) r.m[ i ][ j ] = a.m[ j ][ i ]; return r; }
inline V3 mul( const M3& a, const V3& v )
{ V3 r; for( int i = 0; i < 3; i++ ) r[ i ] = a.m[ i ][ 0 ] * v[ 0 ] + a.m[ i ][ 1 ] * v[ 1 ] + a.m[ i ][ 2 ] * v[ 2 ]; return r; }
inline double det( const M3& a )
{ const double (*m)[ 3 ] = a.m; return m[ 0 ][ 0 ] * ( m[ 1 ][ 1 ] * m[ 2 ][ 2 ] - m[ 1 ][ 2 ] * m[ 2 ][ 1 ] ) - m[ 0 ][ 1 ] * ( m[ 1 ][ 0 ] * m[ 2 ][ 2 ] - m[ 1 ][ 2 ] * m[ 2 ][ 0 ] ) + m[ 0 ][ 2 ] * ( m[ 1 ][ 0 ] * m[ 2 ][ 1 ] - m[ 1 ][ 1 ] * m[ 2 ][ 0 ] ); }
inline double maxDiff( const M3& a, const M3& b )
{ double d = 0; for( int i = 0; i < 3; i++ ) for( int j = 0; j < 3; j++ ) { double e = std::fabs( a.m[ i ][ j ] - b.m[ i ][ j ] ); if( !( e <= d ) ) d = e; if( e != e ) return 1e30; } return d; }
inline double traceOf( const M3& a ) { return a.m[ 0 ][ 0 ] + a.m[ 1 ][ 1 ] + a.m[ 2 ][ 2 ]; }

// rotation about axis (any length) by angle, Rodrigues
inline M3 rodrigues( const V3& axis, double angle )
{
	V3 u = unit( axis ); double c = std::cos( angle ), s = std::sin( angle ), t = 1 - c;
	M3 r = {{{ c + u[ 0 ] * u[ 0 ] * t, u[ 0 ] * u[ 1 ] * t - u[ 2 ] * s, u[ 0 ] * u[ 2 ] * t + u[ 1 ] * s },
		{ u[ 1 ] * u[ 0 ] * t + u[ 2 ] * s, c + u[ 1 ] * u[ 1 ] * t, u[ 1 ] * u[ 2 ] * t - u[ 0 ] * s },
		{ u[ 2 ] * u[ 0 ] * t - u[ 1 ] * s, u[ 2 ] * u[ 1 ] * t + u[ 0 ] * s, c + u[ 2 ] * u[ 2 ] * t }}};
	return r;
}
// angle of a rotation matrix, accurate everywhere: atan2( |antisymmetric part|, trace )
inline double angleOf( const M3& a )
{
	V3 w = v3( a.m[ 2 ][ 1 ] - a.m[ 1 ][ 2 ], a.m[ 0 ][ 2 ] - a.m[ 2 ][ 0 ], a.m[ 1 ][ 0 ] - a.m[ 0 ][ 1 ] );
	return std::atan2( norm( w ), traceOf( a ) - 1 );
}
inline M3 axisRot( int k, double angle ) { V3 a = v3( 0, 0, 0 ); a[ k ] = 1; return rodrigues( a, angle ); }
// geodesic distance
inline double rotDist( const M3& a, const M3& b ) { return angleOf( mul( trans( a ), b ) ); }

struct Rot { V3 axis; double angle; M3 R; };

// rotation lattice: level 0 small, 1 medium, 2 full
inline std::vector< Rot > rotLattice( int level )
{
	std::vector< V3 > axes;
	for( int x = -1; x <= 1; x++ ) for( int y = -1; y <= 1; y++ ) for( int z = -1; z <= 1; z++ )
	{
		if( !x && !y && !z ) continue;
		int nz = ( x != 0 ) + ( y != 0 ) + ( z != 0 );
		if( level == 0 && nz == 2 && ( x + y + z != 0 ) ) continue;
		axes.push_back( v3( x, y, z ) );
	}
	if( level >= 1 ) { axes.push_back( v3( 1, 2, 3 ) ); axes.push_back( v3( -3, 1, 2 ) ); axes.push_back( v3( 2, -1, -0.5 ) ); axes.push_back( v3( -0.1, -0.7, 0.2 ) ); }
	if( level >= 2 ) { axes.push_back( v3( 10, 0.01, -0.02 ) ); axes.push_back( v3( 0.02, -10, 0.01 ) ); axes.push_back( v3( 0.001, 0.002, 10 ) ); }
	std::vector< double > ang;
	if( level == 0 ) { double a[] = { 25, 90, 140, 180 }; ang.assign( a, a + 4 ); }
	else if( level == 1 ) { double a[] = { 1e-3, 30, 75, 90, 120, 160, 179.5, 180 }; ang.assign( a, a + 8 ); }
	else { double a[] = { 1e-9, 1e-5, 1e-3, 0.5, 15, 30, 45, 60, 90, 100, 120, 135, 150, 170, 179, 179.99, 179.99999, 180 }; ang.assign( a, a + 18 ); }
	std::vector< Rot > r;
	Rot id; id.axis = v3( 0, 0, 1 ); id.angle = 0; id.R = ident(); r.push_back( id );
	for( size_t i = 0; i < axes.size(); i++ ) for( size_t j = 0; j < ang.size(); j++ )
	{ Rot q; q.axis = axes[ i ]; q.angle = ang[ j ] * PI / 180; q.R = rodrigues( q.axis, q.angle ); r.push_back( q ); }
	return r;
}

// dense dynamic matrices for oracles
struct D
{
	size_t r, c; std::vector< double > v;
	D( size_t R = 0, size_t C = 0 ) : r( R ), c( C ), v( R * C, 0.0 ) {}
	double& operator()( size_t i, size_t j ) { return v[ i * c + j ]; }
	double operator()( size_t i, size_t j ) const { return v[ i * c + j ]; }
};
inline D eye( size_t n ) { D r( n, n ); for( size_t i = 0; i < n; i++ ) r( i, i ) = 1; return r; }
inline D mul( const D& a, const D& b )
{ D r( a.r, b.c ); for( size_t i = 0; i < a.r; i++ ) for( size_t j = 0; j < b.c; j++ ) { double s = 0; for( size_t k = 0; k < a.c; k++ ) s += a( i, k ) * b( k, j ); r( i, j ) = s; } return r; }
inline D trans( const D& a ) { D r( a.c, a.r ); for( size_t i = 0; i < a.r; i++ ) for( size_t j = 0; j < a.c; j++ ) r( j, i ) = a( i, j ); return r; }
inline D add( const D& a, const D& b ) { D r = a; for( size_t i = 0; i < r.v.size(); i++ ) r.v[ i ] += b.v[ i ]; return r; }
inline D sub( const D& a, const D& b ) { D r = a; for( size_t i = 0; i < r.v.size(); i++ ) r.v[ i ] -= b.v[ i ]; return r; }
inline D scale( const D& a, double s ) { D r = a; for( size_t i = 0; i < r.v.size(); i++ ) r.v[ i ] *= s; return r; }
inline double maxAbs( const D& a ) { double m = 0; for( double x : a.v ) { if( x != x ) return 1e300; m = std::max( m, std::fabs( x ) ); } return m; }
inline double maxDiff( const D& a, const D& b ) { if( a.r != b.r || a.c != b.c ) return 1e300; return maxAbs( sub( a, b ) ); }
// Gauss-Jordan with partial pivoting; returns false if singular
inline bool inv( const D& a, D& out, double* detOut = 0 )
{
	size_t n = a.r; D m = a; out = eye( n ); double dt = 1; bool ok = true;
	for( size_t c = 0; c < n; c++ )
	{
		size_t p = c; for( size_t i = c + 1; i < n; i++ ) if( std::fabs( m( i, c ) ) > std::fabs( m( p, c ) ) ) p = i;
		if( std::fabs( m( p, c ) ) < 1e-13 ) { dt = 0; ok = false; break; }
		if( p != c ) { dt = -dt; for( size_t j = 0; j < n; j++ ) { std::swap( m( p, j ), m( c, j ) ); std::swap( out( p, j ), out( c, j ) ); } }
		double d = m( c, c ); dt *= d;
		for( size_t j = 0; j < n; j++ ) { m( c, j ) /= d; out( c, j ) /= d; }
		for( size_t i = 0; i < n; i++ ) if( i != c ) { double f = m( i, c ); if( f != 0 ) for( size_t j = 0; j < n; j++ ) { m( i, j ) -= f * m( c, j ); out( i, j ) -= f * out( c, j ); } }
	}
	if( detOut ) *detOut = dt;
	return ok;
}
// eigenvalues of a symmetric matrix (Jacobi), ascending
inline std::vector< double > eigSym( const D& a0 )
{
	D a = a0; size_t n = a.r;
	for( int sweep = 0; sweep < 100; sweep++ )
	{
		double off = 0; for( size_t i = 0; i < n; i++ ) for( size_t j = i + 1; j < n; j++ ) off += a( i, j ) * a( i, j );
		if( !( off > 1e-30 ) ) break;
		for( size_t p = 0; p < n; p++ ) for( size_t q = p + 1; q < n; q++ )
		{
			if( a( p, q ) == 0 ) continue;
			double th = ( a( q, q ) - a( p, p ) ) / ( 2 * a( p, q ) ), t = ( th >= 0 ? 1 : -1 ) / ( std::fabs( th ) + std::sqrt( th * th + 1 ) ), c = 1 / std::sqrt( t * t + 1 ), s = t * c;
			for( size_t k = 0; k < n; k++ ) { double x = a( k, p ), y = a( k, q ); a( k, p ) = c * x - s * y; a( k, q ) = s * x + c * y; }
			for( size_t k = 0; k < n; k++ ) { double x = a( p, k ), y = a( q, k ); a( p, k ) = c * x - s * y; a( q, k ) = s * x + c * y; }
		}
	}
	std::vector< double > e; for( size_t i = 0; i < n; i++ ) e.push_back( a( i, i ) );
	std::sort( e.begin(), e.end() ); return e;
}
} // namespace lin
#endif
