// N07: assignment of minimal total cost for every small cost matrix.
#include "ut.hpp"
#include <algorithm>
#include <utMath/Graph/Munkres.h>
using namespace ut;
namespace um = Ubitrack::Math; namespace ug = Ubitrack::Math::Graph;
// shortest augmenting paths with potentials, for matrices too large to try every permutation; compared to that on the small ones
static double bestBig( const std::vector< std::vector< double > >& c0 )
{
	std::vector< std::vector< double > > c = c0; if( c.size() > c[ 0 ].size() ) { c.assign( c0[ 0 ].size(), std::vector< double >( c0.size() ) ); for( size_t i = 0; i < c0.size(); i++ ) for( size_t j = 0; j < c.size(); j++ ) c[ j ][ i ] = c0[ i ][ j ]; }
	size_t n = c.size(), m = c[ 0 ].size(); std::vector< double > u( n + 1 ), v( m + 1 ); std::vector< size_t > p( m + 1 ), way( m + 1 );
	for( size_t i = 1; i <= n; i++ ) { p[ 0 ] = i; size_t j0 = 0; std::vector< double > mv( m + 1, 1e300 ); std::vector< char > us( m + 1, 0 ); do { us[ j0 ] = 1; size_t i0 = p[ j0 ], j1 = 0; double dl = 1e300; for( size_t j = 1; j <= m; j++ ) if( !us[ j ] ) { double q = c[ i0 - 1 ][ j - 1 ] - u[ i0 ] - v[ j ]; if( q < mv[ j ] ) { mv[ j ] = q; way[ j ] = j0; } if( mv[ j ] < dl ) { dl = mv[ j ]; j1 = j; } } for( size_t j = 0; j <= m; j++ ) if( us[ j ] ) { u[ p[ j ] ] += dl; v[ j ] -= dl; } else mv[ j ] -= dl; j0 = j1; } while( p[ j0 ] ); do { size_t j1 = way[ j0 ]; p[ j0 ] = p[ j1 ]; j0 = j1; } while( j0 ); }
	double s = 0; for( size_t j = 1; j <= m; j++ ) if( p[ j ] ) s += c[ p[ j ] - 1 ][ j - 1 ]; return s;
}
static double best( const std::vector< std::vector< double > >& c )
{
	size_t r = c.size(), k = c[ 0 ].size(), n = std::max( r, k ); if( n > 8 ) return bestBig( c ); std::vector< size_t > p( n ); for( size_t i = 0; i < n; i++ ) p[ i ] = i; double b = 1e300;
	do { double s = 0; for( size_t i = 0; i < r; i++ ) if( p[ i ] < k ) s += c[ i ][ p[ i ] ]; b = std::min( b, s ); } while( std::next_permutation( p.begin(), p.end() ) ); double g = bestBig( c ); if( std::fabs( g - b ) > 1e-9 * ( 1 + std::fabs( b ) ) ) { std::fprintf( stderr, "references disagree: %g %g\n", g, b ); std::abort(); } return b;
}
static std::string sc( const std::vector< std::vector< double > >& c ) { std::string r; for( auto& a : c ) { for( double d : a ) r += vc::fmt( "%g ", d ); r += "; "; } return r; }
template< class T > static void verify( const std::vector< std::vector< double > >& c, ug::Munkres< T >& m, double tol, const char* how, double unit = 1 )
{
	size_t r = c.size(), k = c[ 0 ].size(); m.solve(); vc::state(); vc::step();
	std::vector< size_t > rows = m.getRowMatchList(), cols = m.getColMatchList(); um::Matrix< T, 0, 0 > mask = m.getMaskMatrix();
	VC_CHECK( rows.size() >= r && cols.size() >= k, "list-length", "%s %s: %zu row and %zu column entries", how, sc( c ).c_str(), rows.size(), cols.size() ); if( rows.size() < r || cols.size() < k ) return;
	std::vector< int > used( k, 0 ); double s = 0; size_t n = 0;
	for( size_t i = 0; i < r; i++ )
	{
		if( rows[ i ] < k ) { VC_CHECK( !used[ rows[ i ] ], "one-to-one", "%s %s: column %zu matched twice", how, sc( c ).c_str(), rows[ i ] ); used[ rows[ i ] ] = 1; n++; s += c[ i ][ rows[ i ] ]; VC_CHECK( cols[ rows[ i ] ] == i, "lists-agree", "%s %s: row %zu -> column %zu -> row %zu", how, sc( c ).c_str(), i, rows[ i ], cols[ rows[ i ] ] ); }
		for( size_t j = 0; j < k; j++ ) VC_CHECK( ( mask( i, j ) == 1 ) == ( rows[ i ] == j ), "mask", "%s %s: mask at %zu %zu is %g", how, sc( c ).c_str(), i, j, (double)mask( i, j ) );
	}
	for( size_t j = 0; j < k; j++ ) VC_CHECK( used[ j ] ? cols[ j ] < r : cols[ j ] >= r, "unmatched", "%s %s: column %zu", how, sc( c ).c_str(), j );
	VC_CHECK( n == std::min( r, k ), "as-many-as-possible", "%s %s: %zu matches", how, sc( c ).c_str(), n ); double b = best( c );
	VC_CHECK( std::fabs( s - b ) <= tol * ( unit + std::fabs( b ) ), "minimal", "%s %s: cost %g, minimum %g", how, sc( c ).c_str(), s, b );
}
template< class T > static void one( const std::vector< std::vector< double > >& c, double tol, bool both, double unit = 1 )
{
	um::Matrix< T, 0, 0 > m( c.size(), c[ 0 ].size() ); for( size_t i = 0; i < c.size(); i++ ) for( size_t j = 0; j < c[ 0 ].size(); j++ ) m( i, j ) = (T)c[ i ][ j ];
	{ ug::Munkres< T > k( m ); verify( c, k, tol, "constructor", unit ); }
	if( both ) { static ug::Munkres< T > again; again.setMatrix( m ); verify( c, again, tol, "reused", unit ); }
}
static void all( size_t r, size_t k, const std::vector< double >& a, uint64_t stride, int group )
{
	uint64_t tot = 1; for( size_t i = 0; i < r * k; i++ ) tot *= a.size();
	for( uint64_t g = 0; g < tot; g += stride * group )
	{
		if( !vc::next( "cost matrices %zux%zu over %zu values, numbers %llu to %llu step %llu", r, k, a.size(), (unsigned long long)g, (unsigned long long)std::min( tot, g + stride * group ) - 1, (unsigned long long)stride ) ) continue;
		for( uint64_t x = g; x < tot && x < g + stride * group; x += stride )
		{
			std::vector< std::vector< double > > c( r, std::vector< double >( k ) ); uint64_t y = x; for( size_t i = 0; i < r; i++ ) for( size_t j = 0; j < k; j++ ) { c[ i ][ j ] = a[ y % a.size() ]; y /= a.size(); }
			one< double >( c, 1e-9, true ); if( ( x / stride ) % 7 == 0 ) one< float >( c, 1e-4, false );
		}
		VC_OUT( "%zu %zu %llu", r, k, (unsigned long long)g );
	}
}
static void structured( int maxN )
{
	for( int n = 3; n <= maxN; n++ ) for( int m = std::max( 2, n - 2 ); m <= std::min( n + 2, maxN ); m++ ) for( int f = 0; f < 8; f++ )
	{
		if( !vc::next( "structured %dx%d cost matrices, family %d", n, m, f ) ) continue;
		for( int k = 0; k < 40; k++ )
		{
			std::vector< std::vector< double > > c( n, std::vector< double >( m ) );
			for( int i = 0; i < n; i++ ) for( int j = 0; j < m; j++ ) c[ i ][ j ] = f == 0 ? ( i + 1 ) * ( j + 1 + k * 0.1 ) : f == 1 ? ( i * 7 + j * 3 + k * i * j ) % ( 5 + k % 7 ) : f == 2 ? std::fabs( i * 1.3 - ( j * 1.1 + k * 0.07 ) ) : f == 3 ? std::pow( i * 1.3 - ( ( j * 3 + k ) % m ), 2.0 ) : f == 4 ? 1e6 * ( ( i * 5 + j * 11 + k ) % 9 ) + 0.001 * ( i * j ) : f == 5 ? -( ( i * 3 + j * 5 + k * ( i + j ) ) % 11 ) : f == 6 ? 0.1 * ( ( i * i + j * j * 3 + k * 5 ) % 13 ) : 1e-7 * ( ( i * 3 + k + j * j * 2 ) % 10 );
			one< double >( c, 1e-9, true ); if( f != 4 ) one< float >( c, 1e-3, false );
			// the same costs in other units: powers of two scale every step of the solution exactly
			for( double u : { std::ldexp( 1.0, -60 ), std::ldexp( 1.0, 50 ) } ) { auto d = c; for( auto& r : d ) for( double& x : r ) x *= u; one< double >( d, 1e-9, k % 2, u ); }
		}
		VC_OUT( "s %d %d %d", n, m, f );
	}
}
void body()
{
	bool th = vc::thorough(); std::vector< double > a = { 0, 1, 2, 5 }, b = { 0.1, 0.3, 0.2 }, neg = { -1, 0, 2 };
	for( size_t r = 1; r <= 3; r++ ) for( size_t k = 1; k <= 3; k++ ) { all( r, k, a, 1, 512 ); all( r, k, b, 1, 512 ); all( r, k, neg, 1, 512 ); }
	all( 1, 5, a, 1, 128 ); all( 5, 1, a, 1, 128 ); all( 2, 4, a, 1, 512 ); all( 4, 2, a, 1, 512 ); all( 3, 4, b, th ? 1 : 3, 512 ); all( 4, 3, b, th ? 1 : 3, 512 ); all( 2, 5, b, 1, 512 ); all( 5, 2, b, 1, 512 );
	std::vector< double > z = { 0, 1 }; all( 4, 4, z, 1, 512 ); all( 4, 4, b, th ? 17 : 211, 512 ); all( 4, 4, a, th ? 1499 : 19997, 512 ); all( 5, 5, z, th ? 53 : 997, 256 ); if( th ) { all( 4, 5, b, 4999, 512 ); all( 5, 4, b, 4999, 512 ); }
	structured( th ? 8 : 7 );
	for( int n = 8; n <= ( th ? 80 : 40 ); n += n < 36 ? 1 : 5 ) for( int d : { 0, -7, -1, 1, 5 } )
	{
		int m = n + d; if( !vc::next( "large cost matrices %dx%d", n, m ) ) continue;
		for( int f = 0; f < 5; f++ ) { std::vector< std::vector< double > > c( n, std::vector< double >( m ) ); for( int i = 0; i < n; i++ ) for( int j = 0; j < m; j++ ) c[ i ][ j ] = f == 0 ? ( i * 31 + j * 17 + i * j * 7 ) % 23 : f == 1 ? ( i + 1.0 ) * ( j + 1 ) : f == 2 ? std::fabs( i * 1.3 - j * 1.1 ) : f == 3 ? dist( spreadPoint( i ), spreadPoint( j + 40 ) ) : ( i == j ? 0 : 1 ); one< double >( c, 1e-9, true ); }
		VC_OUT( "large %d %d", n, m );
	}
}
VC_MAIN( body() )
