// N09: transforming, projecting and normalising points agrees with projective geometry.
#include "ut.hpp"
#include <list>
#include <deque>
#include <utMath/Geometry/PointTransformation.h>
#include <utMath/Geometry/PointProjection.h>
#include <utMath/Geometry/PointNormalization.h>
#include <utMath/Functors/MatrixFunctors.h>
using namespace ut;
namespace um = Ubitrack::Math; namespace ug = Ubitrack::Math::Geometry;
// every point of length L over the alphabet
template< class T, size_t L > static std::vector< um::Vector< T, L > > points( const std::vector< double >& a )
{
	std::vector< um::Vector< T, L > > r; size_t n = 1; for( size_t i = 0; i < L; i++ ) n *= a.size();
	for( size_t k = 0; k < n; k++ ) { um::Vector< T, L > v; size_t x = k; for( size_t i = 0; i < L; i++ ) { v( i ) = (T)a[ x % a.size() ]; x /= a.size(); } r.push_back( v ); } return r;
}
// unit matrices, permutation-like and full asymmetric ones
template< class T, size_t M, size_t N > static std::vector< um::Matrix< T, M, N > > matrices( int full )
{
	std::vector< um::Matrix< T, M, N > > r; 
	for( size_t i = 0; i < M; i++ ) for( size_t j = 0; j < N; j++ ) { um::Matrix< T, M, N > m; for( size_t a = 0; a < M; a++ ) for( size_t b = 0; b < N; b++ ) m( a, b ) = a == i && b == j; r.push_back( m ); }
	for( int k = 0; k < full; k++ ) { um::Matrix< T, M, N > m; for( size_t a = 0; a < M; a++ ) for( size_t b = 0; b < N; b++ ) { unsigned h = (unsigned)( ( a * 7 + b * 3 + 1 ) * ( 2 * k + 3 ) + k * k ); m( a, b ) = (T)( ( ( h * 2654435761u ) >> 24 ) % 17 ) - 8 + ( a + 1 == M && b + 1 == N ? 20 : 0 ); } r.push_back( m ); }
	return r;
}
template< size_t N, class V > static std::vector< double > homog( const V& v )   // padded to N entries: missing z is 0, missing w is 1
{ std::vector< double > h; for( size_t i = 0; i < v.size(); i++ ) h.push_back( v( i ) ); if( h.size() < N ) { while( h.size() + 1 < N ) h.push_back( 0 ); h.push_back( 1 ); } return h; }
template< size_t M, size_t N, class MT > static std::vector< double > prod( const MT& m, const std::vector< double >& h ) { std::vector< double > r( M, 0.0 ); for( size_t i = 0; i < M; i++ ) for( size_t j = 0; j < N; j++ ) r[ i ] += (double)m( i, j ) * h[ j ]; return r; }
template< class V > static std::string sv( const V& v ) { std::string s; for( size_t i = 0; i < v.size(); i++ ) s += vc::fmt( "%g ", (double)v( i ) ); return s; }
template< class MT > static std::string sm( const MT& m ) { std::string s; for( size_t i = 0; i < m.size1(); i++ ) { for( size_t j = 0; j < m.size2(); j++ ) s += vc::fmt( "%g ", (double)m( i, j ) ); s += "; "; } return s; }

template< class T, size_t M, size_t N, size_t L > static void transforms( const char* tn )
{
	auto ms = matrices< T, M, N >( vc::pick( 10, 60 ) ); auto ps = points< T, L >( L < 4 ? std::vector< double >{ -2, -1, 0, 1, 3 } : std::vector< double >{ -2, 0, 1, 3 } );
	for( size_t k = 0; k < ms.size(); k++ )
	{
		const um::Matrix< T, M, N >& m = ms[ k ]; if( !vc::next( "transform %zu-vectors of %s by %zux%zu matrix %s", L, tn, M, N, sm( m ).c_str() ) ) continue;
		std::vector< um::Vector< T, M > > want;
		for( auto& p : ps )
		{
			std::vector< double > w = prod< M, N >( m, homog< N >( p ) ); um::Vector< T, M > g = ug::TransformPoint()( m, p ); want.push_back( g ); vc::state(); vc::step();
			for( size_t i = 0; i < M; i++ ) VC_NEAR( (double)g( i ), w[ i ], 1e-5, "transform", "point %s entry %zu", sv( p ).c_str(), i );
		}
		for( size_t n : { (size_t)0, (size_t)1, (size_t)2, (size_t)5, ps.size() } )
		{
			std::vector< um::Vector< T, L > > in( ps.begin(), ps.begin() + n ); std::list< um::Vector< T, L > > li( in.begin(), in.end() ); std::vector< um::Vector< T, M > > o( n + 1, um::Vector< T, M >::zeros() ), b, bl; o[ n ]( 0 ) = 77;
			ug::transform_points( m, in.begin(), in.end(), o.begin() ); ug::transform_points( m, in.begin(), in.end(), std::back_inserter( b ) ); ug::transform_points( m, li.begin(), li.end(), std::back_inserter( bl ) );
			VC_CHECK( b.size() == n && bl.size() == n && o[ n ]( 0 ) == 77, "range-length", "%zu points in, %zu and %zu out", n, b.size(), bl.size() );
			for( size_t i = 0; i < n && i < b.size() && i < bl.size(); i++ ) for( size_t j = 0; j < M; j++ ) VC_CHECK( o[ i ]( j ) == want[ i ]( j ) && b[ i ]( j ) == want[ i ]( j ) && bl[ i ]( j ) == want[ i ]( j ), "range", "point %zu of %zu entry %zu", i, n, j );
		}
		VC_OUT( "t %zu %zu %zu %zu %s", M, N, L, k, tn );
	}
}
template< class T, size_t M, size_t L > static void inPlace( const char* tn )
{
	auto ms = matrices< T, M, L == M ? ( M == 4 ? 4 : M == 3 ? 4 : 3 ) : 3 >( 5 );
	for( size_t k = 0; k < ms.size(); k++ )
	{
		if( !vc::next( "transform %zu-vectors of %s in place, matrix %s", L, tn, sm( ms[ k ] ).c_str() ) ) continue;
		auto ps = points< T, L >( { -1, 0, 2 } ), in = ps; ug::transform_points( ms[ k ], in.begin(), in.end(), in.begin() );
		for( size_t i = 0; i < ps.size(); i++ ) { um::Vector< T, M > g = ug::TransformPoint()( ms[ k ], ps[ i ] ); for( size_t j = 0; j < M; j++ ) VC_CHECK( in[ i ]( j ) == g( j ), "in-place", "point %zu", i ); }
		VC_OUT( "i %zu %zu %zu", M, L, k );
	}
}
template< class T, size_t N, size_t L > static void projections( const char* tn, double tol )
{
	auto ms = matrices< T, 3, N >( vc::pick( 30, 200 ) ); auto ps = points< T, L >( L < 4 ? std::vector< double >{ -2, -1, 0, 1, 3 } : std::vector< double >{ -2, 0, 1, 3 } );
	for( size_t k = 3 * N; k < ms.size() + 9; k++ )
	{
		um::Matrix< T, 3, N > m = ms[ k < ms.size() ? k : 3 * N ]; if( k >= ms.size() ) { int c = k - ms.size(); for( size_t i = 0; i < 3; i++ ) for( size_t j = 0; j < N; j++ ) m( i, j ) = ( (int)( i * 3 + j * 2 ) % 5 == c % 5 ) + ( i == 2 && j == N - 1 ? c + 1 : 0 ); }
		if( !vc::next( "project %zu-vectors of %s by 3x%zu matrix %s", L, tn, N, sm( m ).c_str() ) ) continue;
		std::vector< um::Vector< T, 2 > > want; std::vector< um::Vector< T, L > > in;
		for( auto& p : ps )
		{
			std::vector< double > w = prod< 3, N >( m, homog< N >( p ) ); if( w[ 2 ] == 0 ) continue; um::Vector< T, 2 > g = ug::ProjectPoint()( m, p ), h = ug::ProjectPoint()( p, m ); want.push_back( g ); in.push_back( p ); vc::state(); vc::step();
			for( size_t i = 0; i < 2; i++ ) { VC_NEAR( (double)g( i ), w[ i ] / w[ 2 ], tol * ( 1 + std::fabs( w[ i ] / w[ 2 ] ) ), "project", "point %s entry %zu", sv( p ).c_str(), i ); VC_CHECK( h( i ) == g( i ), "swapped", "arguments in the other order, point %s", sv( p ).c_str() ); }
			// an overall factor on the matrix does not matter
			um::Matrix< T, 3, N > m2( m ); for( size_t i = 0; i < 3; i++ ) for( size_t j = 0; j < N; j++ ) m2( i, j ) *= (T)-4; um::Vector< T, 2 > s = ug::ProjectPoint()( m2, p ); VC_NEAR( (double)( s( 0 ) - g( 0 ) ), 0.0, tol * ( 1 + std::fabs( (double)g( 0 ) ) ), "factor", "point %s", sv( p ).c_str() );
		}
		for( size_t n : { (size_t)0, (size_t)1, (size_t)2, (size_t)5, in.size() } )
		{
			if( n > in.size() ) continue; std::vector< um::Vector< T, L > > a( in.begin(), in.begin() + n ); std::list< um::Vector< T, L > > li( a.begin(), a.end() ); std::vector< um::Vector< T, 2 > > o( n + 1, um::Vector< T, 2 >::zeros() ), b, bl; o[ n ]( 0 ) = 77;
			ug::project_points( m, a.begin(), a.end(), o.begin() ); ug::project_points( m, a.begin(), a.end(), std::back_inserter( b ) ); ug::project_points( m, li.begin(), li.end(), std::back_inserter( bl ) );
			VC_CHECK( b.size() == n && bl.size() == n && o[ n ]( 0 ) == 77, "range-length", "%zu points in, %zu and %zu out", n, b.size(), bl.size() );
			for( size_t i = 0; i < n && i < b.size() && i < bl.size(); i++ ) for( size_t j = 0; j < 2; j++ ) VC_CHECK( o[ i ]( j ) == want[ i ]( j ) && b[ i ]( j ) == want[ i ]( j ) && bl[ i ]( j ) == want[ i ]( j ), "range", "point %zu of %zu", i, n );
		}
		VC_OUT( "p %zu %zu %zu %s", N, L, k, tn );
	}
}
template< class T, size_t N > static void normalCase( const std::vector< um::Vector< T, N > >& p, int len, size_t s, double f, double tol )
{
				um::Vector< T, N > sh, sc, sh2, sc2; ug::estimateNormalizationParameters( p.begin(), p.end(), sh, sc ); vc::state(); vc::step();
				const um::Vector< T, N >* q0 = &p[ 0 ]; ug::estimateNormalizationParameters( q0, q0 + p.size(), sh2, sc2 );
				bool spread = true; double big = 0; for( auto& v : p ) for( size_t j = 0; j < N; j++ ) big = std::max( big, std::fabs( (double)v( j ) ) );
				for( size_t j = 0; j < N; j++ )
				{
					double mu = 0, va = 0; for( auto& v : p ) mu += v( j ); mu /= len; for( auto& v : p ) va += ( v( j ) - mu ) * ( v( j ) - mu ); va /= len;
					VC_NEAR( (double)sh( j ), mu, tol * ( 1 + big ), "centroid", "sequence %zu factor %g coordinate %zu", s, f, j ); VC_NEAR( (double)sc( j ) * sc( j ), va, 20 * tol * ( 1 + big * big ), "scale", "sequence %zu factor %g coordinate %zu", s, f, j );
					VC_CHECK( sc( j ) >= 0, "scale", "sequence %zu coordinate %zu: %g", s, j, (double)sc( j ) ); VC_CHECK( sh( j ) == sh2( j ) && sc( j ) == sc2( j ), "array", "a plain array gives another result" ); if( va < 1e-3 * big * big ) spread = false;
				}
				if( !spread ) return;
				um::Matrix< T, N + 1, N + 1 > m = ug::generateNormalizationMatrix( sh, sc, false ), mi = ug::generateNormalizationMatrix( sh, sc, true );
				VC_NEAR( maxDiff( mul( dense( m ), dense( mi ) ), eye( N + 1 ) ), 0.0, 100 * tol, "inverse", "sequence %zu", s ); VC_NEAR( maxDiff( mul( dense( mi ), dense( m ) ), eye( N + 1 ) ), 0.0, 100 * tol * ( 1 + big ), "inverse", "sequence %zu", s );
				std::vector< double > mean( N, 0.0 ), var( N, 0.0 ); 
				for( auto& v : p ) { std::vector< double > q = prod< N + 1, N + 1 >( m, homog< N + 1 >( v ) ), b( N + 1, 0.0 ); VC_NEAR( q[ N ], 1.0, 1e-12, "normalise", "weight" ); for( size_t j = 0; j < N; j++ ) { VC_NEAR( q[ j ], ( v( j ) - sh( j ) ) / sc( j ), 1000 * tol, "normalise", "sequence %zu", s ); mean[ j ] += q[ j ] / len; var[ j ] += q[ j ] * q[ j ] / len; } }
				for( size_t j = 0; j < N; j++ ) { VC_NEAR( mean[ j ], 0.0, 1000 * tol, "normalised-centroid", "sequence %zu", s ); VC_NEAR( var[ j ], 1.0, 1e5 * tol, "normalised-spread", "sequence %zu", s ); }
}
template< class T, size_t N > static void normal( const char* tn, double tol, int maxLen )
{
	auto al = points< T, N >( N == 2 ? std::vector< double >{ -1, 0.1, 3 } : std::vector< double >{ -1, 0.1 } ); size_t A = al.size();
	for( int len = 1; len <= maxLen; len++ )
	{
		size_t tot = 1; for( int i = 0; i < len; i++ ) tot *= A;
		for( size_t g = 0; g < tot; g += 200 )
		{
			if( !vc::next( "normalisation of %d %zu-vectors of %s, sequences %zu to %zu of %zu", len, N, tn, g, std::min( tot, g + 200 ) - 1, tot ) ) continue;
			for( size_t s = g; s < tot && s < g + 200; s++ ) for( double f : { 1.0, 1000.0 } )
			{
				std::vector< um::Vector< T, N > > p; size_t x = s; for( int i = 0; i < len; i++ ) { um::Vector< T, N > v = al[ x % A ]; x /= A; for( size_t j = 0; j < N; j++ ) v( j ) = (T)( v( j ) * f + ( f == 1 ? 0 : j * 500 ) ); p.push_back( v ); }
				normalCase< T, N >( p, len, s, f, tol );
			}
			VC_OUT( "n %zu %d %zu %s", N, len, g, tn );
		}
	}
}
template< class T, size_t N > static void functors( const char* tn, double tol )
{
	std::vector< double > al = N < 3 ? std::vector< double >{ -3, -1, 0, 0.5, 2 } : N == 3 ? std::vector< double >{ -1, 0, 2 } : std::vector< double >{ 0, 1 }; size_t tot = 1; for( size_t i = 0; i < N * N; i++ ) tot *= al.size();
	for( size_t g = 0; g < tot; g += 4096 )
	{
		if( !vc::next( "determinants and inverses of %zux%zu matrices of %s, %zu to %zu", N, N, tn, g, std::min( tot, g + 4096 ) - 1 ) ) continue;
		for( size_t s = g; s < tot && s < g + 4096; s++ )
		{
			um::Matrix< T, N, N > m; size_t x = s; for( size_t i = 0; i < N; i++ ) for( size_t j = 0; j < N; j++ ) { m( i, j ) = (T)al[ x % al.size() ]; x /= al.size(); }
			D in; double dt; bool ok = inv( dense( m ), in, &dt ); VC_NEAR( (double)um::Functors::matrix_determinant()( m ), dt, tol, "determinant", "matrix %zu", s ); vc::state();
			if( ok ) { um::Matrix< T, N, N > r = um::Functors::matrix_inverse()( m ); VC_NEAR( maxDiff( dense( r ), in ), 0.0, tol * ( 1 + maxAbs( in ) ), "inverse-functor", "matrix %zu", s ); }
		}
		VC_OUT( "f %zu %zu", N, g );
	}
}
static void body()
{
	transforms< double, 2, 3, 2 >( "double" ); transforms< double, 2, 3, 3 >( "double" ); transforms< double, 3, 3, 2 >( "double" ); transforms< double, 3, 3, 3 >( "double" ); transforms< double, 3, 4, 2 >( "double" ); transforms< double, 3, 4, 3 >( "double" ); transforms< double, 3, 4, 4 >( "double" ); transforms< double, 4, 4, 2 >( "double" ); transforms< double, 4, 4, 3 >( "double" ); transforms< double, 4, 4, 4 >( "double" );
	transforms< float, 2, 3, 2 >( "float" ); transforms< float, 3, 4, 3 >( "float" ); transforms< float, 4, 4, 4 >( "float" );
	inPlace< double, 2, 2 >( "double" ); inPlace< double, 3, 3 >( "double" ); inPlace< double, 4, 4 >( "double" );
	projections< double, 3, 2 >( "double", 1e-12 ); projections< double, 4, 2 >( "double", 1e-12 ); projections< double, 4, 3 >( "double", 1e-12 ); projections< double, 4, 4 >( "double", 1e-12 ); projections< float, 3, 2 >( "float", 1e-5 ); projections< float, 4, 3 >( "float", 1e-5 );
	for( size_t n : sizes( 1, 130, vc::pick( 4100, 66000 ) ) ) if( vc::next( "normalisation of %zu spread points", n ) ) { std::vector< um::Vector< double, 3 > > p; std::vector< um::Vector< float, 2 > > q; for( size_t i = 0; i < n; i++ ) { V3 x = spreadPoint( i ); p.push_back( u3( x ) ); q.push_back( um::Vector< float, 2 >( (float)x[ 0 ], (float)x[ 1 ] ) ); } normalCase< double, 3 >( p, (int)n, n, 1, 1e-12 ); normalCase< float, 2 >( q, (int)n, n, 1, 1e-4 ); VC_OUT( "n many %zu", n ); }
	normal< double, 2 >( "double", 1e-13, vc::pick( 4, 5 ) ); normal< double, 3 >( "double", 1e-13, vc::pick( 4, 5 ) ); normal< float, 2 >( "float", 2e-6, 3 );
	functors< double, 2 >( "double", 1e-12 ); functors< double, 3 >( "double", 1e-11 ); functors< double, 4 >( "double", 1e-10 ); functors< float, 2 >( "float", 1e-4 ); functors< float, 3 >( "float", 1e-4 );
}
VC_MAIN( body() )
