// N11: every random generator of the library with enumerated draws.
#include "rng.hpp"
#include "vc.hpp"
#include "ut.hpp"
#include <utMath/Random/Scalar.h>
#include <utMath/Random/Vector.h>
#include <utMath/Random/Matrix.h>
#include <utMath/Random/Rotation.h>
#include <utMath/Random/Pose.h>
#include <map>
namespace R = Ubitrack::Math::Random; namespace M = Ubitrack::Math;
static void levels( int n, bool ext, size_t cap ) { rng::P().cap = cap; rng::P().levels = n; rng::P().extremes = ext; rng::begin(); }
// all draws, calls f after each replay; limited to max runs
template< class F > static size_t allDraws( int n, bool ext, size_t cap, F f ) { levels( n, ext, cap ); size_t k = 0; do { rng::restart(); f(); k++; vc::state(); vc::step( rng::P().draws ); } while( rng::advance() ); return k; }

template< class T > static void realRange( T lo, T hi, const char* tn )
{
	if( !vc::next( "uniform %s in [%g,%g]", tn, (double)lo, (double)hi ) ) return;
	T mn = hi, mx = lo; double sum = 0; size_t n = allDraws( 64, true, 1, [ & ]() { T v = R::distribute_uniform< T >( lo, hi ); VC_CHECK( v >= lo && v <= hi, "range", "%.17g (%s)", (double)v, rng::str().c_str() ); mn = std::min( mn, v ); mx = std::max( mx, v ); sum += (double)v; } );
	double w = (double)hi - (double)lo; VC_CHECK( mn <= lo + w / 32 && mx >= hi - w / 32, "spread", "%g..%g", (double)mn, (double)mx ); VC_NEAR( sum / n, ( (double)lo + hi ) / 2, w * 0.03 + 1e-6 * std::fabs( (double)lo ), "mean", "mean" ); VC_OUT( "%s %g %g", tn, (double)lo, (double)hi );
}
template< class T > static void intRange( T lo, T hi, const char* tn )
{
	if( !vc::next( "uniform %s in [%lld,%lld]", tn, (long long)lo, (long long)hi ) ) return;
	unsigned long long w = (unsigned long long)hi - (unsigned long long)lo + 1; std::map< T, int > cnt; size_t n = allDraws( 240, true, 1, [ & ]() { T v = R::distribute_uniform< T >( lo, hi ); VC_CHECK( v >= lo && v <= hi, "range", "%lld (%s)", (long long)v, rng::str().c_str() ); cnt[ v ]++; } );
	if( w <= 12 ) { VC_CHECK( cnt.size() == w, "reached", "%zu of %llu", cnt.size(), w ); for( auto& c : cnt ) VC_CHECK( std::fabs( c.second - (double)n / w ) <= 0.15 * n / w + 2, "balanced", "%lld drawn %d of %zu times", (long long)c.first, c.second, n ); }
	else { VC_CHECK( (double)( (unsigned long long)cnt.begin()->first - (unsigned long long)lo ) <= w / 40.0 && (double)( (unsigned long long)hi - (unsigned long long)cnt.rbegin()->first ) <= w / 40.0, "spread", "%lld..%lld", (long long)cnt.begin()->first, (long long)cnt.rbegin()->first ); }
	VC_OUT( "%s %lld %lld", tn, (long long)lo, (long long)hi );
}
template< class T > static void normalScalar( const char* tn )
{
	const double mus[] = { 0, -3.5, 1000, 1e-3 }, sg[] = { 1, 0.25, 2, 0, 100 };
	for( double mu : mus ) for( double s : sg ) if( vc::next( "normal %s mean %g deviation %g", tn, mu, s ) )
	{
		double sum = 0, q = 0; size_t n = allDraws( 256, false, 2, [ & ]() { rng::restart(); T z = R::distribute_normal< T >( 0, 1 ); rng::restart(); T v = R::distribute_normal< T >( (T)mu, (T)s ); VC_NEAR( (double)v, mu + s * z, ( std::fabs( mu ) + s ) * ( sizeof( T ) == 4 ? 1e-5 : 1e-12 ), "normal", "draw %s", rng::str().c_str() ); sum += z; q += (double)z * z; } );
		VC_CHECK( n >= 256 && q > 0 && sum == sum, "normal-spread", "%g", q ); VC_OUT( "%g %g", mu, s );
	}
}
template< class T, std::size_t N > static void vectors( const char* tn )
{
	double tol = sizeof( T ) == 4 ? 1e-5 : 1e-12; int lv = N < 3 ? 16 : N < 4 ? 9 : 5;
	for( int sw = 0; sw < 2; sw++ ) for( int k = 0; k < 3; k++ ) if( vc::next( "uniform vectors of %zu %s, limits %d%s", N, tn, k, sw ? " swapped" : "" ) )
	{	// one pair of limits, or one per component (the last one may be a single value)
		T lo = k == 0 ? (T)-2 : (T)0.5, hi = k == 0 ? (T)3 : (T)0.75; M::Vector< T, N > a, b; for( size_t i = 0; i < N; i++ ) { a( i ) = k == 2 ? (T)( i * 10 ) : lo; b( i ) = k == 2 ? (T)( i * 10 + ( i + 1 == N ? 0 : 1 + i ) ) : hi; }
		if( k == 2 && sw ) continue; M::Vector< T, N > mn = b, mx = a; auto see = [ & ]( const M::Vector< T, N >& v ) { for( size_t i = 0; i < N; i++ ) { VC_CHECK( v( i ) >= a( i ) && v( i ) <= b( i ), "vector-range", "component %zu: %g", i, (double)v( i ) ); mn( i ) = std::min( mn( i ), v( i ) ); mx( i ) = std::max( mx( i ), v( i ) ); } };
		typename R::Vector< T, N >::Uniform one( sw ? hi : lo, sw ? lo : hi ), each( a, b ); const bool free = k < 2 && !sw;
		std::set< std::string > seen; allDraws( lv, false, N, [ & ]() { M::Vector< T, N > v = k == 2 ? each() : one(); see( v ); seen.insert( vc::fmt( "%.9g %.9g", (double)v( 0 ), (double)v( N - 1 ) ) ); if( k < 2 ) { rng::restart(); see( each() ); } if( free ) { rng::restart(); see( R::distribute_uniform< T, N >( lo, hi ) ); } } );
		for( size_t i = 0; i < N; i++ ) { double w = (double)b( i ) - a( i ); VC_CHECK( mn( i ) <= a( i ) + 0.6 * w / lv && mx( i ) >= b( i ) - 0.6 * w / lv, "vector-spread", "component %zu", i ); } VC_CHECK( seen.size() >= (size_t)( k == 2 ? lv : lv * lv ), "independent", "%zu different pairs", seen.size() );
		VC_OUT( "%zu %d", N, k );
	}
	for( int k = 0; k < 3; k++ ) if( vc::next( "normal vectors of %zu %s, form %d", N, tn, k ) )
	{	// one mean and deviation, one per component, or a covariance given by a triangular factor
		M::Vector< T, N > mu, sg; M::Matrix< T, N, N > L = boost::numeric::ublas::zero_matrix< T >( N, N ); for( size_t i = 0; i < N; i++ ) { mu( i ) = k == 0 ? (T)1.5 : (T)( 3.0 * i - 1 ); sg( i ) = k == 0 ? (T)0.5 : (T)( 0.25 * ( i + 1 ) ); for( size_t j = 0; j <= i; j++ ) L( i, j ) = i == j ? (T)( i + 1 ) : (T)( 0.5 * ( (int)( i + j ) % 3 - 1 ) ); }
		M::Matrix< T, N, N > cov = boost::numeric::ublas::prod( L, boost::numeric::ublas::trans( L ) ); typename R::Vector< T, N >::Normal nk = k == 0 ? typename R::Vector< T, N >::Normal( (T)1.5, (T)0.5 ) : k == 1 ? typename R::Vector< T, N >::Normal( mu, sg ) : typename R::Vector< T, N >::Normal( mu, cov );
		std::vector< double > zs, vs; double c1[ N ][ N ], c2[ N ][ N ]; memset( c1, 0, sizeof c1 ); memset( c2, 0, sizeof c2 );
		levels( N < 3 ? vc::pick( 7, 13 ) : N < 4 ? vc::pick( 5, 7 ) : vc::pick( 3, 5 ), false, 2 * N ); long budget = 400000; size_t n = 0;
		do
		{
			rng::restart(); T z[ N ]; for( size_t i = 0; i < N; i++ ) z[ i ] = R::distribute_normal< T >( 0, 1 ); rng::restart(); M::Vector< T, N > v = nk(); n++; vc::state(); vc::step( rng::P().draws );
			if( k < 2 ) for( size_t i = 0; i < N; i++ ) VC_NEAR( (double)v( i ), mu( i ) + (double)sg( i ) * z[ i ], tol * 20, "normal-vector", "component %zu, draws %s", i, rng::str().c_str() );
			else { for( size_t i = 0; i < N; i++ ) { zs.push_back( z[ i ] ); vs.push_back( (double)v( i ) - mu( i ) ); } for( size_t i = 0; i < N; i++ ) for( size_t j = 0; j < N; j++ ) { c1[ i ][ j ] += vs[ vs.size() - N + i ] * z[ j ]; c2[ i ][ j ] += (double)z[ i ] * z[ j ]; } }
		} while( rng::advance() && --budget > 0 );
		if( k == 2 )
		{	// the draws are a linear image F of standard draws (F found by elimination), and F F^T is the covariance
			double A[ N ][ 2 * N ], F[ N ][ N ]; for( size_t i = 0; i < N; i++ ) for( size_t j = 0; j < N; j++ ) { A[ i ][ j ] = c2[ i ][ j ]; A[ i ][ N + j ] = c1[ j ][ i ]; }
			for( size_t i = 0; i < N; i++ ) { size_t p = i; for( size_t r = i; r < N; r++ ) if( std::fabs( A[ r ][ i ] ) > std::fabs( A[ p ][ i ] ) ) p = r; for( size_t c = 0; c < 2 * N; c++ ) std::swap( A[ i ][ c ], A[ p ][ c ] ); double d = A[ i ][ i ]; for( size_t c = 0; c < 2 * N; c++ ) A[ i ][ c ] /= d; for( size_t r = 0; r < N; r++ ) if( r != i ) { double f = A[ r ][ i ]; for( size_t c = 0; c < 2 * N; c++ ) A[ r ][ c ] -= f * A[ i ][ c ]; } }
			for( size_t i = 0; i < N; i++ ) for( size_t j = 0; j < N; j++ ) F[ j ][ i ] = A[ i ][ N + j ];
			double rel = sizeof( T ) == 4 ? 1e-3 : 1e-7; for( size_t m = 0; m < n; m++ ) for( size_t i = 0; i < N; i++ ) { double w = 0; for( size_t j = 0; j < N; j++ ) w += F[ i ][ j ] * zs[ m * N + j ]; VC_NEAR( vs[ m * N + i ], w, rel * 20, "linear", "sample %zu component %zu", m, i ); }
			for( size_t i = 0; i < N; i++ ) for( size_t j = 0; j < N; j++ ) { double w = 0; for( size_t l = 0; l < N; l++ ) w += F[ i ][ l ] * F[ j ][ l ]; VC_NEAR( w, (double)cov( i, j ), rel * 20, "covariance", "entry %zu,%zu", i, j ); }
		}
		VC_OUT( "%zu normal %d", N, k );
	}
}
// singular covariances: no spread in the missing directions
template< class T > static void singular( const char* tn )
{
	for( int k = 0; k < 4; k++ ) if( vc::next( "normal vectors of three %s, singular covariance %d", tn, k ) )
	{
		M::Vector< T, 3 > mu; mu( 0 ) = 1; mu( 1 ) = 2; mu( 2 ) = 3; M::Vector< T, 3 > d; d( 0 ) = k == 0 ? 0 : 1; d( 1 ) = k == 1 ? 0 : 2; d( 2 ) = k == 3 ? 0 : -1; M::Matrix< T, 3, 3 > c = boost::numeric::ublas::outer_prod( d, d ); if( k == 3 ) c = boost::numeric::ublas::zero_matrix< T >( 3, 3 );
		typename R::Vector< T, 3 >::Normal g( mu, c ); bool moved = false; levels( 6, false, 6 ); long budget = 5000;
		do { rng::restart(); M::Vector< T, 3 > v = g(); vc::state(); vc::step(); double x[ 3 ], dd = 0, xd = 0, xx = 0; for( int i = 0; i < 3; i++ ) { x[ i ] = (double)v( i ) - mu( i ); dd += (double)d( i ) * d( i ); xd += x[ i ] * d( i ); xx += x[ i ] * x[ i ]; } if( k == 3 ) VC_CHECK( xx == 0, "singular", "%g", xx ); else { VC_CHECK( std::fabs( xx - xd * xd / dd ) <= 1e-5 * ( 1 + xx ), "singular", "%g %g %g", x[ 0 ], x[ 1 ], x[ 2 ] ); moved = moved || xx > 0.01; } } while( rng::advance() && --budget > 0 );
		VC_CHECK( k == 3 || moved, "singular-spread", "%s", "never moves" ); VC_OUT( "singular %d", k );
	}
}
template< class T, std::size_t A, std::size_t B > static void matrices( const char* tn )
{
	for( int sw = 0; sw < 2; sw++ ) if( vc::next( "uniform %zux%zu %s matrices%s", A, B, tn, sw ? ", limits swapped" : "" ) )
	{
		typename R::Matrix< T, A, B >::Uniform g( sw ? (T)5 : (T)-1, sw ? (T)-1 : (T)5 ); std::set< std::string > seen[ A * B ]; long budget = 20000; levels( A * B <= 4 ? 8 : 3, false, A * B );
		do { rng::restart(); M::Matrix< T, A, B > m = g(); vc::state(); vc::step( rng::P().draws ); for( size_t i = 0; i < A; i++ ) for( size_t j = 0; j < B; j++ ) { VC_CHECK( m( i, j ) >= -1 && m( i, j ) <= 5, "matrix-range", "%g", (double)m( i, j ) ); seen[ i * B + j ].insert( vc::fmt( "%.9g", (double)m( i, j ) ) ); } } while( rng::advance() && --budget > 0 );
		if( budget > 0 ) for( auto& s : seen ) VC_CHECK( (int)s.size() >= rng::P().levels, "matrix-spread", "%zu values", s.size() ); VC_OUT( "%zu %zu", A, B );
	}
}
// all draws together must be spread evenly over the rotations: second and fourth moments of the quaternion, mean of the matrix
template< class T > static void rotations( const char* tn )
{
	for( int lv : { 4, 8, 12, vc::pick( 20, 40 ) } ) if( vc::next( "random quaternions, %s, %d levels", tn, lv ) )
	{
		double m2[ 4 ][ 4 ] = {}, m4[ 4 ][ 4 ] = {}; std::set< std::string > signs; typename R::Quaternion< T >::Uniform g;
		size_t n = allDraws( lv, false, 3, [ & ]() { M::Quaternion q = g(); double c[ 4 ] = { q.x(), q.y(), q.z(), q.w() }, s = 0; for( double x : c ) s += x * x; VC_NEAR( s, 1, sizeof( T ) == 4 ? 1e-5 : 1e-12, "unit", "draw %s", rng::str().c_str() ); for( int i = 0; i < 4; i++ ) for( int j = 0; j < 4; j++ ) { m2[ i ][ j ] += c[ i ] * c[ j ]; m4[ i ][ j ] += c[ i ] * c[ i ] * c[ j ] * c[ j ]; } signs.insert( vc::fmt( "%d%d%d%d", c[ 0 ] > 0, c[ 1 ] > 0, c[ 2 ] > 0, c[ 3 ] > 0 ) ); } );
		VC_CHECK( n >= (size_t)lv * lv * lv, "draws", "%zu", n ); for( int i = 0; i < 4; i++ ) for( int j = 0; j < 4; j++ ) { VC_NEAR( m2[ i ][ j ] / n, i == j ? 0.25 : 0, 0.01, "uniform-rotation", "moment %d,%d of %zu", i, j, n ); VC_NEAR( m4[ i ][ j ] / n, i == j ? 0.125 : 1.0 / 24, 1.0 / lv / lv, "uniform-rotation", "fourth moment %d,%d", i, j ); }
		VC_CHECK( signs.size() == 16, "octants", "%zu", signs.size() ); VC_OUT( "%d", lv );
	}
	if( vc::next( "random quaternions, %s, extreme draws", tn ) ) { typename R::Quaternion< T >::Uniform g; allDraws( 3, true, 4, [ & ]() { M::Quaternion q = g(); double s = q.x() * q.x() + q.y() * q.y() + q.z() * q.z() + q.w() * q.w(); VC_NEAR( s, 1, sizeof( T ) == 4 ? 1e-5 : 1e-12, "unit", "draw %s", rng::str().c_str() ); } ); VC_OUT( "%s", tn ); }
}
template< class T > static void poses( const char* tn )
{
	for( int k = 0; k < 3; k++ ) if( vc::next( "random poses, %s, limits %d", tn, k ) )
	{
		M::Vector< T, 3 > a, b; for( int i = 0; i < 3; i++ ) { a( i ) = k < 2 ? (T)-100 : (T)( i * 5 ); b( i ) = k < 2 ? (T)100 : (T)( i * 5 + 2 - i ); } typename R::Pose< T >::Uniform one( k == 1 ? (T)100 : (T)-100, k == 1 ? (T)-100 : (T)100 ), each( a, b ); std::set< std::string > t, q;
		levels( 3, k == 0, 7 ); long budget = vc::pick( 3000, 60000 ); do { rng::restart(); M::Pose p = k < 2 ? one() : each(); vc::state(); vc::step( rng::P().draws ); double s = 0; for( int i = 0; i < 3; i++ ) VC_CHECK( p.translation()( i ) >= a( i ) && p.translation()( i ) <= b( i ), "pose-range", "%d: %g", i, p.translation()( i ) ); const M::Quaternion& r = p.rotation(); s = r.x() * r.x() + r.y() * r.y() + r.z() * r.z() + r.w() * r.w(); VC_NEAR( s, 1, 1e-5, "unit", "pose %s", rng::str().c_str() ); t.insert( vc::fmt( "%g %g %g", p.translation()( 0 ), p.translation()( 1 ), p.translation()( 2 ) ) ); q.insert( vc::fmt( "%.6g %.6g %.6g %.6g", r.x(), r.y(), r.z(), r.w() ) ); } while( rng::advance() && --budget > 0 );
		VC_CHECK( t.size() >= ( k == 2 ? 9u : 3u ) && q.size() >= 9, "pose-spread", "%zu positions, %zu rotations", t.size(), q.size() ); VC_OUT( "%d", k );
	}
}
static void body()
{
	const double v[] = { -1000, -1, -0.5, 0, 1e-3, 0.5, 1, 7, 1e6 }; for( double a : v ) for( double b : v ) if( a <= b ) { realRange< double >( a, b, "double" ); realRange< float >( (float)a, (float)b, "float" ); }
	for( int a : { -1000, -7, -1, 0, 1, 5 } ) for( int w : { 0, 1, 2, 3, 4, 5, 7, 10, 99, 100000, 2000000000 } ) { intRange< int >( a, a + w, "int" ); if( a >= 0 ) { intRange< unsigned >( a, a + w, "unsigned" ); intRange< std::size_t >( a, a + w, "size_t" ); } if( w < 20000 ) intRange< short >( a, a + w, "short" ); }
	normalScalar< double >( "double" ); normalScalar< float >( "float" );
	vectors< double, 2 >( "double" ); vectors< double, 3 >( "double" ); vectors< double, 4 >( "double" ); vectors< float, 2 >( "float" ); vectors< float, 3 >( "float" );
	singular< double >( "double" ); singular< float >( "float" );
	matrices< double, 2, 2 >( "double" ); matrices< double, 3, 3 >( "double" ); matrices< float, 2, 3 >( "float" ); matrices< double, 1, 4 >( "double" );
	rotations< double >( "double" ); rotations< float >( "float" ); poses< double >( "double" ); poses< float >( "float" );
}
VC_MAIN( body() )
