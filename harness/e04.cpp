// E04: absolute orientation recovers the exact rigid or similarity transform.
#include "rng.hpp"
#include "ut.hpp"
#include <algorithm>
#include <list>
#include <utAlgorithm/PoseEstimation3D3D/AbsoluteOrientation.h>
#include <utAlgorithm/PoseEstimation3D3D/Scale.h>
#include <utAlgorithm/PoseEstimation3D3D/Rotation3D.h>
#include <utAlgorithm/PoseEstimation3D3D/Pose6D.h>
#include <utAlgorithm/PoseEstimation3D3D/Ransac.h>
#include <utAlgorithm/PoseEstimation3D3D/Optimization.h>
#include <utAlgorithm/PoseEstimation3D3D/ErrorEstimation.h>
#include <utAlgorithm/PoseEstimation3D3D/CovarianceEstimation.h>
using namespace ut;
namespace um = Ubitrack::Math; namespace pe = Ubitrack::Algorithm::PoseEstimation3D3D;
typedef std::vector< um::Vector< double, 3 > > VD; typedef std::vector< um::Vector< float, 3 > > VF;
static int g_n = 3, g_call = 0; static unsigned g_lcg = 1;
// the first shuffle is an enumerated choice, later ones follow a fixed sequence
extern "C" int rand() noexcept { int c = g_call++; if( c < g_n - 1 ) return rng::choose( c + 2 ); g_lcg = g_lcg * 1664525u + 1013904223u; return (int)( g_lcg >> 8 & 0x7fffff ); }
struct Set { std::vector< V3 > p; const char* name; };
static std::vector< Set > sets()
{
	return { { { v3( 0, 0, 0 ), v3( 1, 0, 0 ), v3( 0, 1, 0 ) }, "minimal" }, { { v3( 1, 0, 0 ), v3( 0, 1, 0 ), v3( 0, 0, 1 ) }, "unit triangle" }, { { v3( 1, 0, 0 ), v3( -1, 0, 0 ), v3( 0, 2, 0 ), v3( 0, -2, 0 ) }, "planar cross" }, { { v3( 0, 0, 0 ), v3( 1, 0, 0 ), v3( 1, 1, 0 ), v3( 0, 1, 0 ) }, "square" }, { { v3( 1, 1, 1 ), v3( -1, -1, 1 ), v3( -1, 1, -1 ), v3( 1, -1, -1 ) }, "tetrahedron" },
		{ { v3( 0.2, 0.1, 0.9 ), v3( -0.9, 0.3, -0.4 ), v3( 0.7, -0.8, 0.1 ), v3( 0.5, 0.9, -0.7 ), v3( -0.6, -0.5, 0.6 ) }, "general" }, { { v3( 0, 0, 0 ), v3( 1, 2, 3 ), v3( 2, 4, 6 ), v3( 3, 6, 9 ), v3( 1, 0, 0 ) }, "four collinear and one" }, { { v3( 10, 0, 0 ), v3( 10, 0.1, 0 ), v3( 10, 0, 0.1 ), v3( 10.1, 0, 0 ) }, "far cluster" }, { { v3( 0, 0, 0 ), v3( 0, 0, 0 ), v3( 3, 0, 0 ), v3( 0, 0, 5 ), v3( 0, 0, 5 ) }, "repeated points" } };
}
static VF toF( const VD& v ) { VF r; for( auto& x : v ) r.push_back( um::Vector< float, 3 >( (float)x( 0 ), (float)x( 1 ), (float)x( 2 ) ) ); return r; }
static double sqErr( const VD& a, const M3& R, const V3& t, const VD& b ) { double s = 0; for( size_t i = 0; i < a.size(); i++ ) { double d = dist( fromU( a[ i ] ), add( mul( R, fromU( b[ i ] ) ), t ) ); s += d * d; } return s; }
static double sqErr( const VD& a, const Pose& p, const VD& b ) { return sqErr( a, matOf( p.rotation() ), fromU( p.translation() ), b ); }
// the smallest error any rotation of a neighbourhood achieves, translation free
static double bestT( const VD& a, const M3& R, const VD& b ) { V3 ca = v3( 0, 0, 0 ), cb = ca; for( auto& x : a ) ca = add( ca, mulS( fromU( x ), 1. / a.size() ) ); for( auto& x : b ) cb = add( cb, mulS( fromU( x ), 1. / b.size() ) ); return sqErr( a, R, sub( ca, mul( R, cb ) ), b ); }
static void exact( const Set& s, const Rot& q, const V3& t, size_t run )
{
	double sizes[] = { 1, 1000, 0.01 }; double f = sizes[ run % 3 ], l = 0; for( auto& x : s.p ) for( auto& y : s.p ) l = std::max( l, dist( x, y ) ); l *= f; double mag = norm( t ) + 20 * f;
	std::vector< int > o( s.p.size() ); for( size_t i = 0; i < o.size(); i++ ) o[ i ] = i; int cnt = 0;
	do
	{
		if( cnt++ % ( o.size() > 4 ? 13 : 3 ) && !vc::thorough() ) continue; VD b, a; for( int i : o ) { V3 x = mulS( s.p[ i ], f ); b.push_back( u3( x ) ); a.push_back( u3( add( mul( q.R, x ), t ) ) ); } const VD a0 = a, b0 = b; double tol = 1e-9 * ( 1 + mag / l );
		Pose p, p2; VC_CHECK( pe::estimatePose6D_3D3D( a, p, b ), "refused", "%s", s.name ); vc::state(); vc::step(); VC_CHECK( maxDiff( matOf( p.rotation() ), q.R ) < tol && dist( fromU( p.translation() ), t ) < tol * mag, "pose", "%s x %g order %d: off by %g and %g", s.name, f, cnt, maxDiff( matOf( p.rotation() ), q.R ), dist( fromU( p.translation() ), t ) ); VC_NEAR( qnorm( p.rotation() ), 1.0, 1e-9, "unit", "%s", s.name );
		p2 = pe::calculateAbsoluteOrientation( b, a ); VC_CHECK( maxDiff( matOf( p2.rotation() ), q.R ) < tol && dist( fromU( p2.translation() ), t ) < tol * mag, "pose-old", "%s x %g order %d", s.name, f, cnt );
		{ Pose p4; pe::EstimateAbsoluteOrientation< double >()( p4, b, a ); VC_CHECK( maxDiff( matOf( p4.rotation() ), q.R ) < tol && dist( fromU( p4.translation() ), t ) < tol * mag, "pose-functor", "%s x %g order %d", s.name, f, cnt ); }
		std::list< um::Vector< double, 3 > > la( a.begin(), a.end() ), lb( b.begin(), b.end() ); Pose p3; VC_CHECK( pe::estimatePose6D_3D3D( a.begin(), a.end(), p3, b.begin(), b.end() ) && maxDiff( matOf( p3.rotation() ), q.R ) < tol && dist( fromU( p3.translation() ), t ) < tol * mag, "pose-iterators", "%s", s.name );
		um::Matrix< double, 3, 3 > R; Q qq; VC_CHECK( pe::estimateRotation_3D3D( a, R, b ) && maxDiff( m3( R ), q.R ) < tol, "rotation-matrix", "%s x %g", s.name, f ); VC_CHECK( pe::estimateRotation_3D3D( a, qq, b ) && maxDiff( matOf( qq ), q.R ) < tol, "rotation-quaternion", "%s x %g", s.name, f );
		for( double sc : { 1.0, 0.25, 7.5, 1e-3 } ) { VD as = a; for( auto& x : as ) x = u3( add( mulS( sub( fromU( x ), t ), sc ), t ) ); VC_NEAR( pe::estimateScale_3D3D( as, b ) / sc, 1.0, 1e-8 * ( 1 + mag * mag / l / l / sc ), "scale", "%s scaled %g", s.name, sc ); double st = 1e-9 * ( 1 + mag / l / sc ); VC_CHECK( pe::estimateRotation_3D3D( as, qq, b ) && maxDiff( matOf( qq ), q.R ) < st * 10, "rotation-scaled", "%s scaled %g", s.name, sc ); vc::step( 2 ); }
		double r = pe::estimatePose6DResidual< double >( a.begin(), a.end(), p, b.begin(), b.end() ); VC_CHECK( r >= 0 && r < tol * mag, "residual", "%s: %g", s.name, r ); um::Matrix< double, 6, 6 > cov; pe::estimatePose6DCovariance( a.begin(), a.end(), p, b.begin(), b.end(), cov ); for( int i = 0; i < 6; i++ ) for( int j = 0; j < 6; j++ ) VC_CHECK( std::fabs( cov( i, j ) ) < 1e-5 * ( 1 + mag / l ) * ( 1 + mag / l ) * ( 1 + mag ), "covariance-exact", "%s: %g at %d,%d", s.name, cov( i, j ), i, j );
		pe::EvaluateAbsoluteOrientation< double > ev; for( size_t i = 0; i < a.size(); i++ ) { VC_CHECK( ev( p, b[ i ], a[ i ] ) < tol * mag, "evaluate", "%s point %zu", s.name, i ); um::Vector< double, 3 > w = a[ i ] + um::Vector< double, 3 >( 3, -4, 12 ); VC_NEAR( ev( p, b[ i ], w ), 13.0, tol * mag + 1e-9, "evaluate-distance", "%s point %zu", s.name, i ); }
		// refining the exact pose leaves it alone
		Pose pr = p; VC_CHECK( pe::estimatePose6D_3D3D( a, pr, b, um::Optimization::OptTerminate( 20, 1e-9 ) ) && maxDiff( matOf( pr.rotation() ), q.R ) < 10 * tol && dist( fromU( pr.translation() ), t ) < 10 * tol * mag, "refine-exact", "%s x %g: off by %g", s.name, f, poseDist( pr, q.R, t ) );
		if( l / mag > 0.05 ) { Pose pf; VF af = toF( a ), bf = toF( b ); VC_CHECK( pe::estimatePose6D_3D3D( af, pf, bf ) && maxDiff( matOf( pf.rotation() ), q.R ) < 2e-3 && dist( fromU( pf.translation() ), t ) < 2e-3 * mag, "pose-float", "%s x %g: off by %g", s.name, f, poseDist( pf, q.R, t ) ); um::Matrix< float, 3, 3 > Rf; VC_CHECK( pe::estimateRotation_3D3D( af, Rf, bf ) && maxDiff( m3( Rf ), q.R ) < 2e-3, "rotation-float", "%s", s.name ); VC_CHECK( pe::estimateRotation_3D3D( af, qq, bf ) && maxDiff( matOf( qq ), q.R ) < 2e-3, "rotation-float-quaternion", "%s", s.name ); VC_NEAR( pe::estimateScale_3D3D( af, bf ), 1.0, 2e-3, "scale-float", "%s", s.name ); }
		for( size_t i = 0; i < a.size(); i++ ) for( int k = 0; k < 3; k++ ) VC_CHECK( a[ i ]( k ) == a0[ i ]( k ) && b[ i ]( k ) == b0[ i ]( k ), "input", "changed" );
	} while( o.size() <= 6 && std::next_permutation( o.begin(), o.end() ) );
}
// disturbed and mirrored data: the estimate is a proper rotation and no other does better
static void disturbed( const Set& s, const Rot& q, const V3& t, const std::vector< Rot >& rl )
{
	for( int v = 0; v < 5; v++ )
	{
		VD a, b; for( size_t i = 0; i < s.p.size(); i++ ) { V3 x = s.p[ i ]; b.push_back( u3( x ) ); V3 y = x; if( v == 4 ) y[ 2 ] = -y[ 2 ]; y = add( mul( q.R, y ), t ); if( v < 3 ) y[ v ] += ( i % 2 ? -0.1 : 0.07 ) * ( 1 + i % 5 ); if( v == 3 && i == 0 ) y = add( y, v3( 0.6, -0.5, 0.4 ) ); a.push_back( u3( y ) ); }
		Pose p; VC_CHECK( pe::estimatePose6D_3D3D( a, p, b ), "refused-noisy", "%s variant %d", s.name, v ); vc::state(); vc::step(); M3 R = matOf( p.rotation() ); VC_NEAR( qnorm( p.rotation() ), 1.0, 1e-9, "unit-noisy", "%s", s.name ); double e = sqErr( a, p, b ), eb = bestT( a, R, b ); VC_NEAR( e, eb, 1e-9 * ( 1 + e ), "translation-optimal", "%s variant %d", s.name, v );
		for( auto& r : rl ) { double w = bestT( a, r.R, b ); VC_CHECK( w >= e - 1e-9, "optimal", "%s variant %d: error %g, rotation %s gives %g", s.name, v, e, str( r ).c_str(), w ); } for( int k = 0; k < 3; k++ ) for( double h : { -0.2, -0.01, 0.01, 0.2 } ) VC_CHECK( bestT( a, mul( R, axisRot( k, h ) ), b ) >= e - 1e-9, "optimal-near", "%s variant %d", s.name, v );
		double sum = 0; for( size_t i = 0; i < a.size(); i++ ) sum += dist( fromU( a[ i ] ), add( mul( R, fromU( b[ i ] ) ), fromU( p.translation() ) ) ); double res = pe::estimatePose6DResidual< double >( a.begin(), a.end(), p, b.begin(), b.end() ); VC_CHECK( ( sum > 1e-9 ) == ( res > 1e-10 ) && std::isfinite( res ), "residual-noisy", "%s variant %d: %g for a total deviation of %g", s.name, v, res, sum );
		um::Matrix< double, 6, 6 > cov; pe::estimatePose6DCovariance( a.begin(), a.end(), p, b.begin(), b.end(), cov ); D c( 6, 6 ); for( int i = 0; i < 6; i++ ) for( int j = 0; j < 6; j++ ) { c( i, j ) = cov( i, j ); VC_NEAR( cov( i, j ), cov( j, i ), 1e-8 * ( 1 + std::fabs( cov( i, j ) ) ), "covariance-symmetric", "%s", s.name ); } for( double ev : eigSym( c ) ) VC_CHECK( ev > -1e-8, "covariance-psd", "%s variant %d: eigenvalue %g", s.name, v, ev );
		// refinement from several starts never makes it worse; from the estimate it stays
		for( int k = 0; k < 3; k++ ) for( double h : { 0.0, 0.3, -0.5 } ) { M3 S = mul( R, axisRot( k, h ) ); V3 ts = add( fromU( p.translation() ), v3( h, -h / 2, h / 3 ) ); Pose w( Q( um3( S ) ), u3( ts ) ); double e0 = sqErr( a, w, b ); VC_CHECK( pe::estimatePose6D_3D3D( a, w, b, um::Optimization::OptTerminate( 100, 1e-9 ) ), "refine-refused", "" ); double e1 = sqErr( a, w, b ); vc::step(); VC_CHECK( e1 <= e0 + 1e-9, "refine-worse", "%s variant %d start %g: %g -> %g", s.name, v, h, e0, e1 ); VC_NEAR( qnorm( w.rotation() ), 1.0, 1e-9, "refine-unit", "" ); if( v < 3 ) VC_CHECK( e1 <= e * 1.001 + 1e-6, "refine-converges", "%s variant %d start axis %d %g: %g, best %g", s.name, v, k, h, e1, e ); }
	}
}
static void robust( const Rot& q, const V3& t )
{
	std::vector< V3 > p = { v3( 0.2, 0.1, 0.9 ), v3( -0.9, 0.3, -0.4 ), v3( 0.7, -0.8, 0.1 ), v3( 0.5, 0.9, -0.7 ), v3( -0.6, -0.5, 0.6 ), v3( 1.2, 0.4, 0.3 ) };
	for( int n = 5; n <= 6; n++ ) for( int m = 0; m < 1 << n; m++ )
	{
		int k = __builtin_popcount( m ); if( k < 1 || k > n - 4 + 0 ) continue; VD a, b; for( int i = 0; i < n; i++ ) { b.push_back( u3( p[ i ] ) ); V3 y = add( mul( q.R, p[ i ] ), t ); if( m >> i & 1 ) y = add( y, v3( 1.5 + i, -2 - 0.3 * i * i, 0.8 * i ) ); a.push_back( u3( y ) ); }
		g_n = n; rng::begin(); int ok = 0, all = 0;
		do
		{
			for( size_t runs : { 1, 300 } )
			{
				rng::restart(); g_call = 0; g_lcg = 12345; Pose r( Q( 0, 0, 0, 1 ), u3( v3( 77, 77, 77 ) ) ); bool f = pe::estimatePose6D_3D3D( a, r, b, um::Optimization::RansacParameter< double >( 1e-3, (size_t)3, (size_t)( n - k ), (size_t)runs ) ); vc::state(); vc::step(); if( runs == 1 ) { all++; ok += f; } else VC_CHECK( f, "robust-fails", "%d points, outliers %x, draws %s", n, m, rng::str().c_str() ); if( f ) VC_CHECK( poseDist( r, q.R, t ) < 1e-8, "robust", "%d points, outliers %x, %zu runs, draws %s: off by %g", n, m, runs, rng::str().c_str(), poseDist( r, q.R, t ) );
				if( runs == 1 ) { rng::restart(); g_call = 0; Pose rf; VF af = toF( a ), bf = toF( b ); if( pe::estimatePose6D_3D3D( af, rf, bf, um::Optimization::RansacParameter< float >( 1e-2f, (size_t)3, (size_t)( n - k ), (size_t)1 ) ) ) VC_CHECK( poseDist( rf, q.R, t ) < 1e-3 * ( 1 + norm( t ) ), "robust-float", "off by %g", poseDist( rf, q.R, t ) ); }
			}
		} while( rng::advance() );
		// a sample of three is free of outliers in C(n-k,3) of C(n,3) shuffles
		auto c3 = []( int x ) { return x * ( x - 1 ) * ( x - 2 ) / 6; }; VC_CHECK( ok >= 1 && ok * c3( n ) >= all * c3( n - k ), "robust-rate", "%d points, outliers %x: %d of %d shuffles succeed", n, m, ok, all ); if( vc::thorough() == false && n == 6 && m > 12 ) break;
	}
}
static void body()
{
	auto rl = rotLattice( vc::pick( 0, 1 ) ); auto r1 = rotLattice( 1 ); auto ss = sets(); size_t run = 0; std::vector< V3 > ts = { v3( 0, 0, 0 ), v3( 1, -2, 3 ), v3( 100, 50, -200 ) };
	for( auto& s : ss ) for( auto& q : r1 ) { run++; if( !vc::next( "set %s turned %s", s.name, str( q ).c_str() ) ) continue; for( size_t i = 0; i < ts.size(); i++ ) exact( s, q, ts[ i ], run + i ); VC_OUT( "%s %s", s.name, str( q ).c_str() ); }
	// every number of points
	for( size_t n : sizes( 3, 70, vc::pick( 260, 1030 ) ) ) { if( !vc::next( "%zu points", n ) ) continue; Set s = { spreadPoints( n ), "many points" }; for( size_t k = n % 5; k < rl.size(); k += n > 70 ? 25 : 5 ) { exact( s, rl[ k ], ts[ ( n + k ) % 3 ], n + k ); if( n % 7 == 0 && n < 70 && k < 12 ) disturbed( s, rl[ k ], v3( 0.5, -0.3, 1 ), rl ); } VC_OUT( "%zu", n ); }
	// the same points in any unit
	for( auto& s : ss ) for( size_t k = 0; k < rl.size(); k += 3 )
	{
		auto& q = rl[ k ]; if( std::string( s.name ) == "far cluster" || !vc::next( "units, set %s turned %s", s.name, str( q ).c_str() ) ) continue;
		for( double f : { 1e-9, 1e-6, 1e-4, 1e5, 1e9 } ) for( double c : { 0.0, 2.0 } )
		{
			V3 t = v3( c * f, -0.5 * c * f, c * f ); VD a, b; for( auto& x : s.p ) { b.push_back( u3( mulS( x, f ) ) ); a.push_back( u3( add( mul( q.R, mulS( x, f ) ), t ) ) ); } vc::state(); vc::step( 5 ); double tol = 1e-7;
			Pose p; VC_CHECK( pe::estimatePose6D_3D3D( a, p, b ), "units-refused", "unit %g", f ); Pose p2 = pe::calculateAbsoluteOrientation( b, a ); for( auto* x : { &p, &p2 } ) VC_CHECK( maxDiff( matOf( x->rotation() ), q.R ) < tol && dist( fromU( x->translation() ), t ) < tol * f * 10, "units-pose", "unit %g: off by %g and %g units", f, maxDiff( matOf( x->rotation() ), q.R ), dist( fromU( x->translation() ), t ) / f );
			Q qq; VC_CHECK( pe::estimateRotation_3D3D( a, qq, b ) && maxDiff( matOf( qq ), q.R ) < tol, "units-rotation", "unit %g", f );
			for( double sc : { 1.0, 1e-3, 1e3 } ) { VD as; for( auto& x : a ) as.push_back( u3( mulS( fromU( x ), sc ) ) ); VC_NEAR( pe::estimateScale_3D3D( as, b ) / sc, 1.0, 1e-6, "units-scale", "unit %g scaled %g", f, sc ); }
		}
		VC_OUT( "units %s %s", s.name, str( q ).c_str() );
	}
	for( auto& s : ss ) for( auto& q : rl ) { if( std::string( s.name ) == "far cluster" || !vc::next( "disturbed set %s turned %s", s.name, str( q ).c_str() ) ) continue; disturbed( s, q, v3( 0.5, -0.3, 1 ), rl ); VC_OUT( "disturbed %s %s", s.name, str( q ).c_str() ); }
	for( size_t i = 0; i < rl.size(); i += 7 ) { if( !vc::next( "outliers, turned %s", str( rl[ i ] ).c_str() ) ) continue; robust( rl[ i ], v3( 0.5, -0.3, 1 ) ); VC_OUT( "outliers %s", str( rl[ i ] ).c_str() ); }
}
VC_MAIN( body() )
