// E07: 2D-3D pose estimation recovers the camera pose.
#include "ut.hpp"
#include <algorithm>
#include <utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.h>
#include <utAlgorithm/PoseEstimation2D3D/NonPlanarPoseEstimation.h>
using namespace ut;
namespace um = Ubitrack::Math; namespace pe = Ubitrack::Algorithm::PoseEstimation2D3D;
typedef std::vector< um::Vector< double, 3 > > P3; typedef std::vector< um::Vector< double, 2 > > P2;
typedef std::vector< um::Vector< float, 3 > > F3; typedef std::vector< um::Vector< float, 2 > > F2;
struct Target { std::vector< V3 > p; bool planar; const char* name; };
static std::vector< Target > targets()
{
	std::vector< Target > r; std::vector< V3 > sq = { v3( -0.5, 0.5, 0 ), v3( -0.5, -0.5, 0 ), v3( 0.5, -0.5, 0 ), v3( 0.5, 0.5, 0 ) }, kite = { v3( 0, 0, 0 ), v3( 1, 0.1, 0 ), v3( 0.8, 0.9, 0 ), v3( -0.3, 0.7, 0 ), v3( 0.4, -0.6, 0 ) }, grid;
	for( int i = 0; i < 12; i++ ) grid.push_back( v3( i % 4 * 0.4 - 0.6, i / 4 * 0.5 - 0.5, 0 ) );
	r.push_back( { sq, true, "marker" } ); r.push_back( { kite, true, "kite" } ); r.push_back( { grid, true, "grid" } );
	auto up = sq; for( auto& x : up ) x[ 2 ] = 0.75; r.push_back( { up, true, "raised marker" } ); auto gu = grid; for( auto& x : gu ) x = add( x, v3( 3, -2, -1.5 ) ); r.push_back( { gu, true, "displaced grid" } );
	M3 T = mul( axisRot( 0, 0.7 ), axisRot( 1, -1.1 ) ), U = axisRot( 0, PI / 2 ); auto ts = sq; for( auto& x : ts ) x = add( mul( T, x ), v3( 0.3, -0.2, 0.5 ) ); r.push_back( { ts, true, "tilted marker" } ); auto us = kite; for( auto& x : us ) x = mul( U, x ); r.push_back( { us, true, "upright kite" } ); auto tg = kite; for( auto& x : tg ) x = add( mul( trans( T ), x ), v3( -1, 2, 0.1 ) ); r.push_back( { tg, true, "tilted kite" } ); std::vector< V3 > lr = { v3( -0.75, 0.25, 0 ), v3( -0.75, -0.25, 0 ), v3( 0.75, -0.25, 0 ), v3( 0.75, 0.25, 0 ) }; for( auto& x : lr ) x = add( mul( mul( axisRot( 1, 0.5 ), axisRot( 0, -0.9 ) ), x ), v3( 0.1, 0.6, -0.4 ) ); r.push_back( { lr, true, "tilted long rectangle" } ); for( size_t i = 0; i < 4; i++ ) lr[ i ] = mul( T, v3( i / 2 ? 1.2 : -0.6, i % 3 ? -0.1 : 0.15, 0 ) ); std::swap( lr[ 1 ], lr[ 2 ] ); r.push_back( { lr, true, "tilted narrow strip" } );
	r.push_back( { { v3( -0.5, -0.5, -0.5 ), v3( 0.5, -0.5, -0.4 ), v3( 0.5, 0.6, -0.5 ), v3( -0.5, 0.5, -0.3 ), v3( -0.4, -0.5, 0.5 ), v3( 0.6, -0.4, 0.5 ), v3( 0.5, 0.5, 0.6 ), v3( -0.6, 0.5, 0.4 ) }, false, "box" } ); r.push_back( { { v3( 0.2, 0.1, 0.9 ), v3( -0.9, 0.3, -0.4 ), v3( 0.7, -0.8, 0.1 ), v3( 0.5, 0.9, -0.7 ), v3( -0.6, -0.5, 0.6 ), v3( 0.1, 0.4, 0.3 ), v3( -0.3, 0.8, 0.5 ) }, false, "general" } );
	return r;
}
static um::Matrix< double, 3, 3 > cam( int i ) { double k[ 4 ][ 5 ] = { { 800, 800, 320, 240, 0 }, { 400, 650, 100, 350, 0 }, { 1, 1, 0, 0, 0 }, { 1500, 1400, 640, 512, 7 } }; um::Matrix< double, 3, 3 > m; M3 x = {}; x.m[ 0 ][ 0 ] = k[ i ][ 0 ]; x.m[ 1 ][ 1 ] = k[ i ][ 1 ]; x.m[ 0 ][ 2 ] = -k[ i ][ 2 ]; x.m[ 1 ][ 2 ] = -k[ i ][ 3 ]; x.m[ 0 ][ 1 ] = k[ i ][ 4 ]; x.m[ 2 ][ 2 ] = -1; return um3( x ); }
static V3 proj( const M3& K, const M3& R, const V3& t, const V3& x ) { V3 r = mul( K, add( mul( R, x ), t ) ); return v3( r[ 0 ] / r[ 2 ], r[ 1 ] / r[ 2 ], 1 ); }
static double repro( const M3& K, const M3& R, const V3& t, const P3& p, const P2& im ) { double s = 0; for( size_t i = 0; i < p.size(); i++ ) { V3 z = proj( K, R, t, fromU( p[ i ] ) ); s += ( z[ 0 ] - im[ i ]( 0 ) ) * ( z[ 0 ] - im[ i ]( 0 ) ) + ( z[ 1 ] - im[ i ]( 1 ) ) * ( z[ 1 ] - im[ i ]( 1 ) ); } return s; }
static double repro( const M3& K, const Pose& p, const P3& x, const P2& im ) { return repro( K, matOf( p.rotation() ), fromU( p.translation() ), x, im ); }
// the covariance documented for an error pose, from numeric derivatives
static void covariance( const um::Matrix< double, 6, 6 >& c, const M3& K, const M3& R, const V3& t, const P3& p, double var )
{
	auto f = [&]( const double* e ) { double q[ 4 ] = { e[ 3 ], e[ 4 ], e[ 5 ], 1 }; double n = std::sqrt( q[ 0 ] * q[ 0 ] + q[ 1 ] * q[ 1 ] + q[ 2 ] * q[ 2 ] + 1 ); M3 S = matOf( Q( q[ 0 ] / n, q[ 1 ] / n, q[ 2 ] / n, q[ 3 ] / n ) ); std::vector< double > o; for( auto& x : p ) { V3 z = proj( K, mul( R, S ), add( t, v3( e[ 0 ], e[ 1 ], e[ 2 ] ) ), fromU( x ) ); o.push_back( z[ 0 ] ); o.push_back( z[ 1 ] ); } return o; };
	D J( 2 * p.size(), 6 ); for( int k = 0; k < 6; k++ ) { double e[ 6 ] = {}; e[ k ] = 1e-5; auto a = f( e ); e[ k ] = -1e-5; auto b = f( e ); for( size_t i = 0; i < a.size(); i++ ) J( i, k ) = ( a[ i ] - b[ i ] ) / 2e-5; }
	D N = mul( trans( J ), J ), W( 6, 6 ); if( !inv( N, W ) ) return; for( int i = 0; i < 6; i++ ) for( int j = 0; j < 6; j++ ) { double s = std::sqrt( W( i, i ) * W( j, j ) ) * var; VC_CHECK( std::fabs( c( i, j ) - W( i, j ) * var ) <= 1e-3 * s + 1e-300, "covariance", "at %d,%d: %g, expected %g", i, j, c( i, j ), W( i, j ) * var ); VC_CHECK( std::fabs( c( i, j ) - c( j, i ) ) <= 1e-6 * s + 1e-300, "covariance-symmetric", "" ); }
}
static bool inFront( const Target& g, const M3& R, const V3& t ) { for( auto& x : g.p ) if( add( mul( R, x ), t )[ 2 ] > -0.3 ) return false; return true; }
// sine of the angle between the line of sight and the plane of the target
static double facing( const Target& g, const M3& R, const V3& t ) { V3 n = cross( sub( g.p[ 1 ], g.p[ 0 ] ), sub( g.p.back(), g.p[ 0 ] ) ); n = mul( R, mulS( n, 1 / norm( n ) ) ); V3 c = v3( 0, 0, 0 ); for( auto& x : g.p ) c = add( c, mulS( add( mul( R, x ), t ), 1.0 / g.p.size() ) ); return std::fabs( dot( n, c ) ) / norm( c ); }
static void single( const Target& g, const M3& R, const V3& t, int ki, int order, size_t run )
{
	auto Ku = cam( ki ); M3 K = m3( Ku ); P3 p; for( auto& x : g.p ) p.push_back( u3( x ) ); size_t n = p.size(); if( order == 1 ) std::reverse( p.begin(), p.end() ); if( order == 2 ) std::rotate( p.begin(), p.begin() + 1, p.end() ); if( order == 3 ) std::swap( p[ 0 ], p[ 2 ] ); P2 im; for( auto& x : p ) { V3 z = proj( K, R, t, fromU( x ) ); im.push_back( um::Vector< double, 2 >( z[ 0 ], z[ 1 ] ) ); }
	double dis = norm( t ) + 1, f = K.m[ 0 ][ 0 ], fac = g.planar ? facing( g, R, t ) : 1, tol = 1e-10 * dis * dis / fac; char info[ 200 ]; std::snprintf( info, sizeof info, "%s at %g %g %g, camera %d, order %d, facing %.2f", g.name, t[ 0 ], t[ 1 ], t[ 2 ], ki, order, fac );
	auto good = [&]( const Pose& q, double tl, const char* what ) { VC_CHECK( maxDiff( matOf( q.rotation() ), R ) < tl && dist( fromU( q.translation() ), t ) < tl * dis, what, "%s: off by %g and %g", info, maxDiff( matOf( q.rotation() ), R ), dist( fromU( q.translation() ), t ) ); VC_NEAR( qnorm( q.rotation() ), 1.0, 1e-9, "unit", "%s", info ); };
	for( int opt = 0; opt < 2; opt++ ) for( int m = 0; m < ( g.planar ? 1 : 2 ); m++ )
	{
		if( !g.planar && m == 0 ) continue; double res = -1; auto q = pe::computePose( im, p, Ku, res, opt != 0, m ? pe::NONPLANAR_PROJECTION : pe::PLANAR_HOMOGRAPHY ); vc::state(); vc::step(); good( q, tol * 100, opt ? "pose-refined" : "pose" ); VC_CHECK( res >= 0 && res < 100 * tol * f, "residual", "%s: %g", info, res ); auto q2 = pe::computePose( im, p, Ku, opt != 0, m ? pe::NONPLANAR_PROJECTION : pe::PLANAR_HOMOGRAPHY ); VC_CHECK( maxDiff( matOf( q.rotation() ), matOf( q2.rotation() ) ) == 0, "variants", "%s", info );
	}
	if( g.planar && n >= 6 ) { double res; auto q = pe::computePose( im, p, Ku, res, false, pe::NONPLANAR_PROJECTION ); (void)q; }
	covariance( pe::singleCameraPoseError( Pose( Q( um3( R ) ), u3( t ) ), p, Ku, 0.25 ), K, R, t, p, 0.25 );
	if( run % 8 == 0 && fac > 0.5 && dis < 6 && n >= 5 ) { F3 pf; for( auto& x : p ) pf.push_back( um::Vector< float, 3 >( x( 0 ), x( 1 ), x( 2 ) ) ); um::Matrix< float, 3, 3 > Kf; for( int i = 0; i < 9; i++ ) Kf( i / 3, i % 3 ) = Ku( i / 3, i % 3 ); Pose at( Q( um3( R ) ), u3( t ) ); auto cd = pe::singleCameraPoseError( at, p, Ku, 0.25 ); auto cf = pe::singleCameraPoseError( at, pf, Kf, 0.25f ); vc::step(); for( int i = 0; i < 6; i++ ) for( int j = 0; j < 6; j++ ) { double sc = std::sqrt( cd( i, i ) * cd( j, j ) ); VC_CHECK( std::fabs( cf( i, j ) - cd( i, j ) ) < 0.1 * sc, "covariance-float", "%s at %d,%d: %g, in double precision %g", info, i, j, cf( i, j ), cd( i, j ) ); } }
	// disturbed image points: the reported residual is the one of the returned pose, refinement does not make it worse
	P2 dis2 = im; for( size_t i = 0; i < n; i++ ) { dis2[ i ]( 0 ) += ( i % 2 ? 0.002 : -0.001 ) * f / dis; dis2[ i ]( 1 ) += ( i % 3 ? 0.001 : -0.0015 ) * f / dis; } double r0, r1; auto meth = g.planar ? pe::PLANAR_HOMOGRAPHY : pe::NONPLANAR_PROJECTION; auto d0 = pe::computePose( dis2, p, Ku, r0, false, meth ), d1 = pe::computePose( dis2, p, Ku, r1, true, meth ); vc::step( 2 );
	double e0 = repro( K, d0, p, dis2 ), e1 = repro( K, d1, p, dis2 ); VC_NEAR( r0, std::sqrt( e0 / ( 2 * n ) ), 1e-7 * f, "residual-linear", "%s", info ); VC_NEAR( r1, std::sqrt( e1 / ( 2 * n ) ), 1e-5 * f / dis, "residual-refined", "%s", info ); VC_CHECK( e1 <= e0 * ( 1 + 1e-9 ) + 1e-12, "refine-worse", "%s: %g -> %g", info, e0, e1 ); if( fac > 0.5 ) for( const Pose* d : { (const Pose*)&d0, (const Pose*)&d1 } ) VC_CHECK( add( mul( matOf( d->rotation() ), fromU( p[ 0 ] ) ), fromU( d->translation() ) )[ 2 ] < 0, "in-front", "%s", info );
	{ um::Matrix< double, 6, 6 > c; d1.covariance(); c = d1.covariance(); covariance( c, K, matOf( d1.rotation() ), fromU( d1.translation() ), p, e1 ); }
	// refinement from starts around the pose
	if( run % ( vc::thorough() ? 1 : 3 ) ) return;
	for( int k = 0; k < 6; k++ ) for( double h : { 0.0, 1e-3, -0.05, 0.2 } )
	{
		M3 S = k < 3 ? mul( R, axisRot( k, h ) ) : R; V3 ts = t; if( k >= 3 ) ts[ k - 3 ] *= 1 + h; Pose q( Q( um3( S ) ), u3( ts ) ); double s0 = repro( K, q, p, im ); Pose q1 = q, q6 = q, q50 = q; pe::optimizePose( q1, im, p, Ku, 1 ); pe::optimizePose( q6, im, p, Ku ); double r50 = pe::optimizePose( q50, im, p, Ku, 50 ); vc::step( 3 ); double s1 = repro( K, q1, p, im ), s6 = repro( K, q6, p, im ), s50 = repro( K, q50, p, im ), sl = 1e-12 * f * f; VC_CHECK( s1 <= s0 + sl && s6 <= s0 + sl && s50 <= s0 + sl, "optimize-worse", "%s axis %d start %g: %g -> %g %g %g", info, k, h, s0, s1, s6, s50 ); VC_NEAR( r50, s50, 1e-6 * s50 + 1e-9 * f * f, "optimize-residual", "%s", info ); VC_NEAR( qnorm( q6.rotation() ), 1.0, 1e-9, "optimize-unit", "%s", info );
		if( h == 0 ) { good( q1, tol, "optimize-exact" ); good( q50, tol, "optimize-exact" ); } else if( fac > 0.3 && std::fabs( h ) < 0.1 ) { if( f > 100 ) good( q50, 1e-3 * dis, "optimize-converges" ); VC_CHECK( s50 < 1e-6 * f * f / dis, "optimize-converges", "%s axis %d start %g: remaining error %g", info, k, h, s50 ); }
		F3 pf; F2 imf; for( auto& x : p ) pf.push_back( um::Vector< float, 3 >( x( 0 ), x( 1 ), x( 2 ) ) ); for( auto& x : im ) imf.push_back( um::Vector< float, 2 >( x( 0 ), x( 1 ) ) ); um::Matrix< float, 3, 3 > Kf; for( int i = 0; i < 3; i++ ) for( int j = 0; j < 3; j++ ) Kf( i, j ) = Ku( i, j ); Pose qf = q; pe::optimizePose( qf, imf, pf, Kf, 20 ); double sf = repro( K, qf, p, im ); VC_CHECK( sf <= s0 + 1e-5 * f * f / dis + 1e-8 * f * f, "optimize-worse-float", "%s axis %d start %g: %g -> %g", info, k, h, s0, sf );
	}
}
static void homography( const M3& R, const V3& t, int ki )
{
	auto Ku = cam( ki ); M3 K = m3( Ku ), H; for( int i = 0; i < 3; i++ ) { H.m[ i ][ 0 ] = R.m[ i ][ 0 ]; H.m[ i ][ 1 ] = R.m[ i ][ 1 ]; H.m[ i ][ 2 ] = t[ i ]; } H = mul( K, H ); D k3( 3, 3 ), ki3( 3, 3 ); for( int i = 0; i < 9; i++ ) k3( i / 3, i % 3 ) = K.m[ i / 3 ][ i % 3 ]; inv( k3, ki3 ); M3 I; for( int i = 0; i < 9; i++ ) I.m[ i / 3 ][ i % 3 ] = ki3( i / 3, i % 3 );
	for( double s : { 1.0, -1.0, 3.5, -0.002, 1e4 } ) { M3 G = H; for( auto& r : G.m ) for( double& x : r ) x *= s; Pose p = pe::poseFromHomography( um3( G ), um3( I ) ); vc::state(); vc::step(); VC_CHECK( poseDist( p, R, t ) < 1e-9 * ( 1 + norm( t ) ), "from-homography", "factor %g camera %d: off by %g", s, ki, poseDist( p, R, t ) ); um::Matrix< float, 3, 3 > Gf, If; for( int i = 0; i < 3; i++ ) for( int j = 0; j < 3; j++ ) { Gf( i, j ) = G.m[ i ][ j ]; If( i, j ) = I.m[ i ][ j ]; } Pose pf = pe::poseFromHomography( Gf, If ); VC_CHECK( poseDist( pf, R, t ) < 2e-3 * ( 1 + norm( t ) ), "from-homography-float", "factor %g camera %d: off by %g", s, ki, poseDist( pf, R, t ) ); }
	// a homography disturbed in any entry still gives a proper rotation near the true one
	for( int e = 0; e < 9; e++ ) for( double d : { 0.01, -0.03 } ) { M3 G; for( int i = 0; i < 3; i++ ) { G.m[ i ][ 0 ] = R.m[ i ][ 0 ]; G.m[ i ][ 1 ] = R.m[ i ][ 1 ]; G.m[ i ][ 2 ] = t[ i ]; } G.m[ e / 3 ][ e % 3 ] += d; G = mul( K, G ); Pose p = pe::poseFromHomography( um3( G ), um3( I ) ); vc::step(); VC_NEAR( qnorm( p.rotation() ), 1.0, 1e-9, "from-homography-unit", "entry %d off by %g", e, d ); VC_CHECK( maxDiff( matOf( p.rotation() ), R ) < 4 * std::fabs( d ) && dist( fromU( p.translation() ), t ) < 4 * std::fabs( d ) * ( 1 + norm( t ) ), "from-homography-near", "entry %d off by %g: pose off by %g", e, d, poseDist( p, R, t ) ); }
}
// iterative estimation in normalised coordinates, camera looking along +z
static void iterative( const Target& g, const M3& R, const V3& t, int order )
{
	P3 p; for( auto& x : g.p ) p.push_back( u3( x ) ); if( order ) std::rotate( p.begin(), p.begin() + order, p.end() ); P2 im; for( auto& x : p ) { V3 y = add( mul( R, fromU( x ) ), t ); im.push_back( um::Vector< double, 2 >( y[ 0 ] / y[ 2 ], y[ 1 ] / y[ 2 ] ) ); } const P3 p0 = p; const P2 i0 = im; Pose q( Q( 0, 0, 0, 1 ), u3( v3( 7, 7, 7 ) ) ); size_t it = 20000; double e = 1e-15; bool f = pe::estimatePose6D_2D3D( im, q, p, it, e ); vc::state(); vc::step( it ); VC_OUT( "iterative %s %d %g", g.name, f, std::floor( -std::log10( poseDist( q, R, t ) + 1e-16 ) ) );
	VC_CHECK( f, "iterative-refused", "%s", g.name ); M3 S = matOf( q.rotation() ); V3 u = fromU( q.translation() ); double o = 0; for( size_t i = 0; i < p.size(); i++ ) { V3 y = add( mul( S, fromU( p[ i ] ) ), u ), v = v3( im[ i ]( 0 ), im[ i ]( 1 ), 1 ); V3 z = sub( y, mulS( v, dot( v, y ) / dot( v, v ) ) ); o += dot( z, z ); } VC_NEAR( e, o, 1e-9, "iterative-error", "%s", g.name );
	VC_CHECK( maxDiff( S, R ) < 1e-4 && dist( u, t ) < 1e-4 * norm( t ), "iterative", "%s order %d: off by %g and %g after %zu iterations, error %g", g.name, order, maxDiff( S, R ), dist( u, t ), it, e );
	for( size_t i = 0; i < p.size(); i++ ) VC_CHECK( p[ i ]( 0 ) == p0[ i ]( 0 ) && p[ i ]( 2 ) == p0[ i ]( 2 ) && im[ i ]( 1 ) == i0[ i ]( 1 ), "input", "changed" );
	F3 pf; F2 imf; for( auto& x : p ) pf.push_back( um::Vector< float, 3 >( x( 0 ), x( 1 ), x( 2 ) ) ); for( auto& x : im ) imf.push_back( um::Vector< float, 2 >( x( 0 ), x( 1 ) ) ); Pose qf; size_t itf = 2000; float ef = 1e-9f; if( pe::estimatePose6D_2D3D( imf, qf, pf, itf, ef ) ) VC_CHECK( maxDiff( matOf( qf.rotation() ), R ) < 0.1 && dist( fromU( qf.translation() ), t ) < 0.1 * norm( t ), "iterative-float", "%s: off by %g", g.name, poseDist( qf, R, t ) );
	// too few iterations are reported
	size_t one = 1; double e1 = 1e-15; Pose q1; VC_CHECK( !pe::estimatePose6D_2D3D( im, q1, p, one, e1 ) && one == 1, "iterative-limit", "%s", g.name );
}
// fewer than four points, and first points on a line where they have to span the plane
static void refusals()
{
	M3 T = mul( axisRot( 0, 0.7 ), axisRot( 1, -1.1 ) ); auto Ku = cam( 0 ); M3 K = m3( Ku ), R = axisRot( 0, 0.3 ); V3 t = v3( 0.1, -0.2, -5 );
	auto refused = [&]( const std::vector< V3 >& q, bool opt ) { P3 p; P2 im; for( auto& x : q ) { p.push_back( u3( x ) ); V3 z = proj( K, R, t, x ); im.push_back( um::Vector< double, 2 >( z[ 0 ], z[ 1 ] ) ); } vc::state(); vc::step(); try { double res; pe::computePose( im, p, Ku, res, opt ); } catch( const std::exception& ) { return true; } return false; };
	for( int tilt = 0; tilt < 2; tilt++ ) for( int n = 0; n < 4; n++ ) for( int opt = 0; opt < 2; opt++ ) { std::vector< V3 > q; for( int i = 0; i < n; i++ ) q.push_back( mul( tilt ? T : axisRot( 0, 0.0 ), v3( i % 2, i / 2, 0 ) ) ); VC_CHECK( refused( q, opt ), "too-few", "%d points accepted", n ); }
	std::vector< V3 > line = { v3( 0, 0, 0 ), v3( 1, 0, 0 ), v3( 0.4, 0, 0 ) }; std::vector< int > o = { 0, 1, 2 }; do for( int k = 0; k < 3; k++ ) { std::vector< V3 > q; for( int i : o ) q.push_back( mul( T, mul( axisRot( 2, 0.8 * k ), line[ i ] ) ) ); q.push_back( mul( T, v3( 0.3, 0.7, 0 ) ) ); VC_CHECK( refused( q, k % 2 ), "collinear", "order %d %d %d accepted", o[ 0 ], o[ 1 ], o[ 2 ] ); } while( std::next_permutation( o.begin(), o.end() ) );
}
static void body()
{
	auto gs = targets(); auto rl = rotLattice( vc::pick( 0, 1 ) ); std::vector< V3 > ts = { v3( 0, 0, -3 ), v3( 0.5, -0.7, -4 ), v3( -2, 1, -10 ), v3( 1, 2, -30 ) }; size_t run = 0;
	for( auto& g : gs ) for( auto& r : rl ) { run++; if( !vc::next( "%s turned %s", g.name, str( r ).c_str() ) ) continue; V3 c = v3( 0, 0, 0 ); for( auto& x : g.p ) c = add( c, mulS( x, 1.0 / g.p.size() ) ); int used = 0; for( size_t i = 0; i < ts.size(); i++ ) { V3 t = sub( ts[ i ], mul( r.R, c ) ); if( !inFront( g, r.R, t ) || ( g.planar && facing( g, r.R, t ) < 0.15 ) ) continue; used++; for( int o = 0; o < 4; o++ ) single( g, r.R, t, ( run + i + o ) % 4, o, run + i + o ); } VC_OUT( "%s %s %d", g.name, str( r ).c_str(), used ); }
	// every number of points
	for( size_t n : sizes( 4, 70, vc::pick( 130, 520 ) ) ) for( int kind = 0; kind < 3; kind++ )
	{
		if( ( kind == 2 && n < 7 ) || !vc::next( "%zu points, %s", n, kind == 0 ? "flat" : kind == 1 ? "tilted" : "in space" ) ) continue; Target g = { spreadPoints( n, 0.7 ), kind < 2, "many points" }; M3 T = mul( axisRot( 0, 0.7 ), axisRot( 1, -1.1 ) ); if( kind < 2 ) for( auto& x : g.p ) { x[ 2 ] = 0; if( kind ) x = add( mul( T, x ), v3( 0.3, -0.2, 0.5 ) ); } int used = 0;
		for( size_t k = n % 5; k < rl.size(); k += n > 70 ? 15 : 5 ) { V3 c = v3( 0, 0, 0 ); for( auto& x : g.p ) c = add( c, mulS( x, 1.0 / n ) ); V3 t = sub( ts[ k % 3 ], mul( rl[ k ].R, c ) ); if( !inFront( g, rl[ k ].R, t ) || ( g.planar && facing( g, rl[ k ].R, t ) < 0.3 ) ) continue; used++; single( g, rl[ k ].R, t, ( n + k ) % 4, n % 4, n + k ); if( kind == 2 && n < 40 && k < 10 ) iterative( g, rl[ k ].R, v3( ts[ k % 3 ][ 0 ] / 2, ts[ k % 3 ][ 1 ] / 2, -ts[ k % 3 ][ 2 ] ), n % 3 ); }
		VC_OUT( "%zu %d %d", n, kind, used );
	}
	// target and distance in any unit
	for( auto& g : gs ) for( size_t k = 0; k < rl.size(); k += vc::pick( 3, 1 ) )
	{
		M3 R = rl[ k ].R; if( !vc::next( "units, %s turned %s", g.name, str( rl[ k ] ).c_str() ) ) continue; V3 c = v3( 0, 0, 0 ); for( auto& x : g.p ) c = add( c, mulS( x, 1.0 / g.p.size() ) ); int used = 0;
		for( size_t i = 0; i < ts.size(); i++ )
		{
			V3 t = sub( ts[ i ], mul( R, c ) ); if( !inFront( g, R, t ) || ( g.planar && facing( g, R, t ) < 0.3 ) ) continue; auto Ku = cam( ( k + i ) % 4 ); M3 K = m3( Ku ); double dis = norm( t ) + 1, fac = g.planar ? facing( g, R, t ) : 1, tol = 1e-7 * dis * dis / fac; used++;
			for( double f : { 1e-6, 1e-3, 0.05, 1e3, 1e6 } ) for( int opt = 0; opt < 2; opt++ )
			{
				P3 p; P2 im; for( auto& x : g.p ) { p.push_back( u3( mulS( x, f ) ) ); V3 z = proj( K, R, t, x ); im.push_back( um::Vector< double, 2 >( z[ 0 ], z[ 1 ] ) ); } double res = -1; auto q = pe::computePose( im, p, Ku, res, opt != 0, g.planar ? pe::PLANAR_HOMOGRAPHY : pe::NONPLANAR_PROJECTION ); vc::state(); vc::step();
				VC_CHECK( maxDiff( matOf( q.rotation() ), R ) < tol && dist( fromU( q.translation() ), mulS( t, f ) ) < tol * dis * f, opt ? "units-refined" : "units", "%s at %g %g %g, unit %g: off by %g and %g units", g.name, t[ 0 ], t[ 1 ], t[ 2 ], f, maxDiff( matOf( q.rotation() ), R ), dist( fromU( q.translation() ), mulS( t, f ) ) / f );
			}
		}
		VC_OUT( "units %s %s %d", g.name, str( rl[ k ] ).c_str(), used );
	}
	for( auto& r : rl ) { if( !vc::next( "homography turned %s", str( r ).c_str() ) ) continue; for( auto& t : ts ) for( int k = 0; k < 4; k++ ) homography( r.R, t, k ); VC_OUT( "homography %s", str( r ).c_str() ); }
	if( vc::next( "targets that determine no pose" ) ) refusals();
	for( auto& g : gs ) for( auto& r : rl ) { if( g.planar || !vc::next( "iterative, %s turned %s", g.name, str( r ).c_str() ) ) continue; for( size_t i = 0; i < ts.size(); i++ ) for( int o = 0; o < 2; o++ ) iterative( g, r.R, v3( ts[ i ][ 0 ] / 2, ts[ i ][ 1 ] / 2, -ts[ i ][ 2 ] ), o ); }
}
VC_MAIN( body() )
