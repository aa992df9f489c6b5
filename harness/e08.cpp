// E08: multi-camera pose and bundle adjustment use every observation correctly.
#include "ut.hpp"
#include <algorithm>
#include <numeric>
#include <utMath/Scalar.h>
#include <utAlgorithm/MultipleCameraPoseOptimization.h>
#include <utAlgorithm/BundleAdjustment.h>
#include <utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.h>
using namespace ut;
namespace um = Ubitrack::Math; namespace ua = Ubitrack::Algorithm;
typedef um::Vector< double, 3 > D3; typedef um::Vector< double, 2 > D2; typedef um::Scalar< double > S1;
struct Cam { M3 R; V3 t; M3 K; };
static Cam look( const V3& from, double roll, double f ) { V3 z = mulS( from, 1 / norm( from ) ), u = std::fabs( z[ 1 ] ) < 0.9 ? v3( 0, 1, 0 ) : v3( 1, 0, 0 ), x = cross( u, z ); x = mulS( x, 1 / norm( x ) ); V3 y = cross( z, x ); Cam c; for( int i = 0; i < 3; i++ ) { c.R.m[ 0 ][ i ] = x[ i ]; c.R.m[ 1 ][ i ] = y[ i ]; c.R.m[ 2 ][ i ] = z[ i ]; } c.R = mul( axisRot( 2, roll ), c.R ); c.t = mulS( mul( c.R, from ), -1 ); M3 K = {}; K.m[ 0 ][ 0 ] = f; K.m[ 0 ][ 1 ] = f / 300; K.m[ 1 ][ 1 ] = f * 1.1; K.m[ 0 ][ 2 ] = -320; K.m[ 1 ][ 2 ] = -240; K.m[ 2 ][ 2 ] = -1; c.K = K; return c; }
static D2 proj( const Cam& c, const V3& w ) { V3 r = mul( c.K, add( mul( c.R, w ), c.t ) ); return D2( r[ 0 ] / r[ 2 ], r[ 1 ] / r[ 2 ] ); }
static double depth( const Cam& c, const V3& w ) { return -add( mul( c.R, w ), c.t )[ 2 ]; }
struct Scene { std::vector< Cam > cams; std::vector< V3 > pts; std::vector< M3 > R; std::vector< V3 > t; std::vector< int > of; };	// of: bundle of each point
struct In { std::vector< D3 > p3; std::vector< std::vector< D2 > > p2; std::vector< std::vector< S1 > > w; std::vector< Pose > cp; std::vector< um::Matrix< double, 3, 3 > > K; };
static In input( const Scene& s, const std::vector< unsigned >& vis, double weight )
{
	In r; for( auto& p : s.pts ) r.p3.push_back( u3( p ) ); for( size_t c = 0; c < s.cams.size(); c++ ) { r.cp.push_back( Pose( Q( um3( s.cams[ c ].R ) ), u3( s.cams[ c ].t ) ) ); r.K.push_back( um3( s.cams[ c ].K ) ); std::vector< D2 > a; std::vector< S1 > w; for( size_t i = 0; i < s.pts.size(); i++ ) { int b = s.of[ i ]; bool v = vis[ c ] >> i & 1; a.push_back( v ? proj( s.cams[ c ], add( mul( s.R[ b ], s.pts[ i ] ), s.t[ b ] ) ) : D2( -1e4, 7777 ) ); w.push_back( S1( v ? weight * ( 1 + i ) : 0.0 ) ); } r.p2.push_back( a ); r.w.push_back( w ); }
	return r;
}
static double total( const Scene& s, const In& in, const std::vector< unsigned >& vis, const M3& R, const V3& t, int b ) { double e = 0; for( size_t c = 0; c < s.cams.size(); c++ ) for( size_t i = 0; i < s.pts.size(); i++ ) if( s.of[ i ] == b && ( vis[ c ] >> i & 1 ) ) { D2 z = proj( s.cams[ c ], add( mul( R, s.pts[ i ] ), t ) ); for( int k = 0; k < 2; k++ ) e += ( z( k ) - in.p2[ c ][ i ]( k ) ) * ( z( k ) - in.p2[ c ][ i ]( k ) ); } return e; }
// how well the visible observations determine the pose: smallest eigenvalue of the normalised normal matrix
static double determined( const Scene& s, const std::vector< unsigned >& vis ) { D N( 6, 6 ); for( size_t c = 0; c < s.cams.size(); c++ ) for( size_t i = 0; i < s.pts.size(); i++ ) if( vis[ c ] >> i & 1 ) { D J( 2, 6 ); for( int k = 0; k < 6; k++ ) { D2 z[ 2 ]; for( int d = 0; d < 2; d++ ) { double h = d ? -1e-5 : 1e-5; M3 R = s.R[ 0 ]; V3 t = s.t[ 0 ]; if( k < 3 ) t[ k ] += h; else R = mul( axisRot( k - 3, h ), R ); z[ d ] = proj( s.cams[ c ], add( mul( R, s.pts[ i ] ), t ) ); } for( int j = 0; j < 2; j++ ) J( j, k ) = ( z[ 0 ]( j ) - z[ 1 ]( j ) ) / 2e-5 / s.cams[ c ].K.m[ 0 ][ 0 ]; } N = add( N, mul( trans( J ), J ) ); } double m = 1e9; for( double e : eigSym( N ) ) m = std::min( m, e ); return m; }
static int seen( unsigned v ) { return __builtin_popcount( v ); }
static void pose( const Scene& s, const std::vector< unsigned >& vis, size_t run )
{
	double w = run % 3 == 0 ? 1.0 : run % 3 == 1 ? 0.01 : 250; In in = input( s, vis, w ); int mx = 0, mn = 99; for( unsigned v : vis ) { mx = std::max( mx, seen( v ) ); mn = std::min( mn, seen( v ) ); } std::string vs; for( unsigned v : vis ) vs += vc::fmt( " %x", v ); const char* V = vs.c_str();
	for( int least : { 0, 1, 3 } )
	{
		if( least == 3 && run % 4 ) continue; um::ErrorPose p; S1 wt( 55 ); bool want = mx >= 4 && mn >= least; ua::multipleCameraPoseEstimation( in.p3, in.p2, in.w, in.cp, in.K, least, p, wt ); vc::state(); vc::step(); VC_CHECK( want == ( (double)wt >= 0 ), "accepted", "seen%s, at least %d: weight %g", V, least, (double)wt ); if( !want || (double)wt < 0 ) continue;
		VC_CHECK( poseDist( p, s.R[ 0 ], s.t[ 0 ] ) < 2e-4 && (double)wt < 1e-4, "pose", "seen%s, weights %g: off by %g, residual %g", V, w, poseDist( p, s.R[ 0 ], s.t[ 0 ] ), (double)wt ); VC_NEAR( qnorm( p.rotation() ), 1.0, 1e-9, "unit", "" ); VC_NEAR( total( s, in, vis, matOf( p.rotation() ), fromU( p.translation() ), 0 ), (double)wt, 1e-9 + 1e-6 * (double)wt, "residual", "seen%s", V );
	}
	if( run % ( vc::thorough() ? 2 : 6 ) || determined( s, vis ) < 1e-4 ) return;
	for( int k = 0; k < 6; k++ ) for( double h : { 0.0, 0.02, -0.1 } ) { M3 R = k < 3 ? mul( axisRot( k, h ), s.R[ 0 ] ) : s.R[ 0 ]; V3 t = s.t[ 0 ]; if( k >= 3 ) t[ k - 3 ] += h; um::ErrorPose p; S1 wt( 55 ); ua::multipleCameraPoseEstimation( in.p3, in.p2, in.w, in.cp, in.K, 0, p, wt, true, Pose( Q( um3( R ) ), u3( t ) ) ); vc::step(); double e0 = total( s, in, vis, R, t, 0 ), e1 = total( s, in, vis, matOf( p.rotation() ), fromU( p.translation() ), 0 ); VC_CHECK( (double)wt >= 0 && e1 <= e0 + 1e-9, "start-worse", "seen%s, start %d %g: %g -> %g", V, k, h, e0, e1 ); VC_NEAR( (double)wt, e1, 1e-9 + 1e-6 * e1, "start-residual", "" ); if( h == 0 ) VC_CHECK( poseDist( p, s.R[ 0 ], s.t[ 0 ] ) < 1e-6, "start-exact", "seen%s: off by %g", V, poseDist( p, s.R[ 0 ], s.t[ 0 ] ) ); else if( determined( s, vis ) > 1e-3 && mx >= 3 && std::accumulate( vis.begin(), vis.end(), 0, []( int a, unsigned v ) { return a + seen( v ); } ) >= 5 ) VC_CHECK( e1 < 1e-3, "start-converges", "seen%s, start %d %g: remaining %g", V, k, h, e1 ); }
	// the covariance of such a pose follows from the derivatives of all visible observations
	std::vector< um::Matrix< double, 3, 4 > > Ps; for( auto& c : s.cams ) { um::Matrix< double, 3, 4 > P; for( int i = 0; i < 3; i++ ) for( int j = 0; j < 4; j++ ) { P( i, j ) = 0; for( int k = 0; k < 3; k++ ) P( i, j ) += c.K.m[ i ][ k ] * ( j < 3 ? c.R.m[ k ][ j ] : c.t[ k ] ); } Ps.push_back( P ); } std::vector< std::pair< std::size_t, std::size_t > > obs; D J( 2 * s.cams.size() * s.pts.size(), 6 ); int row = 0;
	for( size_t c = 0; c < s.cams.size(); c++ ) for( size_t i = 0; i < s.pts.size(); i++ ) if( vis[ c ] >> i & 1 ) { obs.push_back( { i, c } ); for( int k = 0; k < 6; k++ ) { D2 z[ 2 ]; for( int d = 0; d < 2; d++ ) { double h = d ? -1e-5 : 1e-5; V3 t = s.t[ 0 ]; M3 S = axisRot( 0, 0 ); if( k < 3 ) t[ k ] += h; else S = axisRot( k - 3, 2 * std::atan( h ) ); z[ d ] = proj( s.cams[ c ], add( mul( s.R[ 0 ], mul( S, s.pts[ i ] ) ), t ) ); } for( int j = 0; j < 2; j++ ) J( row + j, k ) = ( z[ 0 ]( j ) - z[ 1 ]( j ) ) / 2e-5; } row += 2; }
	D N( 6, 6 ), W( 6, 6 ); N = mul( trans( J ), J ); if( !inv( N, W ) ) return; auto c = ua::PoseEstimation2D3D::multipleCameraPoseError( Pose( Q( um3( s.R[ 0 ] ) ), u3( s.t[ 0 ] ) ), in.p3, Ps, obs, 0.25 ); for( int i = 0; i < 6; i++ ) for( int j = 0; j < 6; j++ ) VC_CHECK( std::fabs( c( i, j ) - 0.25 * W( i, j ) ) <= 1e-3 * 0.25 * std::sqrt( W( i, i ) * W( j, j ) ), "covariance", "seen%s at %d,%d: %g, expected %g", V, i, j, c( i, j ), 0.25 * W( i, j ) );
}
static void bundles( const Scene& s, const std::vector< unsigned >& vis, int nb )
{
	In in = input( s, vis, 1 ); std::vector< um::ErrorPose > ps; std::vector< S1 > ws; std::vector< um::Scalar< int > > sz; for( int b = 0; b < nb; b++ ) sz.push_back( um::Scalar< int >( (int)std::count( s.of.begin(), s.of.end(), b ) ) ); ua::multipleCameraPoseEstimationWithLocalBundles( in.p3, in.p2, in.w, in.cp, in.K, 0, ps, ws, sz ); vc::state(); vc::step(); VC_CHECK( (int)ps.size() == nb && (int)ws.size() == nb, "bundle-count", "%zu poses, %zu weights", ps.size(), ws.size() ); if( (int)ps.size() != nb || (int)ws.size() != nb ) return;
	for( int b = 0; b < nb; b++ ) { int mx = 0; for( unsigned v : vis ) { int n = 0; for( size_t i = 0; i < s.pts.size(); i++ ) n += s.of[ i ] == b && ( v >> i & 1 ); mx = std::max( mx, n ); } VC_CHECK( ( mx >= 4 ) == ( (double)ws[ b ] >= 0 ), "bundle-accepted", "bundle %d: weight %g, %d points seen", b, (double)ws[ b ], mx ); if( mx < 4 || (double)ws[ b ] < 0 ) continue; VC_CHECK( poseDist( ps[ b ], s.R[ b ], s.t[ b ] ) < 2e-4, "bundle-pose", "bundle %d of %d: off by %g, residual %g", b, nb, poseDist( ps[ b ], s.R[ b ], s.t[ b ] ), (double)ws[ b ] ); VC_NEAR( total( s, in, vis, matOf( ps[ b ].rotation() ), fromU( ps[ b ].translation() ), b ), (double)ws[ b ], 1e-9 + 1e-6 * (double)ws[ b ], "bundle-residual", "" ); }
	// a bundle without points gets no pose and takes nothing from the others, wherever it stands
	for( int at = 0; at <= nb; at++ )
	{
		std::vector< um::ErrorPose > p2; std::vector< S1 > w2; auto z2 = sz; z2.insert( z2.begin() + at, um::Scalar< int >( 0 ) ); ua::multipleCameraPoseEstimationWithLocalBundles( in.p3, in.p2, in.w, in.cp, in.K, 0, p2, w2, z2 ); vc::step(); VC_CHECK( (int)p2.size() == nb + 1 && (int)w2.size() == nb + 1, "empty-bundle-count", "%zu poses", p2.size() ); if( (int)p2.size() != nb + 1 || (int)w2.size() != nb + 1 ) break;
		VC_CHECK( (double)w2[ at ] < 0, "empty-bundle", "bundle %d of %d has no points, weight %g", at, nb + 1, (double)w2[ at ] ); for( int b = 0; b < nb; b++ ) { int q = b + ( b >= at ); VC_CHECK( ( (double)w2[ q ] < 0 ) == ( (double)ws[ b ] < 0 ) && poseDist( p2[ q ], matOf( ps[ b ].rotation() ), fromU( ps[ b ].translation() ) ) < 1e-9, "beside-empty-bundle", "bundle %d with an empty one at %d", b, at ); }
	}
	// more points shared out than there are
	for( int b = 0; b < nb; b++ ) for( int more : { 1, 2, 100 } ) { std::vector< um::ErrorPose > p2; std::vector< S1 > w2; auto z2 = sz; z2[ b ] = um::Scalar< int >( (int)z2[ b ] + more ); bool t = false; try { ua::multipleCameraPoseEstimationWithLocalBundles( in.p3, in.p2, in.w, in.cp, in.K, 0, p2, w2, z2 ); } catch( const std::exception& ) { t = true; } vc::step(); VC_CHECK( t, "bundle-too-long", "bundle %d longer by %d accepted", b, more ); }
}
// bundle adjustment in normalised image coordinates, camera poses mapping world to camera
struct BA { std::vector< M3 > R; std::vector< V3 > t; std::vector< V3 > p; };
static double repro( const std::vector< Pose >& cs, const std::vector< D3 >& ps, const std::vector< std::vector< D2 > >& im ) { double e = 0; for( size_t c = 0; c < cs.size(); c++ ) for( size_t i = 0; i < ps.size(); i++ ) { V3 y = add( mul( matOf( cs[ c ].rotation() ), fromU( ps[ i ] ) ), fromU( cs[ c ].translation() ) ); double dx = y[ 0 ] / y[ 2 ] - im[ c ][ i ]( 0 ), dy = y[ 1 ] / y[ 2 ] - im[ c ][ i ]( 1 ); e += dx * dx + dy * dy; } return e; }
static void adjust( const BA& b, int kind, int which, double h, double noise )
{
	std::vector< std::vector< D2 > > im; std::vector< Pose > cs; std::vector< D3 > ps; for( auto& x : b.p ) ps.push_back( u3( x ) ); for( size_t c = 0; c < b.R.size(); c++ ) { std::vector< D2 > z; for( size_t i = 0; i < b.p.size(); i++ ) { V3 y = add( mul( b.R[ c ], b.p[ i ] ), b.t[ c ] ); z.push_back( D2( y[ 0 ] / y[ 2 ] + noise * ( (int)( ( i + c ) % 3 ) - 1 ), y[ 1 ] / y[ 2 ] - noise * ( (int)( ( 2 * i + c ) % 3 ) - 1 ) ) ); } im.push_back( z ); cs.push_back( Pose( Q( um3( b.R[ c ] ) ), u3( b.t[ c ] ) ) ); }
	int nc = cs.size(), np = ps.size();
	if( kind == 0 ) { int c = which % nc, k = which / nc % 3; cs[ c ] = Pose( Q( um3( mul( axisRot( k, h ), b.R[ c ] ) ) ), cs[ c ].translation() ); } else if( kind == 1 ) { int c = which % nc, k = which / nc % 3; V3 t = b.t[ c ]; t[ k ] += h; cs[ c ] = Pose( cs[ c ].rotation(), u3( t ) ); } else if( kind == 2 ) { ps[ which % np ]( which / np % 3 ) += h; } else { for( int c = 0; c < nc; c++ ) { V3 t = b.t[ c ]; t[ ( c + which ) % 3 ] += h; cs[ c ] = Pose( Q( um3( mul( axisRot( ( c + 2 * which ) % 3, c % 2 ? h : -h ), b.R[ c ] ) ) ), u3( t ) ); } for( int i = 0; i < np; i++ ) ps[ i ]( ( i + which ) % 3 ) += i % 2 ? h : -h; }
	const auto im0 = im; double e0 = repro( cs, ps, im ); std::vector< um::Vector< float, 3 > > pf; std::vector< std::vector< um::Vector< float, 2 > > > imf; for( auto& x : ps ) pf.push_back( um::Vector< float, 3 >( x( 0 ), x( 1 ), x( 2 ) ) ); for( auto& z : im ) { imf.push_back( {} ); for( auto& x : z ) imf.back().push_back( um::Vector< float, 2 >( x( 0 ), x( 1 ) ) ); } auto csf = cs;
	ua::simpleBundleAdjustment( im, cs, ps ); vc::state(); vc::step(); double e1 = repro( cs, ps, im ); VC_CHECK( e1 <= e0 * ( 1 + 1e-9 ) + 1e-18, "adjust-worse", "%d cameras, %d points, start kind %d no %d off by %g, noise %g: %g -> %g", nc, np, kind, which, h, noise, e0, e1 ); if( noise == 0 ) VC_CHECK( e1 <= 1e-4 * e0 + 1e-9, "adjust-converges", "%d cameras, %d points, start kind %d no %d off by %g: %g -> %g", nc, np, kind, which, h, e0, e1 );
	for( auto& c : cs ) VC_NEAR( qnorm( c.rotation() ), 1.0, 1e-9, "adjust-unit", "" ); VC_CHECK( (int)cs.size() == nc && (int)ps.size() == np, "adjust-size", "" ); for( int c = 0; c < nc; c++ ) for( int i = 0; i < np; i++ ) VC_CHECK( im[ c ][ i ]( 0 ) == im0[ c ][ i ]( 0 ), "input", "changed" );
	ua::simpleBundleAdjustment( imf, csf, pf ); std::vector< D3 > pd; for( auto& x : pf ) pd.push_back( D3( x( 0 ), x( 1 ), x( 2 ) ) ); double ef = repro( csf, pd, im ); VC_CHECK( ef <= e0 + 1e-7, "adjust-worse-float", "%d cameras, %d points, start kind %d no %d off by %g: %g -> %g", nc, np, kind, which, h, e0, ef ); if( noise == 0 ) VC_CHECK( ef <= 1e-5, "adjust-converges-float", "start kind %d no %d off by %g: %g -> %g", kind, which, h, e0, ef );
}
static void body()
{
	auto rl = rotLattice( vc::pick( 0, 1 ) ); std::vector< Cam > rig = { look( v3( 0.3, -0.4, 4 ), 0.2, 700 ), look( v3( 2.5, 0.5, 3 ), -0.7, 500 ), look( v3( -2, 1.5, 3.5 ), 2.5, 900 ) };
	std::vector< V3 > kite = { v3( 0, 0, 0 ), v3( 1, 0.1, 0 ), v3( 0.8, 0.9, 0 ), v3( -0.3, 0.7, 0 ), v3( 0.4, -0.6, 0 ) }; M3 T = mul( axisRot( 0, 0.7 ), axisRot( 1, -1.1 ) ); std::vector< std::vector< V3 > > tg( 3, kite ); for( auto& x : tg[ 1 ] ) x[ 2 ] = 0.4; for( auto& x : tg[ 2 ] ) x = add( mul( T, x ), v3( 0.2, -0.3, 0.1 ) );
	size_t run = 0;
	for( int ti = 0; ti < 3; ti++ ) for( size_t ri = 0; ri < rl.size(); ri++ )
	{
		if( !vc::next( "target %d turned %s before the rig", ti, str( rl[ ri ] ).c_str() ) ) continue; Scene s; s.cams = rig; if( ri % 2 ) std::rotate( s.cams.begin(), s.cams.begin() + 1, s.cams.end() ); s.pts = tg[ ti ]; V3 c = v3( 0, 0, 0 ); for( auto& x : s.pts ) c = add( c, mulS( x, 0.2 ) ); M3 R = rl[ ri ].R; s.R = { R }; s.t = { sub( v3( 0.1 * ( ri % 3 ), -0.1, 0.2 ), mul( R, c ) ) }; s.of.assign( 5, 0 ); 
		// cameras that see the plane of the target nearly edge-on are left out
		V3 n = mul( R, ti == 2 ? mul( T, v3( 0, 0, 1 ) ) : v3( 0, 0, 1 ) ); for( size_t k = s.cams.size(); k-- > 0; ) { V3 d = sub( v3( 0, 0, 0 ), mul( trans( s.cams[ k ].R ), s.cams[ k ].t ) ); d = sub( d, add( mul( R, c ), s.t[ 0 ] ) ); if( std::fabs( dot( n, d ) ) / norm( d ) < 0.25 ) s.cams.erase( s.cams.begin() + k ); } int nc = s.cams.size(); if( nc < 1 ) continue; unsigned all = 1u << 5 * nc; unsigned stride = nc < 3 ? ( vc::thorough() ? 1 : 5 ) : ( vc::thorough() ? 7 : 61 ); for( unsigned m = ri % stride; m < all; m += stride ) { std::vector< unsigned > vis; for( int k = 0; k < nc; k++ ) vis.push_back( m >> 5 * k & 31 ); pose( s, vis, run++ ); } VC_OUT( "rig %d %zu: %d cameras", ti, ri, nc );
	}
	// every number of cameras and of points; every camera misses another part of them
	for( int nc = 1; nc <= vc::pick( 8, 16 ); nc++ ) for( int np = 4; np <= 32; np += vc::pick( nc < 4 ? 1 : 3, 1 ) )
	{
		if( !vc::next( "%d cameras, %d points", nc, np ) ) continue; Scene s; for( int c = 0; c < nc; c++ ) { V3 f = spreadPoint( c + np ); s.cams.push_back( look( v3( 2.2 * f[ 0 ], 2.2 * f[ 1 ], 3.5 + f[ 2 ] ), 0.7 * c, 500 + 60 * c ) ); } for( auto& x : spreadPoints( np, 0.8 ) ) s.pts.push_back( v3( x[ 0 ], x[ 1 ], 0 ) ); s.of.assign( np, 0 ); s.R = { mul( axisRot( 0, 0.2 ), axisRot( 2, 0.3 * np ) ) }; s.t = { v3( 0.1, -0.1, 0.2 ) };
		for( int pat = 0; pat < 6; pat++ ) { std::vector< unsigned > vis; for( int c = 0; c < nc; c++ ) { unsigned v = 0; for( int i = 0; i < np; i++ ) if( pat == 0 || ( pat == 1 && c == nc - 1 ) || ( pat == 2 && i >= np - 4 ) || ( pat == 3 && ( i + c ) % 3 ) || ( pat == 4 && c % 2 == 0 ) || ( pat == 5 && ( c ? i == ( c * 5 ) % np : i < 4 || i == np - 1 ) ) ) v |= 1u << i; vis.push_back( v ); } pose( s, vis, pat % 2 ? 12 : nc + np ); }
		VC_OUT( "%d %d", nc, np );
	}
	// several targets in one list, all splits of visibility between them
	for( size_t ri = 0; ri < rl.size(); ri += vc::pick( 3, 2 ) ) { if( !vc::next( "local bundles from %s", str( rl[ ri ] ).c_str() ) ) continue; for( int nb = 1; nb <= 3; nb++ ) for( int pat = 0; pat < 1 << ( 2 * nb ); pat++ ) { Scene s; s.cams = rig; s.cams.resize( 2 ); for( int b = 0; b < nb; b++ ) { M3 R = mul( axisRot( 2, rl[ ri ].angle + b ), axisRot( b % 2, 0.3 * ( b + 1 ) ) ); int cnt = b == 1 ? 4 : 5; s.R.push_back( R ); s.t.push_back( v3( b * 0.5 - 0.5, 0.4 * b - 0.3, -0.2 * b ) ); for( int i = 0; i < cnt; i++ ) { s.pts.push_back( tg[ b ][ i ] ); s.of.push_back( b ); } } std::vector< unsigned > vis( 2, 0 ); for( size_t i = 0; i < s.pts.size(); i++ ) for( int c = 0; c < 2; c++ ) { bool full = pat >> ( 2 * s.of[ i ] + c ) & 1; if( full || i % 3 == (size_t)c ) vis[ c ] |= 1u << i; } bundles( s, vis, nb ); } VC_OUT( "bundles %zu", ri ); }
	// lists whose lengths contradict each other are refused, whichever of them is too short or too long
	for( int what = 0; what < 8; what++ ) for( int d = -1; d <= 1; d += 2 ) for( int nc = 1; nc <= 3; nc++ ) if( vc::next( "%d cameras, list %d %s", nc, what, d < 0 ? "one short" : "one long" ) )
	{
		Scene s; s.cams = rig; s.cams.resize( nc ); s.pts = tg[ 1 ]; s.R.push_back( axisRot( 0, 0 ) ); s.t.push_back( v3( 0, 0, 0 ) ); s.of.assign( s.pts.size(), 0 ); const In ok = input( s, std::vector< unsigned >( nc, 31 ), 1 );
		for( int which = 0; which < 2; which++ )
		{
			In in = ok; int at = ( nc - 1 ) / 2;
			if( what == 0 ) { if( d < 0 ) in.p2.pop_back(); else in.p2.push_back( in.p2[ 0 ] ); } if( what == 1 ) { if( d < 0 ) in.w.pop_back(); else in.w.push_back( in.w[ 0 ] ); }
			if( what == 2 ) { if( d < 0 ) in.cp.pop_back(); else in.cp.push_back( in.cp[ 0 ] ); } if( what == 3 ) { if( d < 0 ) in.K.pop_back(); else in.K.push_back( in.K[ 0 ] ); }
			if( what == 4 ) { if( d < 0 ) in.p2[ at ].pop_back(); else in.p2[ at ].push_back( in.p2[ at ][ 0 ] ); } if( what == 5 ) { if( d < 0 ) in.w[ at ].pop_back(); else in.w[ at ].push_back( in.w[ at ][ 0 ] ); }
			if( what == 6 ) { if( d < 0 ) in.p3.pop_back(); else in.p3.push_back( in.p3[ 0 ] ); } if( what == 7 ) { if( d < 0 ) { in.p2.back().pop_back(); in.w[ 0 ].pop_back(); if( nc == 1 ) in.p3.push_back( in.p3[ 0 ] ); } else { in.p2[ 0 ].push_back( in.p2[ 0 ][ 0 ] ); in.w.back().push_back( in.w[ 0 ][ 0 ] ); } }
			bool t = false;
			try
			{
				if( which ) { std::vector< um::ErrorPose > ps; std::vector< S1 > ws; std::vector< um::Scalar< int > > sz( 1, um::Scalar< int >( (int)ok.p3.size() ) ); ua::multipleCameraPoseEstimationWithLocalBundles( in.p3, in.p2, in.w, in.cp, in.K, 0, ps, ws, sz ); }
				else { um::ErrorPose p; S1 wt( 55 ); ua::multipleCameraPoseEstimation( in.p3, in.p2, in.w, in.cp, in.K, 0, p, wt ); }
			} catch( const std::exception& ) { t = true; }
			vc::state(); vc::step(); VC_CHECK( t, "inconsistent-refused", "list %d off by %d accepted by variant %d", what, d, which );
		}
	}
	// bundle adjustment
	std::vector< V3 > cloud = { v3( 0.2, 0.1, 0.9 ), v3( -0.9, 0.3, -0.4 ), v3( 0.7, -0.8, 0.1 ), v3( 0.5, 0.9, -0.7 ), v3( -0.6, -0.5, 0.6 ), v3( 0.1, 0.4, 0.3 ), v3( -0.3, 0.8, 0.5 ), v3( 0.9, 0.5, 0.4 ), v3( -0.2, -0.9, -0.6 ), v3( 0.4, -0.2, -0.9 ) };
	for( int nc = 1; nc <= 4; nc++ ) for( int np : { 5, 8, 10 } ) for( size_t ri = 0; ri < rl.size(); ri += vc::pick( 6, 5 ) ) { if( !vc::next( "bundle adjustment of %d cameras and %d points, %s", nc, np, str( rl[ ri ] ).c_str() ) ) continue; BA b; b.p.assign( cloud.begin(), cloud.begin() + np ); for( int c = 0; c < nc; c++ ) { b.R.push_back( mul( axisRot( c % 3, 0.5 * c ), rl[ ri ].R ) ); b.t.push_back( v3( 0.3 * c, -0.2, ( ri & 1 ? 5.0 : -5.0 ) + 0.4 * c ) ); } for( double h : { 0.0, 0.01, -0.1, 0.2 } ) for( int kind = 0; kind < 4; kind++ ) { int n = kind == 3 ? 3 : kind == 2 ? 3 * np : 3 * nc; for( int w = 0; w < n; w += ( kind == 2 && !vc::thorough() ? 5 : 1 ) ) { adjust( b, kind, w, h, 0 ); if( w % 4 == 0 ) adjust( b, kind, w, h, 0.003 ); if( h == 0 ) break; } } VC_OUT( "adjust %d %d %zu", nc, np, ri ); }
}
VC_MAIN( body() )
