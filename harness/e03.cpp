// E03: two-view and multi-view reconstruction recovers the scene it was given.
#include "ut.hpp"
#include <algorithm>
#include <utAlgorithm/FundamentalMatrix.h>
#include <utAlgorithm/3DPointReconstruction.h>
using namespace ut;
namespace um = Ubitrack::Math; namespace ua = Ubitrack::Algorithm;
typedef um::Vector< double, 2 > I2; typedef um::Vector< float, 2 > I2f;
struct Cam { M3 K, R; V3 t, C; };
static Cam cam( const M3& K, const M3& R, const V3& t ) { return { K, R, t, mulS( mul( trans( R ), t ), -1 ) }; }
template< class T > static um::Matrix< T, 3, 4 > mat( const Cam& c ) { um::Matrix< T, 3, 4 > p; M3 a = mul( c.K, c.R ); V3 b = mul( c.K, c.t ); for( int i = 0; i < 3; i++ ) { for( int j = 0; j < 3; j++ ) p( i, j ) = (T)a.m[ i ][ j ]; p( i, 3 ) = (T)b[ i ]; } return p; }
static I2 see( const Cam& c, const V3& x ) { V3 q = mul( c.K, add( mul( c.R, x ), c.t ) ); return I2( q[ 0 ] / q[ 2 ], q[ 1 ] / q[ 2 ] ); }
static std::vector< V3 > scene() { return { v3( 0.2, 0.1, 0.9 ), v3( -0.9, 0.3, -0.4 ), v3( 0.7, -0.8, 0.1 ), v3( 0.5, 0.9, -0.7 ), v3( -0.6, -0.5, 0.6 ), v3( 0.9, 0.4, 0.5 ), v3( -0.3, 0.8, 0.2 ), v3( 0.1, -0.9, -0.8 ), v3( -0.8, -0.2, 0.9 ), v3( 0.4, 0.3, -0.3 ) }; }
// the true fundamental matrix of two cameras
static M3 inv3( const M3& a ) { D d( 3, 3 ); for( int i = 0; i < 3; i++ ) for( int j = 0; j < 3; j++ ) d( i, j ) = a.m[ i ][ j ]; D g( 3, 3 ); inv( d, g ); d = g; M3 r; for( int i = 0; i < 3; i++ ) for( int j = 0; j < 3; j++ ) r.m[ i ][ j ] = d( i, j ); return r; }
static M3 trueF( const Cam& a, const Cam& b ) { M3 R = mul( b.R, trans( a.R ) ); V3 t = sub( b.t, mul( R, a.t ) ); M3 S = { { { 0, -t[ 2 ], t[ 1 ] }, { t[ 2 ], 0, -t[ 0 ] }, { -t[ 1 ], t[ 0 ], 0 } } }; return mul( trans( inv3( b.K ) ), mul( mul( S, R ), inv3( a.K ) ) ); }
static double fro( const M3& a ) { double s = 0; for( auto& r : a.m ) for( double x : r ) s += x * x; return std::sqrt( s ); }
// distance of a point from the epipolar line of the other
static double epi( const M3& F, const I2& a, const I2& b ) { V3 l = mul( F, v3( a( 0 ), a( 1 ), 1 ) ); return std::fabs( l[ 0 ] * b( 0 ) + l[ 1 ] * b( 1 ) + l[ 2 ] ) / std::hypot( l[ 0 ], l[ 1 ] ); }
static double epiT( const M3& F, const I2& a, const I2& b ) { return epi( trans( F ), b, a ); }
// relative conditioning of the eight point problem in normalised coordinates: second smallest over largest eigenvalue
static double condition( const std::vector< I2 >& a, const std::vector< I2 >& b )
{
	auto nrm = []( std::vector< I2 > p ) { double x = 0, y = 0, s = 0; for( auto& q : p ) { x += q( 0 ); y += q( 1 ); } x /= p.size(); y /= p.size(); for( auto& q : p ) { q( 0 ) -= x; q( 1 ) -= y; s += std::hypot( q( 0 ), q( 1 ) ); } s /= p.size() * std::sqrt( 2. ); for( auto& q : p ) q = q * ( 1 / s ); return p; };
	auto p = nrm( a ), q = nrm( b ); D m( p.size(), 9 ); for( size_t i = 0; i < p.size(); i++ ) for( int j = 0; j < 3; j++ ) for( int k = 0; k < 3; k++ ) m( i, 3 * j + k ) = ( j < 2 ? q[ i ]( j ) : 1 ) * ( k < 2 ? p[ i ]( k ) : 1 );
	auto e = eigSym( mul( trans( m ), m ) ); std::sort( e.begin(), e.end() ); return std::sqrt( std::max( 0.0, e[ 1 ] ) / e[ 8 ] );
}
static void body()
{
	M3 Ks[] = { { { { 500, 0, -320 }, { 0, 480, -240 }, { 0, 0, -1 } } }, { { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, -1 } } }, { { { 1100, 2, -900 }, { 0, -1050, -500 }, { 0, 0, -1 } } } }; auto pts = scene(); int np = pts.size(); auto rl = rotLattice( vc::pick( 0, 1 ) ), r1 = rotLattice( 0 ); size_t run = 0;
	for( size_t q1 = 0; q1 < r1.size(); q1 += vc::pick( 11, 7 ) ) for( auto& q2 : rl ) for( int it = 0; it < 4; it++ ) for( int k = 0; k < 3; k++ )
	{
		V3 ts[] = { v3( 0, 0, -6 ), v3( 1, -0.5, -5 ), v3( -1.5, 1, -7 ), v3( -0.1, 0.2, -3 ) }; run++; size_t big = run * 2654435761u >> 7;
		Cam a = cam( Ks[ k ], r1[ q1 ].R, v3( 0.3, -0.2, -5 ) ), b = cam( Ks[ ( k + big % 2 ) % 3 ], mul( q2.R, a.R ), ts[ it ] ); if( dist( a.C, b.C ) < 0.5 ) continue;
		if( !vc::next( "camera 1 turned %s, camera 2 turned by %s at %s, intrinsics %d/%d", str( r1[ q1 ] ).c_str(), str( q2 ).c_str(), str( ts[ it ] ).c_str(), k, int( ( k + big % 2 ) % 3 ) ) ) continue;
		double f1 = a.K.m[ 0 ][ 0 ], f2 = b.K.m[ 0 ][ 0 ]; M3 F0 = trueF( a, b ); F0 = [&]{ M3 m = F0; double n = fro( m ); for( auto& r : m.m ) for( double& x : r ) x /= n; return m; }();
		std::vector< I2 > pa, pb; std::vector< double > par; for( auto& x : pts ) { pa.push_back( see( a, x ) ); pb.push_back( see( b, x ) ); par.push_back( norm( cross( unit( sub( x, a.C ) ), unit( sub( x, b.C ) ) ) ) ); }
		auto pose = []( const Cam& c, int sg ) { Q q = Q( um3( c.R ) ); return Pose( Q( q.x() * sg, q.y() * sg, q.z() * sg, q.w() * sg ), u3( c.t ) ); };
		// from the poses
		M3 Fp = m3( ua::fundamentalMatrixFromPoses( pose( a, 1 ), pose( b, big % 4 < 2 ? 1 : -1 ), um3( a.K ), um3( b.K ) ) ); vc::state(); vc::step();
		auto judge = [&]( const M3& F, const char* key, double tol ) { double n = fro( F ); VC_CHECK( n > 0 && std::isfinite( n ), key, "norm %g", n ); M3 u = F; for( auto& r : u.m ) for( double& x : r ) x /= n; double s = 0; for( int i = 0; i < 3; i++ ) for( int j = 0; j < 3; j++ ) s += u.m[ i ][ j ] * F0.m[ i ][ j ]; for( auto& r : u.m ) for( double& x : r ) x *= s < 0 ? -1 : 1; VC_CHECK( maxDiff( u, F0 ) < tol, key, "differs from the true fundamental matrix by %g", maxDiff( u, F0 ) );
			// the epipole in image 1 is the null space: rank two
			V3 ep = mul( a.K, add( mul( a.R, b.C ), a.t ) ); VC_CHECK( norm( mul( u, unit( ep ) ) ) < tol, key, "does not map the epipole to zero: %g", norm( mul( u, unit( ep ) ) ) ); };
		judge( Fp, "poses", 1e-8 ); for( int i = 0; i < np; i++ ) { VC_CHECK( epi( Fp, pa[ i ], pb[ i ] ) < 1e-8 * f2, "poses-epipolar", "point %d off by %g", i, epi( Fp, pa[ i ], pb[ i ] ) ); VC_CHECK( epiT( Fp, pa[ i ], pb[ i ] ) < 1e-8 * f1, "poses-epipolar", "point %d off by %g in image 1", i, epiT( Fp, pa[ i ], pb[ i ] ) ); }
		// from correspondences: all points, every 8- and 9-subset, in varying order
		for( int m = 0; m < 1 << np; m++ )
		{
			if( __builtin_popcount( m ) < 8 ) continue; if( !vc::thorough() && __builtin_popcount( m ) == 8 && ( m + run ) % 5 ) continue;
			std::vector< I2 > x, y; for( int i = 0; i < np; i++ ) { int j = ( i + run ) % np; if( m >> j & 1 ) { x.push_back( pa[ j ] ); y.push_back( pb[ j ] ); } } if( m % 2 ) { std::reverse( x.begin(), x.end() ); std::reverse( y.begin(), y.end() ); } double cn = condition( x, y ); if( cn < 1e-4 ) continue;
			auto xi = x, yi = y; M3 F = m3( ua::getFundamentalMatrix( x, y ) ); vc::state(); vc::step(); if( std::getenv( "VC_DBG" ) ) { double n = fro( F ), w = 0; for( int i = 0; i < 3; i++ ) for( int j = 0; j < 3; j++ ) w += F.m[ i ][ j ] * F0.m[ i ][ j ] / n; printf( "cn %g cos-1 %g\n", cn, 1 - std::fabs( w ) ); }
			for( size_t i = 0; i < x.size(); i++ ) { VC_CHECK( epi( F, x[ i ], y[ i ] ) < 1e-8 / cn * f2 && epiT( F, x[ i ], y[ i ] ) < 1e-8 / cn * f1, "epipolar", "mask %d point %zu off by %g and %g (conditioning %g)", m, i, epi( F, x[ i ], y[ i ] ), epiT( F, x[ i ], y[ i ] ), cn ); VC_CHECK( x[ i ]( 0 ) == xi[ i ]( 0 ), "input", "changed" ); }
			for( int i = 0; i < np; i++ ) VC_CHECK( epi( F, pa[ i ], pb[ i ] ) < 1e-7 / cn * f2 && epiT( F, pa[ i ], pb[ i ] ) < 1e-7 / cn * f1, "epipolar-scene", "mask %d point %d off by %g and %g (conditioning %g)", m, i, epi( F, pa[ i ], pb[ i ] ), epiT( F, pa[ i ], pb[ i ] ), cn );
			VC_CHECK( std::fabs( det( F ) ) < 1e-9 * fro( F ) * fro( F ) * fro( F ), "rank", "mask %d determinant %g", m, det( F ) );
			if( m + 1 == 1 << np )
			{
				judge( F, "eight-point", 1e-6 );
				um::Matrix< double, 3, 3 > fo; ua::GetFundamentalMatrix< double >()( fo, x, y ); VC_CHECK( maxDiff( m3( fo ), F ) == 0, "functor", "" ); ua::EvaluateFundamentalMatrix< double > ev;
				for( int i = 0; i < np; i++ ) for( int j = 0; j < np; j++ ) { um::Matrix< double, 3, 3 > g = um3( F0 ); double w = epi( F0, pa[ i ], pb[ j ] ); w *= w; VC_NEAR( ev( g, pa[ i ], pb[ j ] ), w, 1e-8 * ( f2 * f2 + w ), "evaluate", "points %d %d", i, j ); VC_NEAR( ua::pointToPointDist( pa[ i ], pb[ j ], g ), w, 1e-8 * ( f2 * f2 + w ), "distance", "points %d %d", i, j );
					// the same points in homogeneous coordinates of any factor, and in single precision
					double h1[] = { 1, 0.5, -3 }, h2[] = { 1, 1, 2, -0.25 }; int c1 = ( i + j + run ) % 3, c2 = ( i + 3 * j + run ) % 4; um::Vector< double, 3 > ha( pa[ i ]( 0 ) * h1[ c1 ], pa[ i ]( 1 ) * h1[ c1 ], h1[ c1 ] ), hb( pb[ j ]( 0 ) * h2[ c2 ], pb[ j ]( 1 ) * h2[ c2 ], h2[ c2 ] ); VC_NEAR( ua::pointToPointDist( ha, hb, g ), w, 1e-8 * ( f2 * f2 + w ), "distance-homogeneous", "points %d %d with factors %g %g", i, j, h1[ c1 ], h2[ c2 ] );
					um::Matrix< float, 3, 3 > gf; for( int r = 0; r < 3; r++ ) for( int c = 0; c < 3; c++ ) gf( r, c ) = (float)F0.m[ r ][ c ]; um::Vector< float, 2 > qa( (float)pa[ i ]( 0 ), (float)pa[ i ]( 1 ) ), qb( (float)pb[ j ]( 0 ), (float)pb[ j ]( 1 ) ); um::Vector< float, 3 > za( (float)ha( 0 ), (float)ha( 1 ), (float)ha( 2 ) ), zb( (float)hb( 0 ), (float)hb( 1 ), (float)hb( 2 ) );
					// rounding the line: relative to the length of its normal
					V3 l = mul( F0, v3( pa[ i ]( 0 ), pa[ i ]( 1 ), 1 ) ); double big0 = 0; for( int r = 0; r < 3; r++ ) big0 += ( std::fabs( F0.m[ r ][ 0 ] * pa[ i ]( 0 ) ) + std::fabs( F0.m[ r ][ 1 ] * pa[ i ]( 1 ) ) + std::fabs( F0.m[ r ][ 2 ] ) ) * ( r < 2 ? std::fabs( pb[ j ]( r ) ) + std::sqrt( w ) : 1 ); double ft = 4e-6 * big0 / std::hypot( l[ 0 ], l[ 1 ] ), sw = std::sqrt( w ); if( ft < 0.5 * ( sw + f2 ) ) { VC_NEAR( std::sqrt( (double)ua::pointToPointDist( qa, qb, gf ) ), sw, ft, "distance-float", "points %d %d", i, j ); VC_NEAR( std::sqrt( (double)ua::pointToPointDist( za, zb, gf ) ), sw, ft, "distance-homogeneous-float", "points %d %d with factors %g %g", i, j, h1[ c1 ], h2[ c2 ] ); vc::step(); } }
				// every second, third correspondence: interleave strangers that have to be ignored
				for( size_t st = 2; st <= 3; st++ ) { std::vector< I2 > xs, ys; for( size_t i = 0; i < x.size(); i++ ) { xs.push_back( x[ i ] ); ys.push_back( y[ i ] ); for( size_t k = 1; k < st; k++ ) { xs.push_back( x[ ( i + k ) % x.size() ] ); ys.push_back( y[ ( i + k + 1 ) % x.size() ] ); } } judge( m3( ua::getFundamentalMatrix( xs, ys, st ) ), "step", 1e-6 ); vc::step(); }
				for( int w = 0; w < 3; w++ ) { auto xs = x, ys = y; if( w == 0 ) xs.pop_back(); else if( w == 1 ) { xs.resize( 7 ); ys.resize( 7 ); } bool thrown = false; try { ua::getFundamentalMatrix( xs, ys, w == 2 ? 0 : 1 ); } catch( const std::exception& ) { thrown = true; } VC_CHECK( thrown, "refuse", "case %d accepted", w ); }
				if( cn > 5e-3 ) { std::vector< I2f > xf, yf; for( size_t i = 0; i < x.size(); i++ ) { xf.push_back( I2f( (float)x[ i ]( 0 ), (float)x[ i ]( 1 ) ) ); yf.push_back( I2f( (float)y[ i ]( 0 ), (float)y[ i ]( 1 ) ) ); } M3 G = m3( ua::getFundamentalMatrix( xf, yf ) ); for( int i = 0; i < np; i++ ) VC_CHECK( epi( G, pa[ i ], pb[ i ] ) < 1e-4 / cn * f2, "epipolar-float", "point %d off by %g (conditioning %g)", i, epi( G, pa[ i ], pb[ i ] ), cn ); }
			}
		}
		// the pose from a fundamental matrix of any factor and any point with parallax
		M3 R = mul( b.R, trans( a.R ) ); V3 t = sub( b.t, mul( R, a.t ) ); t = unit( t );
		for( double s : { 1.0, -1.0, 3e4, -2e-3 } ) for( int i = 0; i < np; i++ )
		{
			if( par[ i ] < 0.02 ) continue; M3 F = F0; for( auto& r : F.m ) for( double& x : r ) x *= s; Pose p = ua::poseFromFundamentalMatrix( um3( F ), pa[ i ], pb[ i ], um3( a.K ), um3( b.K ) ); vc::step(); VC_CHECK( poseDist( p, R, t ) < 1e-5, "pose", "factor %g, point %d: off by %g, translation (%g,%g,%g) for %s", s, i, poseDist( p, R, t ), p.translation()( 0 ), p.translation()( 1 ), p.translation()( 2 ), str( t ).c_str() );
		}
		// triangulation from two views, in both orders
		for( int i = 0; i < np; i++ )
		{
			if( par[ i ] < 0.02 ) continue; V3 e = fromU( ua::get3DPosition( mat< double >( a ), mat< double >( b ), pa[ i ], pb[ i ] ) ), g = fromU( ua::get3DPosition( mat< double >( b ), mat< double >( a ), pb[ i ], pa[ i ] ) ); vc::step(); VC_CHECK( dist( e, pts[ i ] ) < 1e-8 && dist( g, pts[ i ] ) < 1e-8, "two-views", "point %d: %s", i, str( e ).c_str() );
			if( par[ i ] < 0.2 ) continue; um::Vector< float, 3 > f = ua::get3DPosition( mat< float >( a ), mat< float >( b ), I2f( (float)pa[ i ]( 0 ), (float)pa[ i ]( 1 ) ), I2f( (float)pb[ i ]( 0 ), (float)pb[ i ]( 1 ) ) ); VC_CHECK( dist( v3( f( 0 ), f( 1 ), f( 2 ) ), pts[ i ] ) < 2e-3, "two-views-float", "point %d: (%g,%g,%g)", i, f( 0 ), f( 1 ), f( 2 ) );
		}
		// more views in every order, linear and refined
		std::vector< Cam > cs = { a, b, cam( Ks[ ( k + 1 ) % 3 ], rodrigues( v3( 1, 2, 0.5 ), 0.7 ), v3( 0.4, 0.3, -6 ) ), cam( Ks[ k ], rodrigues( v3( -1, 0.3, 1 ), 2.1 ), v3( -0.4, 0.1, -4.5 ) ) };
		for( int n = 2; n <= 4; n++ )
		{
			std::vector< int > o( n ); for( int i = 0; i < n; i++ ) o[ i ] = i;
			do
			{
				std::vector< um::Matrix< double, 3, 4 > > P; for( int i : o ) P.push_back( mat< double >( cs[ i ] ) );
				for( int i = 0; i < np; i++ )
				{
					if( n == 4 && !vc::thorough() && ( i + run ) % 5 ) continue; double w = 0; for( int u = 0; u < n; u++ ) for( int v = 0; v < u; v++ ) w = std::max( w, norm( cross( unit( sub( pts[ i ], cs[ u ].C ) ), unit( sub( pts[ i ], cs[ v ].C ) ) ) ) ); if( w < 0.02 ) continue;
					std::vector< I2 > z; for( int j : o ) z.push_back( see( cs[ j ], pts[ i ] ) ); V3 e = fromU( ua::get3DPosition( P, z, 0 ) ), g = fromU( ua::get3DPosition( P, z, 1 ) ); double res = -1; V3 h = fromU( ua::get3DPositionWithResidual( P, z, 1, &res ) ), h0 = fromU( ua::get3DPositionWithResidual( P, z ) ); vc::step(); vc::state();
					VC_CHECK( dist( e, pts[ i ] ) < 1e-7, "views", "%d views, point %d: %s", n, i, str( e ).c_str() ); VC_CHECK( dist( g, pts[ i ] ) < 1e-7, "views-refined", "%d views, point %d: %s", n, i, str( g ).c_str() ); VC_CHECK( dist( h, pts[ i ] ) < 1e-7 && dist( h0, pts[ i ] ) < 1e-7, "views-residual", "%d views, point %d", n, i ); VC_CHECK( res >= 0 && res < 1e-8 * f1, "residual", "%g", res );
				}
				// single precision, where the rays meet at a good angle
				std::vector< Cam > fs = cs; for( auto& c : fs ) c.K = Ks[ k ]; std::vector< um::Matrix< float, 3, 4 > > Pf; for( int i : o ) Pf.push_back( mat< float >( fs[ i ] ) ); for( int i = 0; i < np; i++ ) { double w = 1; for( int u = 0; u < n; u++ ) for( int v = 0; v < u; v++ ) w = std::min( w, norm( cross( unit( sub( pts[ i ], cs[ u ].C ) ), unit( sub( pts[ i ], cs[ v ].C ) ) ) ) ); if( w < 0.3 || ( i + run ) % 3 ) continue; std::vector< I2f > z; for( int j : o ) { I2 q = see( fs[ j ], pts[ i ] ); z.push_back( I2f( (float)q( 0 ), (float)q( 1 ) ) ); } for( int fl = 0; fl < 2; fl++ ) { um::Vector< float, 3 > f = ua::get3DPosition( Pf, z, fl ); vc::step(); VC_CHECK( dist( v3( f( 0 ), f( 1 ), f( 2 ) ), pts[ i ] ) < 0.02, fl ? "views-refined-float" : "views-float", "%d views, point %d: (%g,%g,%g)", n, i, f( 0 ), f( 1 ), f( 2 ) ); } }
				{ auto P1 = P; P1.resize( 1 ); auto Q1 = Pf; Q1.resize( 1 ); for( int w = 0; w < 4; w++ ) { bool thrown = false; try { if( w == 0 ) ua::get3DPosition( P1, std::vector< I2 >( 1, I2( 0, 0 ) ), 0 ); else if( w == 1 ) ua::get3DPosition( Q1, std::vector< I2f >( 1, I2f( 0, 0 ) ), 0 ); else if( w == 2 ) ua::get3DPosition( Pf, std::vector< I2f >( n + 1, I2f( 0, 0 ) ), 0 ); else ua::get3DPositionWithResidual( P, std::vector< I2 >( n + 1, I2( 0, 0 ) ) ); } catch( const std::exception& ) { thrown = true; } VC_CHECK( thrown, "views-refuse", "case %d accepted", w ); } }
				std::vector< I2 > z( n - 1 ); bool thrown = false; try { ua::get3DPosition( P, z, 0 ); } catch( const std::exception& ) { thrown = true; } VC_CHECK( thrown, "views-count", "%d cameras and %d points accepted", n, n - 1 );
			} while( std::next_permutation( o.begin(), o.end() ) );
		}
		// a disturbed observation: refining from the linear estimate never increases the reprojection error
		for( int i = 0; i < np; i++ ) for( int w = 0; w < 4; w++ )
		{
			std::vector< um::Matrix< double, 3, 4 > > P; std::vector< I2 > z; for( int j = 0; j < 4; j++ ) { P.push_back( mat< double >( cs[ j ] ) ); z.push_back( see( cs[ j ], pts[ i ] ) ); } z[ w ]( i % 2 ) += cs[ w ].K.m[ 0 ][ 0 ] * 0.01; auto err = [&]( const V3& x ) { double s = 0; for( int j = 0; j < 4; j++ ) { I2 q = see( cs[ j ], x ); s += std::pow( q( 0 ) - z[ j ]( 0 ), 2 ) + std::pow( q( 1 ) - z[ j ]( 1 ), 2 ); } return s; };
			V3 e = fromU( ua::get3DPosition( P, z, 0 ) ), g = fromU( ua::get3DPosition( P, z, 1 ) ); vc::step(); double e0 = err( e ), e1 = err( g ); VC_CHECK( e1 <= e0 * ( 1 + 1e-9 ), "refine-worse", "point %d view %d: %g before, %g after", i, w, e0, e1 );
			if( dist( e, pts[ i ] ) < 0.2 ) for( int d = 0; d < 3; d++ ) for( double h : { -1e-3, 1e-3 } ) { V3 x = g; x[ d ] += h; VC_CHECK( err( x ) >= e1 * ( 1 - 1e-6 ), "refine-minimum", "point %d view %d: %g at the estimate, %g beside it", i, w, e1, err( x ) ); }
		}
		// matching and reconstructing whole sets: second list permuted and with a stranger
		{
			double sep = 1e9; std::vector< int > use; for( int i = 0; i < np && use.size() < 5; i++ ) { bool ok = par[ i ] > 0.05; for( int j : use ) ok = ok && epi( F0, pa[ i ], pb[ j ] ) > 0.02 * f2 && epi( F0, pa[ j ], pb[ i ] ) > 0.02 * f2; if( ok ) use.push_back( i ); } (void)sep;
			int n = use.size(); if( n >= 2 ) { std::vector< int > o( n ); for( int i = 0; i < n; i++ ) o[ i ] = i; int c = 0; do { if( ( c++ + run ) % vc::pick( 7, 1 ) ) continue; std::vector< I2 > x, y; for( int i : use ) x.push_back( pa[ i ] ); for( int i : o ) y.push_back( pb[ use[ i ] ] ); for( int v = 0; v < 3; v++ ) { auto xx = x, yy = y; std::vector< int > want = use; if( v == 1 ) yy.erase( yy.begin() ), want.erase( want.begin() + o[ 0 ] ); if( v == 2 ) xx.erase( xx.begin() + n / 2 ), want.erase( want.begin() + n / 2 ); auto l = ua::reconstruct3DPoints( xx, yy, mat< double >( a ), mat< double >( b ), um3( F0 ) ); vc::step(); VC_CHECK( l.size() == want.size(), "match-count", "variant %d: %zu of %zu points", v, l.size(), want.size() ); for( size_t i = 0; i < l.size(); i++ ) VC_CHECK( dist( fromU( l[ i ] ), pts[ want[ i ] ] ) < 1e-8, "match", "variant %d: point %zu is (%g,%g,%g)", v, i, l[ i ]( 0 ), l[ i ]( 1 ), l[ i ]( 2 ) ); double pm = 1; for( int u : use ) pm = std::min( pm, par[ u ] ); if( pm < 0.3 || b.K.m[ 0 ][ 0 ] > 1000 || a.K.m[ 0 ][ 0 ] > 1000 ) continue; std::vector< I2f > xf, yf; for( auto& u : xx ) xf.push_back( I2f( (float)u( 0 ), (float)u( 1 ) ) ); for( auto& u : yy ) yf.push_back( I2f( (float)u( 0 ), (float)u( 1 ) ) ); um::Matrix< float, 3, 3 > gf; for( int r = 0; r < 3; r++ ) for( int c2 = 0; c2 < 3; c2++ ) gf( r, c2 ) = (float)F0.m[ r ][ c2 ]; auto lf = ua::reconstruct3DPoints( xf, yf, mat< float >( a ), mat< float >( b ), gf ); vc::step(); VC_CHECK( lf.size() == want.size(), "match-count-float", "variant %d: %zu of %zu points", v, lf.size(), want.size() ); for( size_t i = 0; i < lf.size(); i++ ) VC_CHECK( dist( v3( lf[ i ]( 0 ), lf[ i ]( 1 ), lf[ i ]( 2 ) ), pts[ want[ i ] ] ) < 1e-2, "match-float", "variant %d: point %zu is (%g,%g,%g)", v, i, lf[ i ]( 0 ), lf[ i ]( 1 ), lf[ i ]( 2 ) ); } } while( std::next_permutation( o.begin(), o.end() ) ); }
		}
		VC_OUT( "%s %s %d %d", str( r1[ q1 ] ).c_str(), str( q2 ).c_str(), it, k );
	}
	// every number of correspondences and of views
	for( size_t n : sizes( 8, 70, 260 ) )
	{
		if( !vc::next( "%zu correspondences", n ) ) continue; auto sp = spreadPoints( n );
		for( int k = 0; k < 3; k++ ) for( size_t q = ( n + k ) % 5; q < r1.size(); q += n > 70 ? 25 : 5 )
		{
			Cam a = cam( Ks[ k ], r1[ n % r1.size() ].R, v3( 0.3, -0.2, -5 ) ), b = cam( Ks[ k ], mul( r1[ q ].R, a.R ), v3( 1, -0.5, -5 ) ); if( dist( a.C, b.C ) < 0.5 ) continue; std::vector< I2 > x, y; for( auto& p : sp ) { x.push_back( see( a, p ) ); y.push_back( see( b, p ) ); } double cn = condition( x, y ); if( cn < 1e-4 ) continue; M3 F = m3( ua::getFundamentalMatrix( x, y ) ); vc::state(); vc::step();
			for( size_t i = 0; i < n; i++ ) VC_CHECK( epi( F, x[ i ], y[ i ] ) < 1e-7 / cn * b.K.m[ 0 ][ 0 ] && epiT( F, x[ i ], y[ i ] ) < 1e-7 / cn * a.K.m[ 0 ][ 0 ], "epipolar-many", "%zu points, point %zu off by %g and %g (conditioning %g)", n, i, epi( F, x[ i ], y[ i ] ), epiT( F, x[ i ], y[ i ] ), cn );
			VC_CHECK( std::fabs( det( F ) ) < 1e-9 * fro( F ) * fro( F ) * fro( F ), "rank", "%zu points: determinant %g", n, det( F ) );
		}
		VC_OUT( "correspondences %zu", n );
	}
	// scene and cameras in any unit
	for( size_t n = 2; n < 7; n++ ) for( double f : { 1e-6, 1e-3, 1e4 } )
	{
		if( !vc::next( "%zu views, unit %g", n, f ) ) continue;
		for( int k = 0; k < 3; k++ ) for( size_t q = n % 3; q < r1.size(); q += 3 )
		{
			std::vector< Cam > cs; for( size_t i = 0; i < n; i++ ) { Cam c = cam( Ks[ k ], r1[ ( i * 7 + q ) % r1.size() ].R, mulS( add( spreadPoint( i ), v3( 0, 0, -6 ) ), f ) ); cs.push_back( c ); } if( dist( cs[ 0 ].C, cs[ 1 ].C ) < 0.5 * f ) continue; std::vector< um::Matrix< double, 3, 4 > > P; for( auto& c : cs ) P.push_back( mat< double >( c ) );
			for( auto& p : pts ) { V3 x = mulS( p, f ); if( norm( cross( unit( sub( x, cs[ 0 ].C ) ), unit( sub( x, cs[ 1 ].C ) ) ) ) < 0.1 ) continue; std::vector< I2 > z; for( auto& c : cs ) z.push_back( see( c, x ) ); V3 e = fromU( ua::get3DPosition( P, z, 0 ) ), g = fromU( ua::get3DPosition( P, z, 1 ) ), t = fromU( ua::get3DPosition( P[ 0 ], P[ 1 ], z[ 0 ], z[ 1 ] ) ); vc::step( 3 ); vc::state(); VC_CHECK( dist( e, x ) < 1e-6 * f && dist( g, x ) < 1e-6 * f && dist( t, x ) < 1e-6 * f, "views-units", "%zu views, unit %g: %s, refined %s, from two %s instead of %s", n, f, str( e ).c_str(), str( g ).c_str(), str( t ).c_str(), str( x ).c_str() ); }
			Cam& a = cs[ 0 ]; Cam& b = cs[ 1 ]; auto ps = []( const Cam& c ) { return Pose( Q( um3( c.R ) ), u3( c.t ) ); }; M3 F0 = trueF( a, b ), F = m3( ua::fundamentalMatrixFromPoses( ps( a ), ps( b ), um3( a.K ), um3( b.K ) ) ); double n0 = fro( F0 ), n1 = fro( F ), dp = 0; for( int i = 0; i < 3; i++ ) for( int j = 0; j < 3; j++ ) dp += F0.m[ i ][ j ] * F.m[ i ][ j ] / n0 / n1; VC_CHECK( 1 - std::fabs( dp ) < 1e-9, "poses-units", "unit %g", f );
			V3 x = mulS( pts[ q % pts.size() ], f ); if( norm( cross( unit( sub( x, a.C ) ), unit( sub( x, b.C ) ) ) ) > 0.1 ) { Pose p = ua::poseFromFundamentalMatrix( um3( F0 ), see( a, x ), see( b, x ), um3( a.K ), um3( b.K ) ); M3 R = mul( b.R, trans( a.R ) ); V3 t = unit( sub( b.t, mul( R, a.t ) ) ); VC_CHECK( poseDist( p, R, t ) < 1e-5, "pose-units", "unit %g: off by %g", f, poseDist( p, R, t ) ); vc::step(); }
		}
		VC_OUT( "units %zu %g", n, f );
	}
	for( size_t n : sizes( 2, 40, 66 ) )
	{
		if( !vc::next( "%zu views", n ) ) continue; 
		for( int k = 0; k < 3; k++ ) for( auto& p : pts )
		{
			std::vector< um::Matrix< double, 3, 4 > > P; std::vector< I2 > z; double w = 0; V3 c0; for( size_t i = 0; i < n; i++ ) { V3 h = spreadPoint( i ); Cam c = cam( Ks[ k ], r1[ ( i * 7 + n ) % r1.size() ].R, add( mulS( h, 1.0 ), v3( 0, 0, -6 ) ) ); if( !i ) c0 = c.C; w = std::max( w, norm( cross( unit( sub( p, c.C ) ), unit( sub( p, c0 ) ) ) ) ); P.push_back( mat< double >( c ) ); z.push_back( see( c, p ) ); } if( w < 0.05 ) continue;
			V3 e = fromU( ua::get3DPosition( P, z, 0 ) ), g = fromU( ua::get3DPosition( P, z, 1 ) ); double res = -1; V3 h = fromU( ua::get3DPositionWithResidual( P, z, 1, &res ) ); vc::step( 3 ); vc::state(); VC_CHECK( dist( e, p ) < 1e-6 && dist( g, p ) < 1e-6 && dist( h, p ) < 1e-6, "views-many", "%zu views: %s, refined %s", n, str( e ).c_str(), str( g ).c_str() ); VC_CHECK( res >= 0 && res < 1e-5, "residual", "%zu views: %g", n, res );
			z[ n - 1 ]( 0 ) += 0.01 * Ks[ k ].m[ 0 ][ 0 ]; g = fromU( ua::get3DPosition( P, z, 1 ) ); if( n > 2 && n < 10 ) VC_CHECK( dist( g, p ) > 1e-6, "views-ignored", "%zu views: the last one has no influence", n );
		}
		VC_OUT( "views %zu", n );
	}
}
VC_MAIN( body() )
