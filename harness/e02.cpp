// E02: projections are recovered, decomposed and turned into rendering matrices exactly.
#include "ut.hpp"
#include <algorithm>
#include <utAlgorithm/Projection.h>
using namespace ut;
namespace um = Ubitrack::Math; namespace ua = Ubitrack::Algorithm;
struct Cam { M3 K, R; V3 t; std::string s; };
typedef std::array< double, 2 > P2;
static D pm( const Cam& c, double f = 1 ) { D p( 3, 4 ); M3 a = mul( c.K, c.R ); V3 b = mul( c.K, c.t ); for( int i = 0; i < 3; i++ ) { for( int j = 0; j < 3; j++ ) p( i, j ) = a.m[ i ][ j ] * f; p( i, 3 ) = b[ i ] * f; } return p; }
static V3 app( const D& p, const V3& x ) { V3 r; for( int i = 0; i < 3; i++ ) r[ i ] = p( i, 0 ) * x[ 0 ] + p( i, 1 ) * x[ 1 ] + p( i, 2 ) * x[ 2 ] + p( i, 3 ); return r; }
template< class T > static um::Matrix< T, 3, 4 > um34( const D& d ) { um::Matrix< T, 3, 4 > m; for( int i = 0; i < 3; i++ ) for( int j = 0; j < 4; j++ ) m( i, j ) = (T)d( i, j ); return m; }
template< class M > static D dd( const M& m ) { D r( m.size1(), m.size2() ); for( size_t i = 0; i < r.r; i++ ) for( size_t j = 0; j < r.c; j++ ) r( i, j ) = m( i, j ); return r; }
static std::vector< Cam > cameras()
{
	std::vector< Cam > r; auto rl = rotLattice( vc::pick( 0, 1 ) ); double ks[][ 5 ] = { { 500, 0, 320, 500, 240 }, { 1200, 3, 900, 1150, 500 }, { 1, 0, 0, 1, 0 }, { 30, -2, 5, -40, 12 } };
	for( auto& k : ks ) for( auto& q : rl ) for( auto& t : { v3( 0, 0, -5 ), v3( 1, -2, -8 ), v3( -0.5, 0.25, -2.5 ) } ) r.push_back( { M3{ { { k[ 0 ], k[ 1 ], -k[ 2 ] }, { 0, k[ 3 ], -k[ 4 ] }, { 0, 0, -1 } } }, q.R, t, vc::fmt( "intrinsics (%g,%g,%g,%g,%g) rotation %s translation %s", k[ 0 ], k[ 1 ], k[ 2 ], k[ 3 ], k[ 4 ], str( q ).c_str(), str( t ).c_str() ) } );
	return r;
}
static std::vector< V3 > points() { return { v3( 0.2, 0.1, 0.9 ), v3( -0.9, 0.3, -0.4 ), v3( 0.7, -0.8, 0.1 ), v3( 0.5, 0.9, -0.7 ), v3( -0.6, -0.5, 0.6 ), v3( 0.9, 0.4, 0.5 ), v3( -0.3, 0.8, 0.2 ), v3( 0.1, -0.9, -0.8 ) }; }
template< class T > static void decompose( const Cam& c, double f, double tol )
{
	D P = pm( c, f ); um::Matrix< T, 3, 3 > k, r; um::Vector< T, 3 > t; um::Matrix< T, 3, 4 > in = um34< T >( P ); ua::decomposeProjection( k, r, t, in ); D K = dd( k ), R = dd( r ); vc::state(); vc::step();
	VC_CHECK( K( 1, 0 ) == 0 && K( 2, 0 ) == 0 && K( 2, 1 ) == 0, "triangular", "factor %g: calibration not upper triangular", f ); VC_NEAR( K( 2, 2 ), -1.0, tol, "k33", "factor %g", f ); VC_CHECK( K( 0, 0 ) > 0, "k11", "factor %g: %g", f, K( 0, 0 ) );
	VC_CHECK( maxDiff( mul( R, trans( R ) ), eye( 3 ) ) < 20 * tol && std::fabs( det( m3( r ) ) - 1 ) < 20 * tol, "rotation", "factor %g: not a proper rotation", f );
	// product is the projection up to the factor that puts the world origin in front of the camera
	D kr = mul( K, R ), q( 3, 4 ); for( int i = 0; i < 3; i++ ) { q( i, 3 ) = 0; for( int j = 0; j < 3; j++ ) { q( i, j ) = kr( i, j ); q( i, 3 ) += K( i, j ) * t( j ); } } double nq = 0, np = 0; for( int j = 0; j < 3; j++ ) { nq += q( 2, j ) * q( 2, j ); np += P( 2, j ) * P( 2, j ); } double sg = P( 2, 3 ) < 0 ? -1 : 1; D n = scale( P, sg / std::sqrt( np ) ), g = scale( q, 1 / std::sqrt( nq ) ); double sc = maxAbs( n ); VC_CHECK( maxDiff( n, g ) < 200 * tol * sc, "product", "factor %g: K [R|t] differs from the projection by %g (largest entry %g)", f, maxDiff( n, g ), sc );
	for( int i = 0; i < 3; i++ ) for( int j = 0; j < 4; j++ ) VC_CHECK( in( i, j ) == (T)P( i, j ), "input-changed", "entry %d %d", i, j );
}
static void body()
{
	auto pts = points(); std::vector< std::vector< int > > sets; for( int k = 0; k < 256; k++ ) { std::vector< int > s; for( int i = 0; i < 8; i++ ) if( k >> i & 1 ) s.push_back( i ); if( s.size() >= 6 ) sets.push_back( s ); }
	for( auto& c : cameras() )
	{
		if( !vc::next( "camera %s", c.s.c_str() ) ) continue; D P = pm( c );
		size_t n = 0;
		for( auto s : sets )
		{
			std::rotate( s.begin(), s.begin() + n % s.size(), s.end() ); if( n++ % 2 ) std::reverse( s.begin(), s.end() );
			std::vector< um::Vector< double, 3 > > from; std::vector< um::Vector< double, 2 > > to; bool front = true; for( int i : s ) { from.push_back( u3( pts[ i ] ) ); V3 q = app( P, pts[ i ] ); if( q[ 2 ] < 0.3 ) front = false; to.push_back( um::Vector< double, 2 >( q[ 0 ] / q[ 2 ], q[ 1 ] / q[ 2 ] ) ); } if( !front ) continue;
			for( int sh = 0; sh < 2; sh++ )
			{
				double f = sh ? 400 : 1; V3 o = sh ? v3( 1000, -300, 50 ) : v3( 0, 0, 0 ); auto fr = from; for( auto& p : fr ) p = p * f + u3( o );
				D e = dd( ua::projectionDLT( fr, to ) ); vc::step(); double l = std::sqrt( e( 2, 0 ) * e( 2, 0 ) + e( 2, 1 ) * e( 2, 1 ) + e( 2, 2 ) * e( 2, 2 ) ); VC_NEAR( l, 1.0, 1e-9, "dlt-viewing-direction", "%zu points", s.size() );
				for( size_t i = 0; i < pts.size(); i++ ) { V3 q = app( e, add( mulS( pts[ i ], f ), o ) ), w = app( P, pts[ i ] ); VC_CHECK( q[ 2 ] > 0, "dlt-sign", "%zu points: point %zu behind the camera", s.size(), i ); VC_NEAR( q[ 0 ] / q[ 2 ] - w[ 0 ] / w[ 2 ], 0.0, 1e-5 * c.K.m[ 0 ][ 0 ], "dlt", "%zu points, set %zu: point %zu x", s.size(), n, i ); VC_NEAR( q[ 1 ] / q[ 2 ] - w[ 1 ] / w[ 2 ], 0.0, 1e-5 * c.K.m[ 0 ][ 0 ], "dlt", "%zu points, set %zu: point %zu y", s.size(), n, i ); VC_NEAR( q[ 2 ], w[ 2 ] * f, 1e-4 * f * w[ 2 ], "dlt-depth", "%zu points: point %zu", s.size(), i ); }
			}
			if( s.size() == 8 ) { std::vector< um::Vector< float, 3 > > ff; std::vector< um::Vector< float, 2 > > tt; for( size_t i = 0; i < 8; i++ ) { ff.push_back( um::Vector< float, 3 >( (float)from[ i ]( 0 ), (float)from[ i ]( 1 ), (float)from[ i ]( 2 ) ) ); tt.push_back( um::Vector< float, 2 >( (float)to[ i ]( 0 ), (float)to[ i ]( 1 ) ) ); } D e = dd( ua::projectionDLT( ff, tt ) ); for( int i : s ) { V3 q = app( e, pts[ i ] ), w = app( P, pts[ i ] ); VC_NEAR( q[ 0 ] / q[ 2 ] - w[ 0 ] / w[ 2 ], 0.0, 0.02 * c.K.m[ 0 ][ 0 ], "dlt-float", "point %d", i ); VC_NEAR( q[ 1 ] / q[ 2 ] - w[ 1 ] / w[ 2 ], 0.0, 0.02 * c.K.m[ 0 ][ 0 ], "dlt-float", "point %d", i ); } }
			vc::state();
		}
		for( double f : { 1.0, -1.0, 2.0, 0.001, -7.5, 1000.0 } ) { decompose< double >( c, f, 1e-10 ); decompose< float >( c, f, 1e-4 ); }
		// a camera of the documented convention comes back as it went in, whatever the overall factor
		for( double f : { 1.0, -1.0, 3.0, -0.2 } ) { um::Matrix< double, 3, 3 > k, r; um::Vector< double, 3 > t; ua::decomposeProjection( k, r, t, um34< double >( pm( c, f ) ) ); VC_CHECK( maxDiff( m3( k ), c.K ) < 1e-7 * c.K.m[ 0 ][ 0 ], "calibration", "factor %g", f ); VC_CHECK( maxDiff( m3( r ), c.R ) < 1e-8, "rotation-value", "factor %g", f ); VC_CHECK( dist( fromU( t ), c.t ) < 1e-8 * norm( c.t ) * c.K.m[ 0 ][ 0 ], "translation", "factor %g: (%g,%g,%g)", f, t( 0 ), t( 1 ), t( 2 ) ); }
		// rendering: the image rectangle and the depth range become the unit cube
		for( auto& v : { std::array< double, 6 >{ { 0, 640, 0, 480, 0.1, 100 } }, std::array< double, 6 >{ { -10, 1800, 20, 900, 1, 30 } }, std::array< double, 6 >{ { 0, 640, 480, 0, 0.5, 5 } } } )
		{
			um::Matrix< double, 3, 3 > k = um3( c.K ); double l = v[ 0 ], r = v[ 1 ], b = v[ 2 ], t = v[ 3 ], nr = v[ 4 ], fr = v[ 5 ]; D g34 = dd( ua::projectionMatrixToOpenGL( l, r, b, t, nr, fr, um34< double >( P ) ) ), g33 = dd( ua::projectionMatrixToOpenGL( l, r, b, t, nr, fr, k ) ); um::Matrix< float, 3, 3 > kf; for( int i = 0; i < 3; i++ ) for( int j = 0; j < 3; j++ ) kf( i, j ) = (float)k( i, j ); D f33 = dd( ua::projectionMatrixToOpenGL( (float)l, (float)r, (float)b, (float)t, (float)nr, (float)fr, kf ) ), f34 = dd( ua::projectionMatrixToOpenGL( (float)l, (float)r, (float)b, (float)t, (float)nr, (float)fr, um34< float >( P ) ) ); VC_CHECK( maxDiff( f33, g33 ) < 1e-4 * ( 1 + maxAbs( g33 ) ) && maxDiff( f34, g34 ) < 1e-4 * ( 1 + maxAbs( g34 ) ), "opengl-float", "" );
			for( int w = 0; w < 2; w++ ) for( auto& x : pts )
			{
				V3 cam = add( mul( c.R, x ), c.t ), img = mul( c.K, cam ), in = w ? cam : x; const D& g = w ? g33 : g34; double o[ 4 ]; for( int i = 0; i < 4; i++ ) o[ i ] = g( i, 0 ) * in[ 0 ] + g( i, 1 ) * in[ 1 ] + g( i, 2 ) * in[ 2 ] + g( i, 3 ); if( img[ 2 ] < 0.3 ) continue;
				double d = img[ 2 ]; VC_CHECK( o[ 3 ] > 0, "opengl-w", "point %s clipped", str( x ).c_str() ); VC_NEAR( o[ 0 ] / o[ 3 ], ( 2 * img[ 0 ] / d - ( r + l ) ) / ( r - l ), 1e-8 * ( 1 + std::fabs( o[ 0 ] / o[ 3 ] ) ), "opengl-x", "point %s", str( x ).c_str() ); VC_NEAR( o[ 1 ] / o[ 3 ], ( 2 * img[ 1 ] / d - ( t + b ) ) / ( t - b ), 1e-8 * ( 1 + std::fabs( o[ 1 ] / o[ 3 ] ) ), "opengl-y", "point %s", str( x ).c_str() );
				VC_NEAR( o[ 2 ] / o[ 3 ], ( fr + nr - 2 * fr * nr / d ) / ( fr - nr ), 1e-7 * ( 1 + fr ), "opengl-depth", "point %s", str( x ).c_str() ); vc::step();
			}
		}
		// flipping the image origin
		for( int h : { 1, 480, 1080 } ) for( int o : { 0, 1 } ) { um::Matrix< double, 3, 3 > k = um3( c.K ); ua::correctOrigin( k, o, h ); um::Matrix< float, 3, 3 > kf; for( int i = 0; i < 3; i++ ) for( int j = 0; j < 3; j++ ) kf( i, j ) = (float)c.K.m[ i ][ j ]; ua::correctOrigin( kf, o, h ); VC_CHECK( maxDiff( m3( kf ), m3( k ) ) < 1e-3, "origin-float", "" ); for( auto& x : pts ) { V3 cam = add( mul( c.R, x ), c.t ), a = mul( c.K, cam ), b = mul( m3( k ), cam ); VC_NEAR( b[ 0 ] / b[ 2 ], a[ 0 ] / a[ 2 ], 1e-9 * ( 1 + std::fabs( a[ 0 ] / a[ 2 ] ) ), "origin-x", "origin %d height %d", o, h ); VC_NEAR( b[ 1 ] / b[ 2 ], o ? a[ 1 ] / a[ 2 ] : h - 1 - a[ 1 ] / a[ 2 ], 1e-9 * ( 1 + h + std::fabs( a[ 1 ] / a[ 2 ] ) ), "origin-y", "origin %d height %d", o, h ); } }
		VC_OUT( "%s", c.s.c_str() );
	}
	// every number of correspondences
	{
		auto cs = cameras(); for( size_t n : sizes( 6, 70, vc::pick( 260, 1030 ) ) )
		{
			if( !vc::next( "%zu correspondences", n ) ) continue; auto sp = spreadPoints( n, 0.9 ); size_t used = 0;
			for( size_t k = n % 7; k < cs.size(); k += n > 70 ? 61 : 7 )
			{
				auto& c = cs[ k ]; D P = pm( c ); bool front = true; std::vector< um::Vector< double, 3 > > from; std::vector< um::Vector< double, 2 > > to; for( auto& x : sp ) { V3 q = app( P, x ); front = front && q[ 2 ] > 0.3; from.push_back( u3( x ) ); to.push_back( um::Vector< double, 2 >( q[ 0 ] / q[ 2 ], q[ 1 ] / q[ 2 ] ) ); } if( !front ) continue;
				D e = dd( ua::projectionDLT( from, to ) ); vc::step(); vc::state(); used++; for( auto& x : pts ) { V3 q = app( e, x ), w = app( P, x ); if( w[ 2 ] < 0.3 ) continue; VC_CHECK( q[ 2 ] > 0, "dlt-sign", "%zu points: behind the camera", n ); VC_NEAR( q[ 0 ] / q[ 2 ] - w[ 0 ] / w[ 2 ], 0.0, 1e-4 * c.K.m[ 0 ][ 0 ], "dlt-many", "%zu points: %s x", n, c.s.c_str() ); VC_NEAR( q[ 1 ] / q[ 2 ] - w[ 1 ] / w[ 2 ], 0.0, 1e-4 * c.K.m[ 0 ][ 0 ], "dlt-many", "%zu points: %s y", n, c.s.c_str() ); }
			}
			VC_OUT( "%zu %zu", n, used );
		}
	}
	// scene and image in any unit
	{
		auto cs = cameras(); for( size_t n = 6; n < 12; n++ ) for( double fs : { 1e-6, 1e-3, 1e4 } ) for( double fi : { 1e-5, 1.0, 1e4 } )
		{
			if( !vc::next( "%zu correspondences, units %g and %g", n, fs, fi ) ) continue; auto sp = spreadPoints( n, 0.9 ); size_t used = 0;
			for( size_t k = n % 7; k < cs.size(); k += 7 )
			{
				auto& c = cs[ k ]; D P = pm( c ); bool front = true; std::vector< um::Vector< double, 3 > > from; std::vector< um::Vector< double, 2 > > to; for( auto& x : sp ) { V3 q = app( P, x ); front = front && q[ 2 ] > 0.3; from.push_back( u3( mulS( x, fs ) ) ); to.push_back( um::Vector< double, 2 >( fi * q[ 0 ] / q[ 2 ], fi * q[ 1 ] / q[ 2 ] ) ); } if( !front ) continue;
				D e = dd( ua::projectionDLT( from, to ) ); vc::step(); vc::state(); used++; for( auto& x : pts ) { V3 q = app( e, mulS( x, fs ) ), w = app( P, x ); if( w[ 2 ] < 0.3 ) continue; VC_CHECK( q[ 2 ] > 0, "dlt-sign", "%zu points: behind the camera", n ); VC_NEAR( q[ 0 ] / q[ 2 ] / fi - w[ 0 ] / w[ 2 ], 0.0, 1e-4 * c.K.m[ 0 ][ 0 ], "dlt-units", "%zu points: %s x", n, c.s.c_str() ); VC_NEAR( q[ 1 ] / q[ 2 ] / fi - w[ 1 ] / w[ 2 ], 0.0, 1e-4 * c.K.m[ 0 ][ 0 ], "dlt-units", "%zu points: %s y", n, c.s.c_str() ); }
			}
			VC_OUT( "units %zu %zu", n, used );
		}
	}
	// off-axis projection of a physical screen
	for( auto& q : rotLattice( 1 ) ) for( auto& o : { v3( 0, 0, 0 ), v3( 1, -2, 0.5 ) } ) for( auto& e : { v3( 0.5, 0.4, 1 ), v3( 0.1, 0.2, 3 ), v3( 2, -1, 0.7 ) } )
	{
		if( !vc::next( "screen at %s turned %s, eye %s", str( o ).c_str(), str( q ).c_str(), str( e ).c_str() ) ) continue; double sw = 1.2, sh = 0.7, n = 0.3, f = 20;
		auto W = [&]( double x, double y, double z ) { return add( o, mul( q.R, v3( x, y, z ) ) ); }; um::Vector< double, 3 > eye = u3( W( e[ 0 ], e[ 1 ], e[ 2 ] ) ), ll = u3( W( 0, 0, 0 ) ), ul = u3( W( 0, sh, 0 ) ), lr = u3( W( sw, 0, 0 ) ); D m = dd( ua::offAxisProjectionMatrix( eye, ll, ul, lr, n, f, sw, sh ) );
		for( double x : { 0.0, sw / 3, sw } ) for( double y : { 0.0, sh / 2, sh } ) for( double s : { 0.4, 1.0, 2.5 } ) { V3 sp = v3( x, y, 0 ), l = add( e, mulS( sub( sp, e ), s ) ), p = W( l[ 0 ], l[ 1 ], l[ 2 ] ); double c[ 4 ]; for( int i = 0; i < 4; i++ ) c[ i ] = m( i, 0 ) * p[ 0 ] + m( i, 1 ) * p[ 1 ] + m( i, 2 ) * p[ 2 ] + m( i, 3 ); double d = s * e[ 2 ]; VC_NEAR( c[ 3 ], d, 1e-9, "screen-w", "depth of (%g,%g) at %g", x, y, s ); VC_NEAR( c[ 0 ] / c[ 3 ], 2 * x / sw - 1, 1e-9, "screen-x", "(%g,%g) at %g", x, y, s ); VC_NEAR( c[ 1 ] / c[ 3 ], 2 * y / sh - 1, 1e-9, "screen-y", "(%g,%g) at %g", x, y, s ); VC_NEAR( c[ 2 ] / c[ 3 ], ( f + n - 2 * f * n / d ) / ( f - n ), 1e-9, "screen-depth", "(%g,%g) at %g", x, y, s ); vc::state(); vc::step(); }
		VC_OUT( "screen %s %s %s", str( q ).c_str(), str( o ).c_str(), str( e ).c_str() );
	}
}
VC_MAIN( body() )
