// E09: lens undistortion inverts lens distortion.
#include "ut.hpp"
#include <algorithm>
#include <utAlgorithm/LensDistortion.h>
#include <utAlgorithm/CameraLens/Correction.h>
#include <utMath/CameraIntrinsics.h>
using namespace ut;
namespace um = Ubitrack::Math; namespace ua = Ubitrack::Algorithm; namespace cl = Ubitrack::Algorithm::CameraLens;
typedef um::Vector< double, 2 > D2; typedef um::Vector< float, 2 > F2; typedef um::CameraIntrinsics< double > CI; typedef um::CameraIntrinsics< float > CF;
static M3 kmat( int i, int sign ) { double k[ 4 ][ 5 ] = { { 700, 720, 320, 240, 0 }, { 500, 500, 330, 235, 3 }, { 1, 1, 0, 0, 0 }, { 900, 850, 100, 400, -5 } }; M3 m = {}; m.m[ 0 ][ 0 ] = k[ i ][ 0 ]; m.m[ 1 ][ 1 ] = k[ i ][ 1 ]; m.m[ 0 ][ 1 ] = k[ i ][ 4 ]; m.m[ 0 ][ 2 ] = sign * k[ i ][ 2 ]; m.m[ 1 ][ 2 ] = sign * k[ i ][ 3 ]; m.m[ 2 ][ 2 ] = sign; return m; }
struct Model { int n; double k[ 6 ], p[ 2 ]; };
// the documented formula and its derivative, written out
static void formula( const Model& m, double x, double y, double& u, double& v ) { double r = x * x + y * y, f = ( 1 + r * ( m.k[ 0 ] + r * ( m.k[ 1 ] + r * m.k[ 2 ] ) ) ) / ( 1 + r * ( m.k[ 3 ] + r * ( m.k[ 4 ] + r * m.k[ 5 ] ) ) ); u = x * f + 2 * m.p[ 0 ] * x * y + m.p[ 1 ] * ( r + 2 * x * x ); v = y * f + 2 * m.p[ 1 ] * x * y + m.p[ 0 ] * ( r + 2 * y * y ); }
// smallest stretch of the map on the way from the centre to the point: how well it can be inverted
static double stretch( const Model& m, double x, double y ) { double w = 9; for( int i = 1; i <= 8; i++ ) { double a = x * i / 8, b = y * i / 8, h = 1e-5, u0, v0, u1, v1, J[ 4 ]; formula( m, a + h, b, u1, v1 ); formula( m, a - h, b, u0, v0 ); J[ 0 ] = ( u1 - u0 ) / 2 / h; J[ 2 ] = ( v1 - v0 ) / 2 / h; formula( m, a, b + h, u1, v1 ); formula( m, a, b - h, u0, v0 ); J[ 1 ] = ( u1 - u0 ) / 2 / h; J[ 3 ] = ( v1 - v0 ) / 2 / h; double d = J[ 0 ] * J[ 3 ] - J[ 1 ] * J[ 2 ], s = J[ 0 ] * J[ 0 ] + J[ 1 ] * J[ 1 ] + J[ 2 ] * J[ 2 ] + J[ 3 ] * J[ 3 ]; if( d <= 0 ) return -1; double lo = std::sqrt( std::max( 0.0, ( s - std::sqrt( std::max( 0.0, s * s - 4 * d * d ) ) ) / 2 ) ), hi = std::sqrt( ( s + std::sqrt( std::max( 0.0, s * s - 4 * d * d ) ) ) / 2 ); w = std::min( w, std::min( lo, 1 / hi ) ); } return w; }
static CI make( const Model& m, const M3& K ) { D2 t( m.p[ 0 ], m.p[ 1 ] ); if( m.n == 2 ) return CI( um3( K ), D2( m.k[ 0 ], m.k[ 1 ] ), t, 640, 480 ); if( m.n == 3 ) return CI( um3( K ), um::Vector< double, 3 >( m.k[ 0 ], m.k[ 1 ], m.k[ 2 ] ), t, 640, 480 ); um::Vector< double, 6 > r; for( int i = 0; i < 6; i++ ) r( i ) = m.k[ i ]; return CI( um3( K ), r, t, 640, 480 ); }
static CF makeF( const Model& m, const M3& K ) { um::Matrix< float, 3, 3 > k; for( int i = 0; i < 9; i++ ) k( i / 3, i % 3 ) = (float)K.m[ i / 3 ][ i % 3 ]; F2 t( m.p[ 0 ], m.p[ 1 ] ); if( m.n == 2 ) return CF( k, F2( m.k[ 0 ], m.k[ 1 ] ), t, 640, 480 ); if( m.n == 3 ) return CF( k, um::Vector< float, 3 >( m.k[ 0 ], m.k[ 1 ], m.k[ 2 ] ), t, 640, 480 ); um::Vector< float, 6 > r; for( int i = 0; i < 6; i++ ) r( i ) = m.k[ i ]; return CF( k, r, t, 640, 480 ); }
static double d2( const D2& a, const D2& b ) { return std::hypot( a( 0 ) - b( 0 ), a( 1 ) - b( 1 ) ); }
static double g_worst = 0, g_worstD = 0;
static void lens( const Model& m, int ki, int sign )
{
	M3 K = kmat( ki, sign ); double f = K.m[ 0 ][ 0 ], cx = sign * K.m[ 0 ][ 2 ], cy = sign * K.m[ 1 ][ 2 ]; CI c = make( m, K ); CF cf = makeF( m, K ); um::Vector< double, 4 > d4; d4( 0 ) = m.k[ 0 ]; d4( 1 ) = m.k[ 1 ]; d4( 2 ) = m.p[ 0 ]; d4( 3 ) = m.p[ 1 ]; bool zero = true; for( double x : m.k ) zero = zero && x == 0; for( double x : m.p ) zero = zero && x == 0;
	std::string info = vc::fmt( "k %g %g %g %g %g %g p %g %g, camera %d sign %d", m.k[ 0 ], m.k[ 1 ], m.k[ 2 ], m.k[ 3 ], m.k[ 4 ], m.k[ 5 ], m.p[ 0 ], m.p[ 1 ], ki, sign ); const char* I = info.c_str(); std::vector< D2 > in, wantOut, inU; std::vector< F2 > inF; int gx = 7, gy = 5;
	for( int i = 0; i < gx * gy; i++ )
	{
		double px = ki == 2 ? -0.45 + 0.15 * ( i % gx ) : 640.0 * ( i % gx ) / ( gx - 1 ), py = ki == 2 ? -0.34 + 0.17 * ( i / gx ) : 480.0 * ( i / gx ) / ( gy - 1 ), y = ( py - cy ) / K.m[ 1 ][ 1 ], x = ( px - cx - K.m[ 0 ][ 1 ] * y ) / K.m[ 0 ][ 0 ], u, v; formula( m, x, y, u, v ); D2 p( px, py ), want( u * K.m[ 0 ][ 0 ] + v * K.m[ 0 ][ 1 ] + cx, v * K.m[ 1 ][ 1 ] + cy ), got( -1, -1 ); cl::distort( c, p, got ); vc::state(); vc::step(); VC_CHECK( d2( got, want ) < 1e-9 * ( 1 + f ), "distort", "%s: %g %g -> %g %g, expected %g %g", I, px, py, got( 0 ), got( 1 ), want( 0 ), want( 1 ) ); if( zero ) VC_CHECK( d2( got, p ) < 1e-10 * ( 1 + f ), "zero-distort", "%s", I );
		D2 same( px, py ); cl::distort( c, same, same ); VC_CHECK( d2( same, got ) == 0, "distort-in-place", "%s", I ); F2 pf( px, py ), gf( -1, -1 ); cl::distort( cf, pf, gf ); VC_CHECK( std::hypot( gf( 0 ) - want( 0 ), gf( 1 ) - want( 1 ) ) < 2e-5 * ( f + 500 ), "distort-float", "%s: %g %g", I, gf( 0 ) - want( 0 ), gf( 1 ) - want( 1 ) );
		if( m.n == 2 ) { D2 old = ua::lensDistort( p, d4, um3( K ) ); VC_CHECK( d2( old, want ) < 1e-9 * ( 1 + f ), "distort-old", "%s", I ); for( double z : { 1.0, -2.5, 40.0 } ) { D2 pr = ua::projectWithDistortion( um::Vector< double, 3 >( x * z, y * z, z ), d4, um3( K ) ); D2 wp( ( u * K.m[ 0 ][ 0 ] + v * K.m[ 0 ][ 1 ] + K.m[ 0 ][ 2 ] ) / K.m[ 2 ][ 2 ], ( v * K.m[ 1 ][ 1 ] + K.m[ 1 ][ 2 ] ) / K.m[ 2 ][ 2 ] ); VC_CHECK( d2( pr, wp ) < 1e-9 * ( 1 + f ), "project", "%s at depth %g", I, z ); } }
		in.push_back( p ); wantOut.push_back( got ); inF.push_back( pf );
		// both directions of the inverse, where the lens model can be inverted
		double w = stretch( m, x * 1.3, y * 1.3 ); if( w < 0.4 ) continue; vc::outcome( vc::fmt( "invertible %d", (int)( w * 5 ) ) ); D2 back( -1, -1 ), un( -1, -1 ), fwd( -1, -1 ); cl::undistort( c, want, back ); double tol = 1e-4 * f; vc::step( 2 ); double e = d2( back, p ); g_worst = std::max( g_worst, e / f ); VC_CHECK( e < tol, "undistort", "%s: %g %g -> %g %g -> %g %g, off by %g", I, px, py, want( 0 ), want( 1 ), back( 0 ), back( 1 ), e );
		cl::undistort( c, p, un ); cl::distort( c, un, fwd ); double e2 = d2( fwd, p ); g_worstD = std::max( g_worstD, e2 / f ); if( stretch( m, x * 2, y * 2 ) >= 0.4 ) VC_CHECK( e2 < tol, "undistort-distort", "%s: %g %g -> %g %g -> %g %g, off by %g", I, px, py, un( 0 ), un( 1 ), fwd( 0 ), fwd( 1 ), e2 ); if( zero ) VC_CHECK( d2( un, p ) < 1e-10 * ( 1 + f ), "zero-undistort", "%s", I );
		D2 si( want ); cl::undistort( c, si, si ); VC_CHECK( d2( si, back ) == 0, "undistort-in-place", "%s", I ); F2 bf( -1, -1 ); cl::undistort( cf, F2( want( 0 ), want( 1 ) ), bf ); VC_CHECK( std::hypot( bf( 0 ) - p( 0 ), bf( 1 ) - p( 1 ) ) < 3 * tol + 1e-4 * ( f + 500 ), "undistort-float", "%s: off by %g", I, std::hypot( bf( 0 ) - p( 0 ), bf( 1 ) - p( 1 ) ) );
		if( m.n == 2 ) { D2 uo = ua::lensUnDistort( want, d4, um3( K ) ); VC_CHECK( d2( uo, p ) < tol, "undistort-old", "%s: off by %g", I, d2( uo, p ) ); um::Vector< float, 4 > d4f; for( int k = 0; k < 4; k++ ) d4f( k ) = d4( k ); um::Matrix< float, 3, 3 > Kf; for( int k = 0; k < 9; k++ ) Kf( k / 3, k % 3 ) = K.m[ k / 3 ][ k % 3 ]; F2 of = ua::lensDistort( pf, d4f, Kf ), uf = ua::lensUnDistort( of, d4f, Kf ); VC_CHECK( std::hypot( of( 0 ) - want( 0 ), of( 1 ) - want( 1 ) ) < 2e-5 * ( f + 500 ) && std::hypot( uf( 0 ) - p( 0 ), uf( 1 ) - p( 1 ) ) < 3 * tol + 1e-4 * ( f + 500 ), "old-float", "%s", I ); }
		inU.push_back( want );
	}
	// the principal point stays
	D2 c0( cx, cy ), c1( -1, -1 ), c2( -1, -1 ); cl::distort( c, c0, c1 ); cl::undistort( c, c0, c2 ); VC_CHECK( d2( c0, c1 ) < 1e-9 * ( 1 + f ) && d2( c0, c2 ) < 1e-9 * ( 1 + f ), "principal-point", "%s", I );
	// batch variants of all prefix lengths
	for( size_t n : { (size_t)0, (size_t)1, (size_t)2, in.size() } ) { std::vector< D2 > a( in.begin(), in.begin() + n ), o( n, D2( -5, -5 ) ); cl::distort( c, a, o ); VC_CHECK( o.size() == n, "batch-size", "%s", I ); for( size_t i = 0; i < n; i++ ) VC_CHECK( d2( o[ i ], wantOut[ i ] ) == 0 && d2( a[ i ], in[ i ] ) == 0, "batch-distort", "%s point %zu of %zu", I, i, n ); cl::distort( c, a, a ); for( size_t i = 0; i < n; i++ ) VC_CHECK( d2( a[ i ], wantOut[ i ] ) == 0, "batch-in-place", "%s", I ); n = std::min( n, inU.size() ); std::vector< D2 > b( inU.begin(), inU.begin() + n ), q( n, D2( -5, -5 ) ); cl::undistort( c, b, q ); for( size_t i = 0; i < n; i++ ) { D2 s( -1, -1 ); cl::undistort( c, inU[ i ], s ); VC_CHECK( d2( q[ i ], s ) == 0, "batch-undistort", "%s point %zu of %zu", I, i, n ); } vc::step( 3 ); }
	for( size_t n : { (size_t)0, (size_t)1, inF.size() } ) { std::vector< F2 > a( inF.begin(), inF.begin() + n ), o( n, F2( -5, -5 ) ), back( n, F2( -5, -5 ) ); cl::distort( cf, a, o ); cl::undistort( cf, a, back ); vc::step( 2 ); for( size_t i = 0; i < n; i++ ) { F2 s( -1, -1 ), u( -1, -1 ); cl::distort( cf, inF[ i ], s ); cl::undistort( cf, inF[ i ], u ); auto same = []( float x, float y ) { return x == y || ( x != x && y != y ); }; VC_CHECK( o[ i ]( 0 ) == s( 0 ) && o[ i ]( 1 ) == s( 1 ), "batch-distort-float", "%s point %zu of %zu", I, i, n ); VC_CHECK( same( back[ i ]( 0 ), u( 0 ) ) && same( back[ i ]( 1 ), u( 1 ) ), "batch-undistort-float", "%s point %zu of %zu", I, i, n ); } cl::distort( cf, a, a ); for( size_t i = 0; i < n; i++ ) VC_CHECK( a[ i ]( 0 ) == o[ i ]( 0 ) && a[ i ]( 1 ) == o[ i ]( 1 ), "batch-in-place-float", "%s point %zu", I, i ); }
	// copies and conversions keep everything
	CI cc( c ), ca; ca = c; for( const CI* x : { &cc, &ca } ) { bool same = x->calib_type == c.calib_type && x->radial_size == c.radial_size && x->dimension( 0 ) == 640 && x->dimension( 1 ) == 480; for( int i = 0; i < 9; i++ ) same = same && x->matrix( i / 3, i % 3 ) == K.m[ i / 3 ][ i % 3 ]; for( int i = 0; i < 6; i++ ) same = same && x->radial_params( i ) == m.k[ i ]; for( int i = 0; i < 2; i++ ) same = same && x->tangential_params( i ) == m.p[ i ]; VC_CHECK( same, "copy", "%s", I ); } VC_CHECK( c.radial_size == (size_t)m.n && CI::radial( c.calib_type ) == (size_t)m.n && CI::tangential( c.calib_type ) == 2, "size", "%s: %zu", I, (size_t)c.radial_size ); auto type = c.calib_type; cc.calib_type = CI::UNKNOWN; cc.reset(); VC_CHECK( cc.calib_type == type, "type", "%s", I );
	CI fl( c ); fl.flipHandiness( fl ); M3 Kn = kmat( ki, -sign ); VC_CHECK( maxDiff( m3( fl.matrix ), Kn ) == 0, "flip", "%s", I ); for( size_t i = 0; i < in.size(); i += 4 ) { D2 o( -1, -1 ); cl::distort( fl, in[ i ], o ); VC_CHECK( d2( o, wantOut[ i ] ) < 1e-9 * ( 1 + f ), "flip-distort", "%s", I ); } fl.flipHandiness( fl ); VC_CHECK( maxDiff( m3( fl.matrix ), K ) == 0, "flip-twice", "%s", I );
	um::Vector< double, 6 > r6; for( int i = 0; i < 6; i++ ) r6( i ) = m.k[ i ]; CI gen( um::Vector< int, 2 >( 640, 480 ), um3( K ), m.n, r6, D2( m.p[ 0 ], m.p[ 1 ] ) ); VC_CHECK( gen.calib_type == c.calib_type && gen.radial_size == c.radial_size, "general-type", "%s", I ); VC_CHECK( gen.dimension( 0 ) == 640 && gen.dimension( 1 ) == 480, "general-dimension", "%zu x %zu", (size_t)gen.dimension( 0 ), (size_t)gen.dimension( 1 ) ); for( size_t i = 0; i < in.size(); i += 4 ) { D2 o( -1, -1 ); cl::distort( gen, in[ i ], o ); VC_CHECK( d2( o, wantOut[ i ] ) == 0, "general-distort", "%s", I ); }
}
static void angles()
{
	for( double fx : { 300., 640., 1500. } ) for( double fy : { 310., 640., 1400. } ) for( size_t w : { 320, 640, 1920 } ) for( size_t h : { 240, 640, 1080 } ) { M3 K = {}; K.m[ 0 ][ 0 ] = fx; K.m[ 1 ][ 1 ] = fy; K.m[ 0 ][ 2 ] = -(double)w / 2; K.m[ 1 ][ 2 ] = -(double)h / 2; K.m[ 2 ][ 2 ] = -1; CI c( um3( K ), D2( 0, 0 ), D2( 0, 0 ), w, h ); double a = 360 / PI; vc::state(); vc::step( 3 ); VC_NEAR( c.angleHorizontal(), a * std::atan( w / 2 / fx * 1.0 ), 1e-9, "angle-horizontal", "%g %zu", fx, w ); VC_NEAR( c.angleVertical(), a * std::atan( h / 2 / fy ), 1e-9, "angle-vertical", "%g %zu", fy, h ); VC_NEAR( c.angleDiagonal(), a * std::atan( std::hypot( w / fx, h / fy ) / 2 ), 1e-6, "angle-diagonal", "%g %g, %zu x %zu", fx, fy, w, h ); }
	// fish-eye data are kept, the coefficients it does not use are zero
	for( int i = 0; i < 16; i++ ) { alignas( CI ) unsigned char mem[ sizeof( CI ) ]; for( size_t k = 0; k < sizeof mem; k++ ) mem[ k ] = i % 2 ? 0x55 : 0xc3; um::Vector< double, 4 > r; for( int k = 0; k < 4; k++ ) r( k ) = i >> k & 1 ? 0.1 * ( k + 1 ) : -0.02; CI* c = new( mem ) CI( um3( kmat( 0, -1 ) ), r, 640, 480 ); vc::state(); bool ok = c->radial_size == 4 && c->calib_type == CI::OPENCV_4_0_FISHEYE && CI::radial( c->calib_type ) == 4 && CI::tangential( c->calib_type ) == 0 && c->dimension( 0 ) == 640 && c->dimension( 1 ) == 480; for( int k = 0; k < 4; k++ ) ok = ok && c->radial_params( k ) == r( k ); VC_CHECK( ok, "fisheye", "data lost" ); VC_CHECK( c->radial_params( 4 ) == 0 && c->radial_params( 5 ) == 0 && c->tangential_params( 0 ) == 0 && c->tangential_params( 1 ) == 0, "fisheye-unused", "coefficient %g %g", c->radial_params( 4 ), c->radial_params( 5 ) ); c->calib_type = CI::UNKNOWN; c->reset(); VC_CHECK( c->calib_type == CI::OPENCV_4_0_FISHEYE, "fisheye-type", "" ); c->~CI(); }
	for( size_t n : { 0, 1, 5, 7 } ) { CI u( um3( kmat( 0, -1 ) ), D2( 0.1, 0 ), D2( 0, 0 ), 640, 480 ); u.radial_size = n; u.reset(); VC_CHECK( u.calib_type == CI::UNKNOWN, "unknown-type", "%zu coefficients", n ); }
	{ um::Vector< double, 2 > r2( 0.1, 0 ), t2( 0, 0.01 ); um::Vector< double, 3 > r3( 0.1, 0, 0 ); um::Vector< double, 4 > r4; um::Vector< double, 6 > r6; for( int i = 0; i < 6; i++ ) { r6( i ) = 0.01 * i; if( i < 4 ) r4( i ) = 0.02; } CI n[] = { CI( um3( kmat( 0, -1 ) ), r2, t2 ), CI( um3( kmat( 0, -1 ) ), r3, t2 ), CI( um3( kmat( 0, -1 ) ), r6, t2 ), CI( um3( kmat( 0, -1 ) ), r4 ) }; for( const CI& c : n ) { vc::state(); VC_CHECK( c.dimension( 0 ) == 0 && c.dimension( 1 ) == 0, "no-resolution", "%zu coefficients: %zu x %zu", (size_t)c.radial_size, (size_t)c.dimension( 0 ), (size_t)c.dimension( 1 ) ); }
		// assigned onto calibration data of any other kind, nothing of what was there remains
		std::vector< CI > all( n, n + 4 ); all.push_back( CI() ); all.push_back( CI( um3( kmat( 1, -1 ) ), um::Vector< double, 2 >( -0.2, 0.03 ), um::Vector< double, 2 >( 0.02, 0 ), 640, 480 ) ); all.push_back( CI( um3( kmat( 1, 1 ) ), um::Vector< double, 3 >( 0, 0, 0.3 ), um::Vector< double, 2 >( 0, 0 ), 1, 1080 ) ); all.push_back( CI( um3( kmat( 0, 1 ) ), um::Vector< double, 6 >( r6 * -1. ), um::Vector< double, 2 >( -0.01, 0.02 ), 1920, 1 ) ); all.push_back( CI( um3( kmat( 1, -1 ) ), r4, 800, 600 ) );
		auto equal = []( const CI& a, const CI& b ) { bool ok = a.calib_type == b.calib_type && a.radial_size == b.radial_size; for( int i = 0; i < 2; i++ ) ok = ok && a.dimension( i ) == b.dimension( i ) && a.tangential_params( i ) == b.tangential_params( i ); for( int i = 0; i < 9; i++ ) ok = ok && a.matrix( i / 3, i % 3 ) == b.matrix( i / 3, i % 3 ); for( size_t i = 0; i < 6; i++ ) ok = ok && a.radial_params( i ) == b.radial_params( i ); return ok; };
		for( size_t i = 0; i < all.size(); i++ ) for( size_t j = 0; j < all.size(); j++ ) for( size_t k = 0; k < all.size(); k++ ) { CI c( all[ j ] ); c = all[ k ]; c = all[ i ]; vc::state(); vc::step(); VC_CHECK( equal( c, all[ i ] ), "assign", "data of kind %zu assigned onto kinds %zu and %zu differ from the original", i, j, k ); CI& me = c; c = me; VC_CHECK( equal( c, all[ i ] ), "assign-self", "kind %zu", i ); } }
	CI z; D2 p( 0.3, -0.2 ), o( -1, -1 ); cl::distort( z, p, o ); VC_CHECK( d2( p, o ) < 1e-12 && z.radial_size == 0 && z.calib_type == CI::UNKNOWN && z.dimension( 0 ) == 0 && z.dimension( 1 ) == 0, "default", "" );
}
static void body()
{
	std::vector< double > k1 = { 0, -0.3, 0.2 }, k2 = { 0, 0.1, -0.15 }, k3 = { 0, 0.05 }, p = { 0, 0.01, -0.02 }; if( vc::thorough() ) { k1 = { 0, -0.4, -0.2, -0.05, 0.1, 0.3 }; k2 = { 0, 0.1, 0.3, -0.15 }; k3 = { 0, 0.05, -0.1 }; p = { 0, 0.01, -0.005, -0.02 }; }
	for( int n : { 2, 3, 6 } ) for( double a : k1 ) for( double b : k2 ) for( double c : k3 )
	{
		if( ( n == 2 && c != 0 ) || !vc::next( "%d radial coefficients %g %g %g", n, a, b, c ) ) continue; g_worst = g_worstD = 0; int used = 0;
		for( double t0 : p ) for( double t1 : p ) for( int den = 0; den < ( n == 6 ? 27 : 1 ); den++ ) { Model m = { n, { a, b, c, 0, 0, 0 }, { t0, t1 } }; double v[] = { 0, 0.15, -0.1 }; if( n == 6 ) { m.k[ 3 ] = v[ den % 3 ]; m.k[ 4 ] = v[ den / 3 % 3 ]; m.k[ 5 ] = v[ den / 9 ] / 2; } for( int ki = 0; ki < 4; ki++ ) for( int s : { 1, -1 } ) { used++; if( n == 6 && !vc::thorough() && used % 5 ) continue; lens( m, ki, s ); } }
		VC_OUT( "%d %g %g %g", n, a, b, c ); if( getenv( "VC_SHOW" ) ) fprintf( stderr, "%d %g %g %g: worst %g %g\n", n, a, b, c, g_worst, g_worstD );
	}
	if( vc::next( "opening angles and fish-eye data" ) ) angles();
}
VC_MAIN( body() )
