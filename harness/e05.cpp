// E05: hand-eye calibration recovers the sensor offset from exact motion.
#include "rng.hpp"
#include "ut.hpp"
#include <algorithm>
#include <list>
#include <iostream>
#include <sstream>
#include <utAlgorithm/PoseEstimation6D6D/TsaiLenz.h>
#include <utAlgorithm/PoseEstimation6D6D/DualQuaternion.h>
#include <utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h>
// compiled here so that its random draws are enumerated
#include <utAlgorithm/PoseEstimation6D6D/DataSelection.cpp>
using namespace ut;
namespace um = Ubitrack::Math; namespace pe = Ubitrack::Algorithm::PoseEstimation6D6D;
struct T6 { M3 R; V3 t; };
static T6 operator*( const T6& a, const T6& b ) { return { mul( a.R, b.R ), add( mul( a.R, b.t ), a.t ) }; }
static T6 inv( const T6& a ) { M3 r = trans( a.R ); return { r, mulS( mul( r, a.t ), -1 ) }; }
static double d6( const T6& a, const T6& b ) { return std::max( maxDiff( a.R, b.R ), dist( a.t, b.t ) ); }
static T6 of( const Pose& p ) { return { matOf( p.rotation() ), fromU( p.translation() ) }; }
// unit quaternion of a rotation matrix by its largest component
static Q quat( const M3& R, int sg )
{
	double q[ 4 ], c[ 4 ]; c[ 0 ] = 1 + R.m[ 0 ][ 0 ] + R.m[ 1 ][ 1 ] + R.m[ 2 ][ 2 ]; for( int i = 0; i < 3; i++ ) c[ i + 1 ] = 1 + 2 * R.m[ i ][ i ] - traceOf( R ); int b = 0; for( int i = 1; i < 4; i++ ) if( c[ i ] > c[ b ] ) b = i; double s = std::sqrt( c[ b ] ) * 2;
	q[ 0 ] = s / 4; double v[ 3 ] = { R.m[ 2 ][ 1 ] - R.m[ 1 ][ 2 ], R.m[ 0 ][ 2 ] - R.m[ 2 ][ 0 ], R.m[ 1 ][ 0 ] - R.m[ 0 ][ 1 ] };
	if( b == 0 ) for( int i = 0; i < 3; i++ ) q[ i + 1 ] = v[ i ] / s; else { int k = b - 1; q[ 0 ] = v[ k ] / s; for( int i = 0; i < 3; i++ ) q[ i + 1 ] = i == k ? s / 4 : ( R.m[ i ][ k ] + R.m[ k ][ i ] ) / s; }
	return Q( sg * q[ 1 ], sg * q[ 2 ], sg * q[ 3 ], sg * q[ 0 ] );
}
static Pose pose( const T6& a, int sg = 1 ) { return Pose( quat( a.R, sg ), u3( a.t ) ); }
template< class T > static um::Matrix< T, 4, 4 > m44( const T6& a ) { um::Matrix< T, 4, 4 > m; for( int i = 0; i < 4; i++ ) for( int j = 0; j < 4; j++ ) m( i, j ) = (T)( i == 3 ? j == 3 : j == 3 ? a.t[ i ] : a.R.m[ i ][ j ] ); return m; }
struct Motion { const char* name; std::vector< T6 > p; bool half; };
static std::vector< Motion > motions()
{
	auto t = []( double ax, double ay, double az, double ang, double x, double y, double z ) { return T6{ rodrigues( v3( ax, ay, az ), ang ), v3( x, y, z ) }; }; T6 I = t( 0, 0, 1, 0, 0, 0, 0 );
	return { { "two quarter turns", { I, t( 1, 0, 0, PI / 2, 0, 0, 0 ), t( 0, 1, 0, PI / 2, 0, 0, 0 ) }, false }, { "general", { t( 1, 2, 3, 0.8, 0.5, 0.1, -0.3 ), t( -1, 0.5, 2, 1.3, 0.2, -0.4, 0.6 ), t( 0.3, -1, 1, -0.9, -0.5, 0.3, 0.1 ), t( 2, 0, 1, 2.1, 0.1, 0.1, 0.9 ) }, false },
		{ "large translations", { t( 1, 0, 0, 0.4, 100, 20, -30 ), t( 0, 1, 0, 0.5, -40, 60, 10 ), t( 0, 0, 1, -0.6, 5, -80, 70 ), t( 1, 1, 1, 1, 0, 0, 0 ) }, false }, { "half turns", { I, t( 1, 0, 0, PI, 0.3, 0.1, 0.2 ), t( 0, 1, 0, PI / 2, -0.2, 0.5, 0 ), t( 0, 0, 1, 1, 0.7, 0, 0 ) }, true }, { "nearly full turns", { t( 1, 0, 0, 3.0, 0.1, 0.2, 0.3 ), t( 0, 1, 0, 3.1, 0.4, 0, 0.2 ), t( 0, 1, 1, -2.9, 0, 0.3, 0.5 ), t( 1, 0, 1, 2.5, 0.6, 0.1, 0 ) }, false },
		{ "repeated poses", { I, I, t( 1, 0, 0, 1.2, 0.3, 0.1, 0.2 ), t( 0, 1, 0, 1.2, 0, 0, 0 ), t( 1, 0, 0, 1.2, 0.3, 0.1, 0.2 ) }, false },
		{ "seven poses", { I, t( 1, 0, 0, 0.7, 0.1, 0, 0 ), t( 0, 1, 0, 0.8, 0, 0.2, 0 ), t( 0, 0, 1, 0.9, 0, 0, 0.3 ), t( 1, 1, 0, 1.1, 0.1, 0.1, 0 ), t( 0, 1, -1, 1.3, 0.2, 0, 0.4 ), t( 1, -1, 1, 1.7, 0, 0.5, 0.1 ) }, false } };
}
static bool halfPair( const std::vector< T6 >& p ) { for( size_t i = 0; i < p.size(); i++ ) for( size_t j = 0; j < i; j++ ) if( PI - rotDist( p[ i ].R, p[ j ].R ) < 0.02 ) return true; return false; }
struct Quiet { std::ostringstream s; std::streambuf* o; Quiet() : o( std::cout.rdbuf( s.rdbuf() ) ) {} ~Quiet() { std::cout.rdbuf( o ); } };
static void body()
{
	auto rl = rotLattice( vc::pick( 0, 1 ) ); V3 ts[] = { v3( 0, 0, 0 ), v3( 0.1, -0.2, 0.3 ), v3( 30, -5, 12 ) }; size_t run = 0;
	for( auto& m : motions() ) for( auto& q : rl ) for( auto& tx : ts )
	{
		run++; if( !vc::next( "motion %s, offset turned %s shifted %s", m.name, str( q ).c_str(), str( tx ).c_str() ) ) continue; Quiet quiet; T6 X = { q.R, tx }, Z = { rodrigues( v3( 0.4, -1, 0.2 ), 0.9 ), v3( 1, 2, -0.5 ) }; int n = m.p.size(); double mag = 1 + norm( tx ); for( auto& p : m.p ) mag = std::max( mag, norm( p.t ) );
		// hand_i X eye_i is constant
		std::vector< T6 > hand = m.p, eye; for( auto& h : hand ) eye.push_back( inv( X ) * inv( h ) * Z );
		if( !halfPair( hand ) && PI - std::fabs( std::remainder( q.angle, 2 * PI ) ) > 0.02 ) for( int all = 0; all < 2; all++ )
		{
			std::vector< Pose > h, e; std::vector< um::Matrix< double, 4, 4 > > hd, ed; std::vector< um::Matrix< float, 4, 4 > > hf, ef;
			for( int i = 0; i < n; i++ ) { int s = ( run >> i & 1 ) ? -1 : 1; h.push_back( pose( hand[ i ], s ) ); e.push_back( pose( eye[ i ], i % 2 ? -s : s ) ); hd.push_back( m44< double >( hand[ i ] ) ); ed.push_back( m44< double >( eye[ i ] ) ); hf.push_back( m44< float >( hand[ i ] ) ); ef.push_back( m44< float >( eye[ i ] ) ); }
			Pose a = pe::performHandEyeCalibration( h, e, all == 1 ), b = pe::performHandEyeCalibration( hd, ed, all == 1 ); vc::state(); vc::step( 2 ); double tol = 1e-7 * mag; VC_CHECK( d6( of( a ), X ) < tol, "tsai-lenz", "%s pairs: off by %g", all ? "all" : "adjacent", d6( of( a ), X ) ); VC_CHECK( d6( of( b ), X ) < tol, "tsai-lenz-matrices", "%s pairs: off by %g", all ? "all" : "adjacent", d6( of( b ), X ) );
			if( mag < 50 && PI - std::fabs( std::remainder( q.angle, 2 * PI ) ) > 0.3 ) { Pose f = pe::performHandEyeCalibration( hf, ef, all == 1 ); VC_CHECK( d6( of( f ), X ) < 5e-3 * mag, "tsai-lenz-float", "%s pairs: off by %g", all ? "all" : "adjacent", d6( of( f ), X ) ); }
			// any order of the poses
			std::vector< int > o( n ); for( int i = 0; i < n; i++ ) o[ i ] = i; int c = 0; if( n <= 4 ) do { if( c++ % vc::pick( 5, 1 ) || !all ) continue; std::vector< Pose > ho, eo; for( int i : o ) { ho.push_back( h[ i ] ); eo.push_back( e[ i ] ); } Pose w = pe::performHandEyeCalibration( ho, eo, true ); vc::step(); VC_CHECK( d6( of( w ), X ) < tol, "tsai-lenz-order", "order %d: off by %g", c, d6( of( w ), X ) ); } while( std::next_permutation( o.begin(), o.end() ) );
			bool thrown = false; e.pop_back(); try { pe::performHandEyeCalibration( h, e, all == 1 ); } catch( const std::exception& ) { thrown = true; } VC_CHECK( thrown, "tsai-lenz-sizes", "lists of different length accepted" ); for( int w = 0; w < 4; w++ ) { auto a1 = hd, b1 = ed; auto a2 = hf, b2 = ef; ( w % 2 ? a1 : b1 ).pop_back(); ( w % 2 ? a2 : b2 ).pop_back(); thrown = false; try { if( w < 2 ) pe::performHandEyeCalibration( a1, b1, all == 1 ); else pe::performHandEyeCalibration( a2, b2, all == 1 ); } catch( const std::exception& ) { thrown = true; } VC_CHECK( thrown, "tsai-lenz-sizes", "lists of matrices of different length accepted (%d)", w ); }
		}
		// dual quaternions: eye_i X hand_i is constant; all sign patterns of the poses' quaternions
		std::vector< T6 > eye2; for( auto& h : hand ) eye2.push_back( Z * inv( h ) * inv( X ) ); double tol = 1e-7 * mag;
		for( int s = 0; s < 1 << ( 2 * n ); s++ )
		{
			if( n > 3 && ( s * 2654435761u >> 8 ) % ( n > 4 ? vc::pick( 2500, 400 ) : vc::pick( 60, 4 ) ) && s ) continue; std::vector< Pose > h, e; for( int i = 0; i < n; i++ ) { h.push_back( pose( hand[ i ], s >> i & 1 ? -1 : 1 ) ); e.push_back( pose( eye2[ i ], s >> ( i + n ) & 1 ? -1 : 1 ) ); }
			Pose r( Q( 0, 0, 0, 1 ), u3( v3( 77, 7, 7 ) ) ); bool ok = pe::estimatePose6D_6D6D( e, r, h ); vc::state(); vc::step(); VC_CHECK( ok, "dual-quaternion-refused", "signs %x", s ); VC_CHECK( d6( of( r ), X ) < tol, "dual-quaternion", "signs %x: off by %g", s, d6( of( r ), X ) );
			// relative motions as generated, and the same with either sign
			std::vector< um::Vector< double, 8 > > ra( 1 ), rb; ra[ 0 ]( 0 ) = 5; pe::generate_relative_6DPoses( e, ra, true ); pe::generate_relative_6DPoses( h, rb, false ); VC_CHECK( ra[ 0 ]( 0 ) == 5 && (int)ra.size() == n * ( n - 1 ) / 2 + 1 && ra.size() == rb.size() + 1, "relative-count", "%zu", ra.size() ); ra.erase( ra.begin() ); size_t k = 0;
			for( int i = 0; i < n; i++ ) for( int j = i + 1; j < n; j++, k++ ) { T6 a = of( um::pose_cast< Pose >()( ra[ k ] ) ), b = of( um::pose_cast< Pose >()( rb[ k ] ) ); T6 fa = inv( eye2[ j ] ) * eye2[ i ], ga = inv( eye2[ i ] ) * eye2[ j ], fb = hand[ j ] * inv( hand[ i ] ), gb = hand[ i ] * inv( hand[ j ] ); bool f = d6( a, fa ) < tol && d6( b, fb ) < tol, g = d6( a, ga ) < tol && d6( b, gb ) < tol; VC_CHECK( f || g, "relative-value", "pair %d %d", i, j ); }
			if( s % 3 == 0 ) { for( size_t i = 0; i < rb.size(); i++ ) if( ( s + i ) % 2 ) rb[ i ] = rb[ i ] * -1.0; Pose w; VC_CHECK( pe::estimatePose6D_6D6D( ra, w, rb ), "relative-refused", "signs %x", s ); VC_CHECK( d6( of( w ), X ) < tol, "relative", "signs %x: off by %g", s, d6( of( w ), X ) ); vc::step(); }
			// selection of informative motions under every sequence of random draws
			if( s < 2 || n == 7 ) for( size_t sel = 1; sel <= 4; sel++ )
			{
				rng::begin(); rng::P().levels = n > 4 ? 3 : vc::pick( 3, 5 ); long paths = 0;
				do { rng::restart(); std::vector< Pose > eo, ho; vc::dirty(); pe::select_6DPoses( e, h, sel, eo, ho ); vc::state(); vc::step(); VC_CHECK( eo.size() == ho.size() && eo.size() <= sel && eo.size() >= 1, "selection-count", "%zu and %zu of %zu, draws %s", eo.size(), ho.size(), sel, rng::str().c_str() );
					for( size_t i = 0; i < eo.size(); i++ ) { T6 a = of( eo[ i ] ), b = of( ho[ i ] ); VC_CHECK( d6( a * X, X * b ) < tol, "selection-consistent", "selected pair %zu of %zu contradicts the offset by %g, draws %s", i, sel, d6( a * X, X * b ), rng::str().c_str() ); bool in = false; for( int u = 0; u < n; u++ ) for( int v = 0; v < n; v++ ) in = in || d6( a, inv( eye2[ u ] ) * eye2[ v ] ) < tol; VC_CHECK( in, "selection-member", "selected pair %zu is no motion of the data, draws %s", i, rng::str().c_str() ); }
				} while( rng::advance() && ++paths < vc::pick( 40, 2000 ) );
			}
		}
		// incremental calibration, hand_i X eye_i constant, X as the inverse of the estimate
		for( int grow = 0; grow < 2; grow++ )
		{
			std::vector< Pose > h, e; for( int i = 0; i < n; i++ ) { h.push_back( pose( hand[ i ], run >> i & 1 ? -1 : 1 ) ); e.push_back( pose( eye[ i ] ) ); } rng::begin(); rng::P().levels = 3; long paths = 0; 
			do { rng::restart(); pe::HandEyeCalibration< double > c; for( int k = grow ? 3 : n; k <= n; k++ ) { std::vector< Pose > hs( h.begin(), h.begin() + k ), es( e.begin(), e.begin() + k ); Pose r; bool ok = c.estimatePose6D( es, r, hs ); vc::state(); vc::step(); VC_CHECK( ok || k < 7, "incremental-refused", "%d poses, draws %s", k, rng::str().c_str() ); if( ok ) VC_CHECK( d6( of( r ), inv( X ) ) < 100 * tol, "incremental", "%d poses: off by %g, draws %s", k, d6( of( r ), inv( X ) ), rng::str().c_str() ); } } while( rng::advance() && ++paths < vc::pick( 10, 500 ) );
			pe::HandEyeCalibration< double > c; Pose r; std::vector< Pose > two( h.begin(), h.begin() + 2 ), two2( e.begin(), e.begin() + 2 ); rng::begin(); VC_CHECK( !c.estimatePose6D( two2, r, two ), "incremental-few", "two poses accepted" ); std::vector< Pose > less( e.begin(), e.end() - 1 ); if( n > 3 ) VC_CHECK( !c.estimatePose6D( less, r, h ), "incremental-sizes", "lists of different length accepted" );
		}
		VC_OUT( "%s %s %s", m.name, str( q ).c_str(), str( tx ).c_str() );
	}
	// every number of poses
	for( size_t n : sizes( 3, 24, vc::pick( 34, 66 ) ) )
	{
		if( !vc::next( "%zu poses", n ) ) continue; Quiet quiet; T6 Z = { rodrigues( v3( 0.4, -1, 0.2 ), 0.9 ), v3( 1, 2, -0.5 ) };
		for( size_t c = n % 3; c < rl.size(); c += vc::pick( 9, 3 ) ) 
		{
			if( PI - std::fabs( std::remainder( rl[ c ].angle, 2 * PI ) ) < 0.02 ) continue; T6 X = { rl[ c ].R, ts[ ( n + c ) % 2 ] }; std::vector< T6 > hand; for( size_t i = 0; i < n; i++ ) hand.push_back( { rodrigues( spreadPoint( i ), 0.2 + 0.9 * ( i % 7 ) / 7 ), mulS( spreadPoint( i + 5 ), 0.8 ) } ); if( halfPair( hand ) ) continue; std::vector< Pose > h, e, e2; for( size_t i = 0; i < n; i++ ) { int s = ( i * n ) % 3 ? 1 : -1; h.push_back( pose( hand[ i ], s ) ); e.push_back( pose( inv( X ) * inv( hand[ i ] ) * Z, i % 2 ? -s : s ) ); e2.push_back( pose( Z * inv( hand[ i ] ) * inv( X ), i % 3 ? s : -s ) ); }
			for( int all = 0; all < 2; all++ ) { Pose a = pe::performHandEyeCalibration( h, e, all == 1 ); vc::state(); vc::step(); VC_CHECK( d6( of( a ), X ) < 1e-6, "tsai-lenz-many", "%zu poses, %s pairs: off by %g", n, all ? "all" : "adjacent", d6( of( a ), X ) ); }
			Pose r; VC_CHECK( pe::estimatePose6D_6D6D( e2, r, h ), "dual-quaternion-refused", "%zu poses", n ); vc::step(); VC_CHECK( d6( of( r ), X ) < 1e-6, "dual-quaternion-many", "%zu poses: off by %g", n, d6( of( r ), X ) );
			if( n <= 12 && c < 9 ) { rng::begin(); rng::restart(); pe::HandEyeCalibration< double > hc; for( size_t k = 3; k <= n; k++ ) { std::vector< Pose > hs( h.begin(), h.begin() + k ), es( e.begin(), e.begin() + k ); Pose w; bool ok = hc.estimatePose6D( es, w, hs ); vc::step(); if( ok ) VC_CHECK( d6( of( w ), inv( X ) ) < 1e-5, "incremental-many", "%zu poses: off by %g", k, d6( of( w ), inv( X ) ) ); else VC_CHECK( k < 7, "incremental-refused", "%zu poses", k ); } }
		}
		VC_OUT( "%zu poses", n );
	}
	// the same motions in other units of length
	for( size_t n = 3; n < 9; n++ ) for( double f : { 1e-6, 1e-3, 30.0, 1e3, 1e5 } )
	{
		if( !vc::next( "%zu poses, unit %g", n, f ) ) continue; Quiet quiet; T6 Z = { rodrigues( v3( 0.4, -1, 0.2 ), 0.9 ), mulS( v3( 1, 2, -0.5 ), f ) };
		for( size_t c = n % 3; c < rl.size(); c += 3 )
		{
			if( PI - std::fabs( std::remainder( rl[ c ].angle, 2 * PI ) ) < 0.02 ) continue; T6 X = { rl[ c ].R, mulS( ts[ ( n + c ) % 2 ], f ) }; std::vector< T6 > hand; for( size_t i = 0; i < n; i++ ) hand.push_back( { rodrigues( spreadPoint( i ), 0.2 + 0.9 * ( i % 7 ) / 7 ), mulS( spreadPoint( i + 5 ), 0.8 * f ) } ); if( halfPair( hand ) ) continue; std::vector< Pose > h, e, e2; for( size_t i = 0; i < n; i++ ) { h.push_back( pose( hand[ i ], 1 ) ); e.push_back( pose( inv( X ) * inv( hand[ i ] ) * Z, i % 2 ? -1 : 1 ) ); e2.push_back( pose( Z * inv( hand[ i ] ) * inv( X ), i % 3 ? 1 : -1 ) ); }
			auto judge = [&]( const Pose& g, const char* key ) { vc::state(); vc::step(); VC_CHECK( maxDiff( matOf( g.rotation() ), X.R ) < 1e-6 && dist( fromU( g.translation() ), X.t ) < 1e-6 * f * 10, key, "%zu poses, unit %g: off by %g and %g units", n, f, maxDiff( matOf( g.rotation() ), X.R ), dist( fromU( g.translation() ), X.t ) / f ); };
			for( int all = 0; all < 2; all++ ) judge( pe::performHandEyeCalibration( h, e, all == 1 ), "tsai-lenz-units" ); Pose r; VC_CHECK( pe::estimatePose6D_6D6D( e2, r, h ), "dual-quaternion-units-refused", "%zu poses, unit %g", n, f ); judge( r, "dual-quaternion-units" );
		}
		VC_OUT( "units %zu %g", n, f );
	}
	// every representation of a pose holds the same pose
	for( auto& q : rl ) for( auto& tx : ts ) for( int sg = -1; sg < 2; sg += 2 )
	{
		if( !vc::next( "representations of %s shifted %s, sign %d", str( q ).c_str(), str( tx ).c_str(), sg ) ) continue; vc::state(); T6 X = { q.R, tx }; Pose p = pose( X, sg ); double tol = 1e-7 * ( 1 + norm( tx ) ), ftol = 2e-3 * ( 1 + norm( tx ) );
		auto v6 = um::pose_cast< um::Vector< double, 6 > >()( p ); auto v7 = um::pose_cast< um::Vector< double, 7 > >()( p ); auto v8 = um::pose_cast< um::Vector< double, 8 > >()( p ); auto f6 = um::pose_cast< um::Vector< float, 6 > >()( p ); auto f8 = um::pose_cast< um::Vector< float, 8 > >()( p ); um::Vector< double, 4 > aa; for( int i = 0; i < 4; i++ ) aa( i ) = v7( i ); vc::step( 8 );
		auto same = [ & ]( const Pose& r, double t, const char* what ) { VC_CHECK( d6( of( r ), X ) < t, "representation", "%s: off by %g", what, d6( of( r ), X ) ); }; um::pose_cast< Pose > back;
		same( back( v6 ), tol, "rotation vector" ); same( Pose( um::Util::RotationCast< Q >()( aa ), u3( v3( v7( 4 ), v7( 5 ), v7( 6 ) ) ) ), tol, "axis and angle" ); same( back( v8 ), tol, "dual quaternion" ); same( back( um::pose_cast< um::Vector< double, 6 > >()( v8 ) ), tol, "dual quaternion as rotation vector" ); same( back( f6 ), ftol, "float rotation vector" ); same( back( f8 ), ftol, "float dual quaternion" );
		same( back( um::hemisphere_alignment< um::Vector< double, 6 >, true >()( v6 ) ), tol, "aligned" ); auto c = pe::DataSelection< double >()( p ); same( back( c ), tol, "aligned for comparison" ); VC_CHECK( std::sqrt( c( 0 ) * c( 0 ) + c( 1 ) * c( 1 ) + c( 2 ) * c( 2 ) ) < PI + 1e-9, "hemisphere", "more than a half turn" ); VC_OUT( "%d %s", sg, str( q ).c_str() );
	}
	// fewer different motions than asked for
	for( auto& q : rl ) { if( !vc::next( "few different motions, offset turned %s", str( q ).c_str() ) ) continue; T6 X = { q.R, v3( 0.2, 0.1, -0.4 ) }, I = { ident(), v3( 0, 0, 0 ) }, A = { rodrigues( v3( 1, 2, 2 ), 0.9 ), v3( 0.1, 0.5, 0.3 ) }; for( int n = 4; n <= 6; n++ ) for( int at = 0; at <= n; at++ ) for( int plain = 0; plain < 2; plain++ ) { if( plain ) { X = I; A = { { { { -1, 0, 0 }, { 0, -1, 0 }, { 0, 0, 1 } } }, v3( 1, 2, 4 ) }; } std::vector< Pose > h, e; for( int i = 0; i < n; i++ ) { T6 p = i == at ? A : I; h.push_back( pose( p ) ); e.push_back( pose( inv( p ) * inv( X ) ) ); }
		for( size_t sel = 1; sel <= 5; sel++ ) { rng::begin(); rng::P().levels = 3; do { rng::restart(); std::vector< Pose > eo, ho; vc::dirty(); pe::select_6DPoses( e, h, sel, eo, ho ); vc::state(); vc::step(); VC_CHECK( eo.size() == ho.size() && eo.size() <= sel && eo.size() >= 1, "few-count", "%zu and %zu of %zu", eo.size(), ho.size(), sel ); for( size_t i = 0; i < eo.size(); i++ ) { T6 a = of( eo[ i ] ), b = of( ho[ i ] ), j = inv( A ); VC_CHECK( d6( a * X, X * b ) < 1e-7 && ( d6( b, I ) < 1e-7 || d6( b, A ) < 1e-7 || d6( b, j ) < 1e-7 ), "few-member", "selected pair %zu of %zu is no motion of the data, draws %s", i, eo.size(), rng::str().c_str() ); if( plain ) for( size_t k = 0; k < i; k++ ) VC_CHECK( d6( b, of( ho[ k ] ) ) > 1e-7, "few-twice", "pairs %zu and %zu are the same motion, draws %s", k, i, rng::str().c_str() ); } } while( rng::advance() ); } } VC_OUT( "few %s", str( q ).c_str() ); }
	// parallel axes do not determine the offset
	for( auto& q : rl ) { if( !vc::next( "parallel axes, offset turned %s", str( q ).c_str() ) ) continue; Quiet quiet; T6 X = { q.R, v3( 0.2, 0.1, -0.4 ) }; std::vector< Pose > h, e; for( int i = 0; i < 4; i++ ) { T6 p = { rodrigues( v3( 1, 2, 2 ), 0.5 * i ), v3( 0.1 * i, 0, 0.3 ) }; h.push_back( pose( p ) ); e.push_back( pose( inv( p ) * inv( X ) ) ); } Pose r; vc::state(); vc::step(); VC_CHECK( !pe::estimatePose6D_6D6D( e, r, h ), "degenerate", "parallel axes accepted" ); VC_OUT( "parallel %s", str( q ).c_str() ); }
}
VC_MAIN( body() )
