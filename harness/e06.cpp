// E06: tool-tip calibration finds the fixed point of the motion.
#include "rng.hpp"
#include "ut.hpp"
#include <algorithm>
#include <utAlgorithm/ToolTip/TipCalibration.h>
#include <utAlgorithm/ToolTip/LeastSquare.h>
#include <utAlgorithm/ToolTip/Optimization.h>
#include <utMath/Optimization/Ransac.h>
#include <utAlgorithm/ToolTip/Ransac.h>
using namespace ut;
namespace um = Ubitrack::Math; namespace tt = Ubitrack::Algorithm::ToolTip;
typedef um::Vector< double, 3 > VD; typedef um::Vector< float, 3 > VF;
static int g_n = 3, g_call = 0; static unsigned g_lcg = 1;
extern "C" int rand() noexcept { int c = g_call++; if( c < g_n - 1 ) return rng::choose( c + 2 ); g_lcg = g_lcg * 1664525u + 1013904223u; return (int)( g_lcg >> 8 & 0x7fffff ); }
static V3 fromF( const VF& v ) { return v3( v( 0 ), v( 1 ), v( 2 ) ); }
// poses as matrices: the reference solution and errors are computed from these
struct T { M3 R; V3 t; };
static std::vector< Pose > poses( const std::vector< T >& ts, unsigned signs ) { std::vector< Pose > r; for( size_t i = 0; i < ts.size(); i++ ) { Q q( um3( ts[ i ].R ) ); if( signs >> i & 1 ) q = Q( -q.x(), -q.y(), -q.z(), -q.w() ); r.push_back( Pose( q, u3( ts[ i ].t ) ) ); } return r; }
static double err( const std::vector< T >& ts, const V3& pw, const V3& pm ) { double s = 0; for( auto& x : ts ) { double d = dist( pw, add( mul( x.R, pm ), x.t ) ); s += d * d; } return s; }
static D normal( const std::vector< T >& ts ) { D n( 6, 6 ); for( auto& x : ts ) { D a( 3, 6 ); for( int i = 0; i < 3; i++ ) for( int j = 0; j < 3; j++ ) { a( i, j ) = x.R.m[ i ][ j ]; a( i, 3 + j ) = i == j ? -1 : 0; } n = add( n, mul( trans( a ), a ) ); } return n; }
static double weakest( const std::vector< T >& ts ) { double m = 1e9; for( double e : eigSym( normal( ts ) ) ) m = std::min( m, e ); return m; }
static std::vector< T > orbit( const std::vector< M3 >& rs, const V3& pm, const V3& pw ) { std::vector< T > r; for( auto& R : rs ) r.push_back( { R, sub( pw, mul( R, pm ) ) } ); return r; }
static void verify( const std::vector< T >& ts, const V3& pw, const V3& pm, const V3& gw, const V3& gm, double tol, const char* what )
{
	VC_CHECK( dist( gm, pm ) < tol && dist( gw, pw ) < tol, what, "offset %g %g %g (want %g %g %g), world %g %g %g (want %g %g %g)", gm[ 0 ], gm[ 1 ], gm[ 2 ], pm[ 0 ], pm[ 1 ], pm[ 2 ], gw[ 0 ], gw[ 1 ], gw[ 2 ], pw[ 0 ], pw[ 1 ], pw[ 2 ] );
	for( auto& x : ts ) VC_CHECK( dist( add( mul( x.R, gm ), x.t ), gw ) < 2 * tol, "fixed-point", "%s", what );
}
static void exact( const std::vector< M3 >& rs, const V3& pm, const V3& pw, unsigned signs )
{
	auto ts = orbit( rs, pm, pw ); double mag = 1 + norm( pm ) + norm( pw ), w = weakest( ts ) * 3 / ts.size(), tol = 1e-11 * mag / w; auto ps = poses( ts, signs ); auto keep = ps; VD gw, gm; 
	VC_CHECK( tt::estimatePosition3D_6D( gw, ps, gm ), "refused", "" ); vc::state(); vc::step(); verify( ts, pw, pm, fromU( gw ), fromU( gm ), tol, "linear" );
	VD ow, om; tt::tipCalibration( ps, om, ow ); verify( ts, pw, pm, fromU( ow ), fromU( om ), tol, "old" );
	VD rw, rm; VC_CHECK( tt::estimatePosition3D_6D( rw, ps, rm, um::Optimization::OptTerminate( 20, 1e-9 ) ), "refine-refused", "" ); vc::step(); verify( ts, pw, pm, fromU( rw ), fromU( rm ), 10 * tol, "refined" );
	auto e = tt::estimatePosition3DError_6D( gw, ps, gm ); VC_CHECK( e.first >= 0 && e.first < 2 * tol && e.second >= 0 && e.second < 2 * tol, "error-exact", "%g %g", e.first, e.second );
	VF fw, fm; VC_CHECK( tt::estimatePosition3D_6D( fw, ps, fm ), "refused-float", "" ); verify( ts, pw, pm, fromF( fw ), fromF( fm ), 2e-5 * mag / w, "linear-float" );
	// displaced tips: the reported error is the mean distance and its deviation
	for( int k = 0; k < 3; k++ )
	{
		V3 dw = pw, dm = pm; dw[ k ] += 3; dm[ ( k + 1 ) % 3 ] -= 4; std::vector< double > d; double mean = 0, var = 0; for( auto& x : ts ) { d.push_back( dist( dw, add( mul( x.R, dm ), x.t ) ) ); mean += d.back() / ts.size(); } for( double x : d ) var += ( x - mean ) * ( x - mean ) / ( ts.size() - 1 ); auto g = tt::estimatePosition3DError_6D( VD( u3( dw ) ), ps, VD( u3( dm ) ) ); vc::step(); VC_NEAR( g.first, mean, 1e-9 * mag, "error-mean", "" ); VC_NEAR( g.second, std::sqrt( var ), 1e-7 * mag, "error-deviation", "" );
		auto gf = tt::estimatePosition3DError_6D( VF( dw[ 0 ], dw[ 1 ], dw[ 2 ] ), ps, VF( dm[ 0 ], dm[ 1 ], dm[ 2 ] ) ); VC_NEAR( gf.first, mean, 1e-4 * mag, "error-mean-float", "" ); VC_NEAR( gf.second, std::sqrt( var ), 1e-2 * mag, "error-deviation-float", "" );
	}
	for( size_t i = 0; i < ps.size(); i++ ) VC_CHECK( maxDiff( matOf( ps[ i ].rotation() ), matOf( keep[ i ].rotation() ) ) == 0 && dist( fromU( ps[ i ].translation() ), fromU( keep[ i ].translation() ) ) == 0, "input", "changed" );
}
static void disturbed( const std::vector< M3 >& rs, const V3& pm, const V3& pw )
{
	for( int v = 0; v < 4; v++ )
	{
		auto ts = orbit( rs, pm, pw ); for( size_t i = 0; i < ts.size(); i++ ) if( v < 3 ) ts[ i ].t[ v ] += ( i % 2 ? -0.1 : 0.07 ) * ( 1 + i % 20 ); else if( i == 0 ) ts[ i ].t = add( ts[ i ].t, v3( 0.5, -0.4, 0.3 ) );
		auto ps = poses( ts, 0x2d ); D n = normal( ts ), ni( 6, 6 ), b( 6, 1 ); for( auto& x : ts ) for( int j = 0; j < 3; j++ ) { for( int i = 0; i < 3; i++ ) b( j, 0 ) -= x.R.m[ i ][ j ] * x.t[ i ]; b( 3 + j, 0 ) += x.t[ j ]; } if( !inv( n, ni ) ) return; D s = mul( ni, b ); V3 wm = v3( s( 0, 0 ), s( 1, 0 ), s( 2, 0 ) ), ww = v3( s( 3, 0 ), s( 4, 0 ), s( 5, 0 ) ); double best = err( ts, ww, wm );
		VD gw, gm; VC_CHECK( tt::estimatePosition3D_6D( gw, ps, gm ), "refused-noisy", "" ); vc::state(); vc::step(); double e = err( ts, fromU( gw ), fromU( gm ) ); VC_NEAR( e, best, 1e-9 * ( 1 + best ), "least-squares", "variant %d", v ); VC_CHECK( dist( fromU( gw ), ww ) < 1e-7 && dist( fromU( gm ), wm ) < 1e-7, "least-squares-solution", "variant %d", v );
		VD rw, rm; VC_CHECK( tt::estimatePosition3D_6D( rw, ps, rm, um::Optimization::OptTerminate( 50, 1e-9 ) ), "refine-refused", "" ); double er = err( ts, fromU( rw ), fromU( rm ) ); vc::step(); VC_CHECK( er <= e + 1e-9, "refine-worse", "variant %d: %g -> %g", v, e, er ); VC_CHECK( er <= best + 1e-6, "refine-best", "variant %d: %g, best %g", v, er, best );
		VF fw, fm; VC_CHECK( tt::estimatePosition3D_6D( fw, ps, fm, um::Optimization::OptTerminate( 20, 1e-6 ) ), "refine-refused", "" ); double ef = err( ts, fromF( fw ), fromF( fm ) ); VC_CHECK( ef <= best + 1e-3, "refine-float", "variant %d: %g, best %g", v, ef, best );
	}
}
static void robust( const std::vector< M3 >& all6, const V3& pm, const V3& pw )
{
	for( int n = 5; n <= 6; n++ ) for( int m = 0; m < 1 << n; m++ )
	{
		int k = __builtin_popcount( m ); if( k > n - 4 || ( !vc::thorough() && n == 6 && k == 2 && m % 5 ) ) continue; std::vector< M3 > rs( all6.begin(), all6.begin() + n ); auto ts = orbit( rs, pm, pw ); for( int i = 0; i < n; i++ ) if( m >> i & 1 ) ts[ i ].t = add( ts[ i ].t, v3( 1.5 + i, -2 - 0.3 * i * i, 0.8 * i ) ); auto ps = poses( ts, 0x15 );
		g_n = n; rng::begin(); int ok = 0, all = 0;
		do
		{
			for( size_t runs : { 1, 300 } )
			{
				rng::restart(); g_call = 0; g_lcg = 12345; VD w, o; bool f = tt::estimatePosition3D_6D( w, ps, o, um::Optimization::RansacParameter< double >( 1e-3, (size_t)3, (size_t)( n - k ), (size_t)runs ) ); vc::state(); vc::step(); if( runs == 1 ) { all++; ok += f; } else VC_CHECK( f, "robust-fails", "%d poses, outliers %x, draws %s", n, m, rng::str().c_str() ); if( f ) VC_CHECK( dist( fromU( w ), pw ) < 1e-8 && dist( fromU( o ), pm ) < 1e-8, "robust", "%d poses, outliers %x, %zu runs, draws %s: off by %g %g", n, m, runs, rng::str().c_str(), dist( fromU( w ), pw ), dist( fromU( o ), pm ) );
				if( runs == 1 ) { rng::restart(); g_call = 0; VF wf, of; if( tt::estimatePosition3D_6D( wf, ps, of, um::Optimization::RansacParameter< float >( 1e-2f, (size_t)3, (size_t)( n - k ), (size_t)1 ) ) ) VC_CHECK( dist( fromF( wf ), pw ) < 1e-3 && dist( fromF( of ), pm ) < 1e-3, "robust-float", "off by %g", dist( fromF( wf ), pw ) ); }
			}
		} while( rng::advance() );
		auto c3 = []( int x ) { return x * ( x - 1 ) * ( x - 2 ) / 6; }; VC_CHECK( ok >= 1 && ok * c3( n ) >= all * c3( n - k ), "robust-rate", "%d poses, outliers %x: %d of %d shuffles succeed", n, m, ok, all );
	}
}
static void body()
{
	auto rl = rotLattice( vc::pick( 0, 1 ) ); std::vector< V3 > pms, pws = { v3( 0, 0, 0 ), v3( 1, -2, 3 ), v3( 100, 50, -200 ) }; for( int i = 0; i < 27; i++ ) pms.push_back( v3( ( i % 3 - 1 ) * 0.3, ( i / 3 % 3 - 1 ) * 2.0, ( i / 9 - 1 ) * 0.05 ) ); pms.push_back( v3( 10, 20, -30 ) );
	size_t step = vc::pick( 3, 7 ), count = 0; std::vector< M3 > base; for( size_t i = 0; i < rl.size(); i += step ) base.push_back( rl[ i ].R );
	// every triple of rotations that determines the tip, in every cyclic order
	for( size_t a = 0; a < base.size(); a++ ) { if( !vc::next( "triples with rotation %zu", a ) ) continue; size_t used = 0; for( size_t b = 0; b < base.size(); b++ ) for( size_t c = b + 1; c < base.size(); c++ ) { if( b == a || c == a ) continue; std::vector< M3 > rs = { base[ b ], base[ a ], base[ c ] }; auto ts = orbit( rs, v3( 0, 0, 0 ), v3( 0, 0, 0 ) ); if( weakest( ts ) < 1e-3 ) continue; used++; count++; for( size_t i = count % 7; i < pms.size(); i += 7 ) exact( rs, pms[ i ], pws[ ( count + i ) % 3 ], (unsigned)( count + i ) & 7 ); if( count % 5 == 0 ) disturbed( rs, pms[ count % pms.size() ], pws[ count % 2 ] ); } VC_OUT( "triples %zu: %zu", a, used ); }
	// longer motions: all starts of a walk through the lattice
	for( size_t n : { 4, 5, 8, 20 } ) for( size_t a = 0; a < rl.size(); a++ ) { if( a % ( vc::thorough() ? 1 : 3 ) || !vc::next( "%zu poses from %zu", n, a ) ) continue; std::vector< M3 > rs; for( size_t i = 0; i < n; i++ ) rs.push_back( rl[ ( a + i * ( 3 + n ) ) % rl.size() ].R ); if( weakest( orbit( rs, v3( 0, 0, 0 ), v3( 0, 0, 0 ) ) ) < 1e-3 ) continue; for( size_t i = 0; i < pms.size(); i++ ) exact( rs, pms[ i ], pws[ ( a + i ) % 3 ], (unsigned)( a * 7 + i ) ); disturbed( rs, pms[ a % pms.size() ], pws[ a % 2 ] ); VC_OUT( "%zu poses from %zu", n, a ); }
	// every number of poses
	for( size_t n : sizes( 3, 70, vc::pick( 260, 1030 ) ) ) { if( !vc::next( "%zu well-spread poses", n ) ) continue; std::vector< M3 > rs; for( size_t i = 0; i < n; i++ ) rs.push_back( rodrigues( spreadPoint( i ), 0.3 + 2.5 * ( i % 11 ) / 11 ) ); if( weakest( orbit( rs, v3( 0, 0, 0 ), v3( 0, 0, 0 ) ) ) < 1e-3 ) continue; for( size_t i = n % 9; i < pms.size(); i += 9 ) { exact( rs, pms[ i ], pws[ ( n + i ) % 3 ], (unsigned)( n * 7 + i ) ); if( n < 40 ) disturbed( rs, pms[ i ], pws[ i % 2 ] ); } VC_OUT( "%zu spread", n ); }
	// the same motion in any unit
	for( size_t n = 3; n < 9; n++ ) for( double f : { 1e-9, 1e-6, 1e-4, 1e5, 1e9 } )
	{
		if( !vc::next( "%zu poses, unit %g", n, f ) ) continue; std::vector< M3 > rs; for( size_t i = 0; i < n; i++ ) rs.push_back( rodrigues( spreadPoint( i ), 0.3 + 2.5 * ( i % 11 ) / 11 ) ); if( weakest( orbit( rs, v3( 0, 0, 0 ), v3( 0, 0, 0 ) ) ) < 1e-3 ) continue;
		for( auto& pm0 : pms ) for( int k = 0; k < 2; k++ )
		{
			V3 pm = mulS( pm0, f ), pw = mulS( pws[ k ], f ); auto ts = orbit( rs, pm, pw ); double tol = 1e-8 * f * ( 1 + norm( pm0 ) + norm( pws[ k ] ) ); auto ps = poses( ts, n * 5 + k ); VD gw, gm; VC_CHECK( tt::estimatePosition3D_6D( gw, ps, gm ), "units-refused", "unit %g", f ); vc::state(); vc::step(); verify( ts, pw, pm, fromU( gw ), fromU( gm ), tol, "units" ); VD ow, om; tt::tipCalibration( ps, om, ow ); verify( ts, pw, pm, fromU( ow ), fromU( om ), tol, "units-old" );
			VD dw( u3( add( pw, v3( 3 * f, 0, -4 * f ) ) ) ); auto g = tt::estimatePosition3DError_6D( dw, ps, gm ); VC_NEAR( g.first / f, 5.0, 1e-7 * ( 1 + norm( pm0 ) ), "units-error", "unit %g", f );
		}
		VC_OUT( "units %zu %g", n, f );
	}
	for( size_t i = 0; i < pms.size(); i += vc::pick( 9, 4 ) ) { if( !vc::next( "poses that do not belong, offset %zu", i ) ) continue; std::vector< M3 > six = { axisRot( 0, 0.0 ), axisRot( 0, 0.9 ), axisRot( 1, -1.1 ), axisRot( 2, 0.7 ), mul( axisRot( 0, -0.8 ), axisRot( 1, 0.6 ) ), mul( axisRot( 2, 1.9 ), axisRot( 0, 0.4 ) ) }; robust( six, pms[ i ], pws[ i % 2 ] ); VC_OUT( "outliers %zu", i ); }
}
VC_MAIN( body() )
