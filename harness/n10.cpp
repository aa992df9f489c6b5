// N10: every analytic Jacobian is the derivative of its function; the value is the documented one.
// Oracle: the documented formula written down independently, differentiated numerically (Richardson) along every parameter;
// unit-quaternion parameters along the three directions tangent to the sphere.
#include "ut.hpp"
#include <functional>
#include <utAlgorithm/Function/CameraIntrinsicsMultiplication.h>
#include <utAlgorithm/Function/Dehomogenization.h>
#include <utAlgorithm/Function/LieRotation.h>
#include <utAlgorithm/Function/QuaternionRotation.h>
#include <utAlgorithm/Function/QuaternionRotationError.h>
#include <utAlgorithm/Function/RadialDistortion.h>
#include <utAlgorithm/Function/MultipleCameraProjection.h>
#include <utAlgorithm/Function/MultipleCameraProjectionError.h>
#include <utAlgorithm/Function/MultipleCameraProjectionErrorART.h>
#include <utAlgorithm/Function/MultiplePointProjection.h>
#include <utAlgorithm/Function/MultiplePointProjectionError.h>
#include <utAlgorithm/Function/RotHecFunction.h>
#include <utAlgorithm/Function/SinglePointMultiProjection.h>
#include <utMath/Optimization/Function/LinearFunction.h>
#include <utMath/Optimization/Function/RotationVelocityIntegration.h>
#include <utMath/Optimization/Function/VectorNormalize.h>
#include <utMath/Optimization/Function/DiscreteJacobianApproximation.h>
#include <utAlgorithm/ToolTip/Optimization.h>
#include <utAlgorithm/PoseEstimation3D3D/Optimization.h>
#include <utAlgorithm/PoseEstimation3D3D/CovarianceEstimation.h>
#include <utTracking/Function/LinearTimeUpdate.h>
#include <utTracking/Function/PoseTimeUpdate.h>
#include <utTracking/Function/QuaternionTimeUpdate.h>
#include <utTracking/Function/InsideOutPoseTimeUpdate.h>
#include <utTracking/Function/InvertRotationVelocity.h>
namespace Ubitrack { namespace Algorithm {
// the network the bundle adjustment function works on (declared by its users)
template< class T > struct BundleAdjustmentNetwork
{
	typedef std::vector< Math::Vector< T, 3 > > PointsList; typedef std::vector< Math::Pose > PoseList; typedef std::vector< Math::Matrix< T, 3, 3 > > IntrinsicList; typedef std::vector< Math::Vector< T, 4 > > DistortionList;
	struct FreePointMeasurement { std::size_t iPoint, iCamera, iImage; Math::Vector< T, 2 > measurement; };
	struct BodyPointMeasurement { std::size_t iBody, iPoint, iBodyPose, iCamera, iImage; Math::Vector< T, 2 > measurement; };
	PointsList points; std::vector< PointsList > bodies; PoseList bodyPoses, images; IntrinsicList intrinsics; DistortionList distortions;
	std::vector< FreePointMeasurement > freePointMeasurements; std::vector< BodyPointMeasurement > bodyPointMeasurements; bool bEstimateIntrinsics;
};
} }
#include <utAlgorithm/Function/BundleAdjustment.h>
// both generations of function headers share include guards
#undef __UBITRACK_CALIBRATION_FUNCTION_LIEROTATION_H_INCLUDED__
#undef __UBITRACK_CALIBRATION_FUNCTION_DEHOMOGENIZATION_H_INCLUDED__
#include <utMath/Optimization/NewFunction/Addition.h>
#include <utMath/Optimization/NewFunction/Subtraction.h>
#include <utMath/Optimization/NewFunction/Dehomogenization.h>
#include <utMath/Optimization/NewFunction/LieRotation.h>
#include <utMath/Optimization/NewFunction/LinearTransformation.h>
#include <utMath/Optimization/NewFunction/Function.h>
#undef __UBITRACK_CALIBRATION_FUNCTION_CAMERAINTRINSICSMULTIPLICATION_H_INCLUDED__
#define CameraIntrinsicsMultiplication CameraIntrinsicsMultiplicationOfTwo
#include <utAlgorithm/NewFunction/CameraIntrinsicsMultiplication.h>
#undef CameraIntrinsicsMultiplication
#include <utAlgorithm/MultipleCameraPoseOptimization.h>
using namespace ut;
namespace um = Ubitrack::Math; namespace ua = Ubitrack::Algorithm; namespace uf = Ubitrack::Algorithm::Function; namespace mf = Ubitrack::Math::Optimization::Function; namespace tf = Ubitrack::Tracking::Function;
namespace ublas = boost::numeric::ublas;
typedef std::vector< double > X; typedef std::function< X( const X& ) > F;
typedef um::Vector< double > UV; typedef um::Matrix< double > UM;

static X numDer( const F& f, const X& x, const X& d )
{
	auto at = [&]( double h ) { X a = x, b = x; for( size_t i = 0; i < x.size(); i++ ) { a[ i ] += h * d[ i ]; b[ i ] -= h * d[ i ]; } X p = f( a ), q = f( b ); for( size_t i = 0; i < p.size(); i++ ) p[ i ] = ( p[ i ] - q[ i ] ) / ( 2 * h ); return p; };
	X a = at( 2e-3 ), b = at( 1e-3 ); for( size_t i = 0; i < a.size(); i++ ) b[ i ] = ( 4 * b[ i ] - a[ i ] ) / 3; return b;
}
// directions: unit vectors of the given parameters, quaternion blocks (start index) get their tangent directions
static std::vector< X > dirs( const X& x, const std::vector< int >& quats )
{
	std::vector< X > r; size_t n = x.size(); std::vector< bool > used( n, false );
	for( int s : quats ) { double q[ 4 ] = { x[ s ], x[ s + 1 ], x[ s + 2 ], x[ s + 3 ] }; double t[ 3 ][ 4 ] = { { q[ 3 ], q[ 2 ], -q[ 1 ], -q[ 0 ] }, { -q[ 2 ], q[ 3 ], q[ 0 ], -q[ 1 ] }, { q[ 1 ], -q[ 0 ], q[ 3 ], -q[ 2 ] } }; for( auto& k : t ) { X d( n, 0.0 ); for( int i = 0; i < 4; i++ ) { d[ s + i ] = k[ i ]; used[ s + i ] = true; } r.push_back( d ); } }
	for( size_t i = 0; i < n; i++ ) if( !used[ i ] ) { X d( n, 0.0 ); d[ i ] = 1; r.push_back( d ); } return r;
}
template< class M > static D dm( const M& m ) { D r( m.size1(), m.size2() ); for( size_t i = 0; i < r.r; i++ ) for( size_t j = 0; j < r.c; j++ ) r( i, j ) = m( i, j ); return r; }
template< class V > static X xv( const V& v ) { X r; for( size_t i = 0; i < v.size(); i++ ) r.push_back( v( i ) ); return r; }
static UV uv( const X& x ) { UV v( x.size() ); for( size_t i = 0; i < x.size(); i++ ) v( i ) = x[ i ]; return v; }
static std::string sx( const X& x ) { std::string s; for( double d : x ) s += vc::fmt( "%.6g ", d ); return s; }
static UM nanM( size_t r, size_t c ) { UM m( r, c ); for( size_t i = 0; i < r; i++ ) for( size_t j = 0; j < c; j++ ) m( i, j ) = std::nan( "" ); return m; }
static UV nanV( size_t r ) { UV m( r ); for( size_t i = 0; i < r; i++ ) m( i ) = std::nan( "" ); return m; }

static void checkJ( const D& J, const F& oracle, const X& x, const std::vector< int >& quats, double tol = 1e-7, const X& abs = X() )
{
	size_t k = 0;
	for( const X& d : dirs( x, quats ) )
	{
		X w = numDer( oracle, x, d ); double sc = 1; for( double v : w ) sc = std::max( sc, std::fabs( v ) );
		for( size_t i = 0; i < w.size(); i++ ) { double g = 0; for( size_t j = 0; j < d.size(); j++ ) if( d[ j ] != 0 ) g += J( i, j ) * d[ j ]; vc::step(); VC_NEAR( g, w[ i ], tol * sc + ( abs.empty() ? 0 : abs[ i ] ), "jacobian", "row %zu direction %zu at %s", i, k, sx( x ).c_str() ); }
		k++;
	}
	vc::state();
}
static void checkV( const X& got, const X& want, const char* what, double tol = 1e-9 )
{ VC_CHECK( got.size() == want.size(), "size", "%zu instead of %zu values", got.size(), want.size() ); double sc = 1; for( double v : want ) sc = std::max( sc, std::fabs( v ) ); for( size_t i = 0; i < got.size() && i < want.size(); i++ ) VC_NEAR( got[ i ], want[ i ], tol * sc, "value", "%s entry %zu", what, i ); }
// a function object with evaluate, evaluateWithJacobian, jacobian
template< class FC > static void whole( const FC& fc, size_t m, const F& oracle, const X& x, const std::vector< int >& quats, double tol = 1e-7 )
{
	UV in = uv( x ), r1 = nanV( m ), r2 = nanV( m ); UM j1 = nanM( m, x.size() ), j2 = nanM( m, x.size() ); X want = oracle( x );
	VC_CHECK( fc.size() == m, "size", "size() is %zu, expected %zu", (size_t)fc.size(), m );
	fc.evaluate( r1, in ); fc.evaluateWithJacobian( r2, in, j1 ); fc.jacobian( in, j2 );
	checkV( xv( r1 ), want, "evaluate" ); checkV( xv( r2 ), want, "evaluateWithJacobian" ); VC_CHECK( xv( in ) == x, "input-changed", "the parameter vector was changed" );
	checkJ( dm( j1 ), oracle, x, quats, tol ); VC_CHECK( maxDiff( dm( j1 ), dm( j2 ) ) <= 1e-12 * ( 1 + maxAbs( dm( j1 ) ) ), "two-jacobians", "jacobian() and evaluateWithJacobian() differ" );
}
template< class FC > static void withJ( const FC& fc, size_t m, const F& oracle, const X& x, const std::vector< int >& quats, double tol = 1e-7, const X& abs = X() )
{ UV in = uv( x ), r = nanV( m ); UM j = nanM( m, x.size() ); fc.evaluateWithJacobian( r, in, j ); checkV( xv( r ), oracle( x ), "evaluateWithJacobian" ); checkJ( dm( j ), oracle, x, quats, tol, abs ); }

// ---- oracles
static M3 rq( const double* q ) { double x = q[ 0 ], y = q[ 1 ], z = q[ 2 ], w = q[ 3 ], n = x * x + y * y + z * z + w * w; M3 r = { { { w * w + x * x - y * y - z * z, 2 * ( x * y - w * z ), 2 * ( x * z + w * y ) }, { 2 * ( x * y + w * z ), w * w - x * x + y * y - z * z, 2 * ( y * z - w * x ) }, { 2 * ( x * z - w * y ), 2 * ( y * z + w * x ), w * w - x * x - y * y + z * z } } }; for( auto& a : r.m ) for( double& b : a ) b /= n; return r; }
static M3 rexp( const double* v ) { double a = std::sqrt( v[ 0 ] * v[ 0 ] + v[ 1 ] * v[ 1 ] + v[ 2 ] * v[ 2 ] ), s = a < 1e-4 ? 1 - a * a / 6 : std::sin( a ) / a, c = a < 1e-4 ? 0.5 - a * a / 24 : ( 1 - std::cos( a ) ) / ( a * a ); M3 K = { { { 0, -v[ 2 ], v[ 1 ] }, { v[ 2 ], 0, -v[ 0 ] }, { -v[ 1 ], v[ 0 ], 0 } } }, K2 = mul( K, K ), r = ident(); for( int i = 0; i < 3; i++ ) for( int j = 0; j < 3; j++ ) r.m[ i ][ j ] += s * K.m[ i ][ j ] + c * K2.m[ i ][ j ]; return r; }
static X qmul( const double* a, const double* b ) { return { a[ 3 ] * b[ 0 ] + a[ 0 ] * b[ 3 ] + a[ 1 ] * b[ 2 ] - a[ 2 ] * b[ 1 ], a[ 3 ] * b[ 1 ] + a[ 1 ] * b[ 3 ] + a[ 2 ] * b[ 0 ] - a[ 0 ] * b[ 2 ], a[ 3 ] * b[ 2 ] + a[ 2 ] * b[ 3 ] + a[ 0 ] * b[ 1 ] - a[ 1 ] * b[ 0 ], a[ 3 ] * b[ 3 ] - a[ 0 ] * b[ 0 ] - a[ 1 ] * b[ 1 ] - a[ 2 ] * b[ 2 ] }; }
static X qexp( const double* v, double dt ) { double a = std::sqrt( v[ 0 ] * v[ 0 ] + v[ 1 ] * v[ 1 ] + v[ 2 ] * v[ 2 ] ), s = a < 1e-7 ? dt / 2 : std::sin( a * dt / 2 ) / a; return { v[ 0 ] * s, v[ 1 ] * s, v[ 2 ] * s, std::cos( a * dt / 2 ) }; }
static X deh( const V3& p ) { return { p[ 0 ] / p[ 2 ], p[ 1 ] / p[ 2 ] }; }
static X dist4( const X& p, const double* d ) { double x = p[ 0 ], y = p[ 1 ], r = x * x + y * y, f = 1 + d[ 0 ] * r + d[ 1 ] * r * r; return { x * f + 2 * d[ 2 ] * x * y + d[ 3 ] * ( r + 2 * x * x ), y * f + 2 * d[ 3 ] * x * y + d[ 2 ] * ( r + 2 * y * y ) }; }

static std::vector< X > quatLattice() { std::vector< X > r; for( auto& k : rotLattice( vc::pick( 0, 1 ) ) ) for( int s : { 1, -1 } ) { Q q = qOf( k, s ); r.push_back( { q.x(), q.y(), q.z(), q.w() } ); } return r; }
static std::vector< X > logLattice() { std::vector< X > r; std::vector< double > a = { 0.0, 1e-9, 1e-5, 0.01, 0.5, 1.5, 3.0, PI, 4.0 }; for( auto& k : rotLattice( vc::pick( 0, 1 ) ) ) for( double f : a ) r.push_back( { k.axis[ 0 ] * f, k.axis[ 1 ] * f, k.axis[ 2 ] * f } ); std::sort( r.begin(), r.end() ); r.erase( std::unique( r.begin(), r.end() ), r.end() ); return r; }
static std::vector< V3 > vecLattice() { std::vector< V3 > r; for( int a : { -2, 0, 1 } ) for( int b : { -1, 0, 3 } ) for( int c : { -1, 0, 2 } ) r.push_back( v3( a, b, c ) ); r.push_back( v3( 0.3, -0.7, 1.9 ) ); return r; }
static X cat( std::initializer_list< X > l ) { X r; for( auto& x : l ) r.insert( r.end(), x.begin(), x.end() ); return r; }

static void inverted()
{
	for( auto& v : vecLattice() )
	{
		if( !vc::next( "inverted rotation velocity %s: every quaternion", str( v ).c_str() ) ) continue;
		for( auto& q : quatLattice() )
		{
			// rotation velocity seen from the other side
			X in = cat( { q, { v[ 0 ], v[ 1 ], v[ 2 ] } } ); withJ( tf::InvertRotationVelocity(), 3, [&]( const X& i ) { V3 r = mul( rq( i.data() ), v3( -i[ 4 ], -i[ 5 ], -i[ 6 ] ) ); return X{ r[ 0 ], r[ 1 ], r[ 2 ] }; }, in, { 0 } );
		}
		VC_OUT( "inv %s", str( v ).c_str() );
	}
}
static void algorithmFunctions()
{
	for( double a : { -2.0, 0.0, 0.5, 3.0 } ) for( double b : { -1.0, 0.0, 2.0 } ) for( double s : { 1.0, -7.0 } )
	{
		if( !vc::next( "intrinsics times point (%g,%g), radial distortion, parameter scale %g", a, b, s ) ) continue;
		um::Vector< double, 2 > p( a, b ); X k = { 500 * s, 3 * s, 320, -480 * s, 240 };
		whole( uf::CameraIntrinsicsMultiplication< double >( p ), 2, [&]( const X& i ) { return X{ -( i[ 0 ] * a + i[ 1 ] * b + i[ 2 ] ), -( i[ 3 ] * b + i[ 4 ] ) }; }, k, {} );
		for( double d0 : { 0.0, -0.3 } ) for( double d1 : { 0.0, 0.2 } ) for( double d2 : { 0.0, 0.05 } ) for( double d3 : { 0.0, -0.04 } )
		{
			um::Vector< double, 4 > d; d( 0 ) = d0 * s; d( 1 ) = d1; d( 2 ) = d2; d( 3 ) = d3; X dx = xv( d );
			whole( uf::RadialDistortionWrtD< double >( p ), 2, [&]( const X& i ) { return dist4( { a, b }, i.data() ); }, dx, {} );
			whole( uf::RadialDistortionWrtP< double >( d ), 2, [&]( const X& i ) { return dist4( i, dx.data() ); }, { a, b }, {} );
		}
		VC_OUT( "cam %g %g %g", a, b, s );
	}
	for( auto& v : vecLattice() )
	{
		if( !vc::next( "rotating %s: every quaternion and rotation vector", str( v ).c_str() ) ) continue;
		um::Vector< double, 3 > u = u3( v );
		for( auto& q : quatLattice() )
		{
			whole( uf::QuaternionRotation< double >( u ), 3, [&]( const X& i ) { V3 r = mul( rq( i.data() ), v ); return X{ r[ 0 ], r[ 1 ], r[ 2 ] }; }, q, { 0 } );
			um::Matrix< double, 3, 3 > j; uf::QuaternionRotationError< double >( u ).jacobian( uv( q ), j );
			// r e p e' r' with e = (x,y,z,1) up to length
			checkJ( dm( j ), [&]( const X& e ) { double eq[ 4 ] = { e[ 0 ], e[ 1 ], e[ 2 ], 1 }; V3 r = mul( rq( q.data() ), mul( rq( eq ), v ) ); return X{ r[ 0 ], r[ 1 ], r[ 2 ] }; }, { 0, 0, 0 }, {} );
			// quaternion and vector at once
			UV r1 = nanV( 3 ), r2 = nanV( 3 ), uq = uv( q ), uw = uv( { v[ 0 ], v[ 1 ], v[ 2 ] } ); UM jq = nanM( 3, 4 ), jv = nanM( 3, 3 ), none( 0, 0 ); mf::QuaternionVectorRotation qv; qv.evaluate( r1, uq, uw ); qv.evaluateWithJacobian( r2, uq, uw, jq, jv );
			V3 w = mul( rq( q.data() ), v ); checkV( xv( r1 ), { w[ 0 ], w[ 1 ], w[ 2 ] }, "evaluate" ); checkV( xv( r2 ), { w[ 0 ], w[ 1 ], w[ 2 ] }, "evaluateWithJacobian" );
			checkJ( dm( jq ), [&]( const X& i ) { V3 r = mul( rq( i.data() ), v ); return X{ r[ 0 ], r[ 1 ], r[ 2 ] }; }, q, { 0 } ); checkJ( dm( jv ), [&]( const X& i ) { V3 r = mul( rq( q.data() ), v3( i[ 0 ], i[ 1 ], i[ 2 ] ) ); return X{ r[ 0 ], r[ 1 ], r[ 2 ] }; }, { v[ 0 ], v[ 1 ], v[ 2 ] }, {} );
			UM jq2 = nanM( 3, 4 ), jv2 = nanM( 3, 3 ); qv.jacobian( uq, uw, jq2, none ); qv.jacobian( uq, uw, none, jv2 ); VC_CHECK( maxDiff( dm( jq ), dm( jq2 ) ) == 0 && maxDiff( dm( jv ), dm( jv2 ) ) == 0, "two-jacobians", "asking for one Jacobian only gives another" );
		}
		for( auto& l : logLattice() )
		{
			F o = [&]( const X& i ) { V3 r = mul( rexp( i.data() ), v ); return X{ r[ 0 ], r[ 1 ], r[ 2 ] }; }; double n = std::sqrt( l[ 0 ] * l[ 0 ] + l[ 1 ] * l[ 1 ] + l[ 2 ] * l[ 2 ] );
			whole( uf::LieRotation< double >( u ), 3, o, l, {}, n < 0.001 && n > 0 ? 1e-5 : 1e-7 );
			mf::LieRotation nl; um::Vector< double, 3 > res, lv( l[ 0 ], l[ 1 ], l[ 2 ] ); nl.evaluate( res, lv, u ); checkV( xv( res ), o( l ), "new LieRotation" );
			for( int k = 0; k < 2; k++ ) { um::Matrix< double, 2, 3 > L, j1, j2; for( int i = 0; i < 2; i++ ) for( int j = 0; j < 3; j++ ) L( i, j ) = k ? i * 3 - j * 2 + 1 : i == j; nl.multiplyJacobian1( L, j1, lv, u ); nl.multiplyJacobian2( L, j2, lv, u );
				auto lo = [&]( const X& r ) { X z( 2, 0.0 ); for( int i = 0; i < 2; i++ ) for( int j = 0; j < 3; j++ ) z[ i ] += L( i, j ) * r[ j ]; return z; };
				checkJ( dm( j1 ), [&]( const X& i ) { return lo( o( i ) ); }, l, {}, n < 0.001 && n > 0 ? 1e-5 : 1e-7 ); checkJ( dm( j2 ), [&]( const X& i ) { V3 r = mul( rexp( l.data() ), v3( i[ 0 ], i[ 1 ], i[ 2 ] ) ); return lo( { r[ 0 ], r[ 1 ], r[ 2 ] } ); }, { v[ 0 ], v[ 1 ], v[ 2 ] }, {} ); }
		}
		VC_OUT( "rot %s", str( v ).c_str() );
	}
	// hand-eye: a x - x b
	for( auto& a : quatLattice() )
	{
		if( !vc::next( "hand-eye function for a = %s", sx( a ).c_str() ) ) continue; auto l = quatLattice();
		for( size_t bi = 0; bi < l.size(); bi += 3 ) for( size_t xi = 0; xi < l.size(); xi += 5 )
		{
			const X &b = l[ bi ], &x = l[ xi ]; F o = [&]( const X& i ) { X p = qmul( a.data(), i.data() ), q = qmul( i.data(), b.data() ); for( int k = 0; k < 4; k++ ) p[ k ] -= q[ k ]; return p; };
			withJ( uf::RotHecMeasurement( Q( a[ 0 ], a[ 1 ], a[ 2 ], a[ 3 ] ), Q( b[ 0 ], b[ 1 ], b[ 2 ], b[ 3 ] ) ), 4, o, x, {} );
			UM j1 = nanM( 4, 4 ), j2 = nanM( 4, 4 ); uf::RotHecCombine( Q( x[ 0 ], x[ 1 ], x[ 2 ], x[ 3 ] ) ).jacobian( uv( a ), uv( b ), j1, j2 );
			checkJ( dm( j1 ), [&]( const X& i ) { return qmul( i.data(), x.data() ); }, a, {} ); checkJ( dm( j2 ), [&]( const X& i ) { X r = qmul( x.data(), i.data() ); for( double& d : r ) d = -d; return r; }, b, {} );
		}
		VC_OUT( "hec %s", sx( a ).c_str() );
	}
	for( double w : { -3.0, -0.25, 0.5, 1.0, 7.0 } )
	{
		if( !vc::next( "dehomogenisation with last entry %g", w ) ) continue;
		for( auto& v : vecLattice() )
		{
			F o = []( const X& i ) { X r; for( size_t k = 0; k + 1 < i.size(); k++ ) r.push_back( i[ k ] / i.back() ); return r; }; double t = 1e-6;
			whole( uf::Dehomogenization< 3 >(), 2, o, { v[ 0 ], v[ 1 ], w }, {}, t ); whole( uf::Dehomogenization< 4 >(), 3, o, { v[ 0 ], v[ 1 ], v[ 2 ], w }, {}, t ); whole( uf::Dehomogenization< 2 >(), 1, o, { v[ 0 ], w }, {}, t );
			mf::Dehomogenization< 3 > nd; um::Vector< double, 3 > in( v[ 0 ], v[ 1 ], w ); um::Vector< double, 2 > r; nd.evaluate( r, in ); checkV( xv( r ), o( { v[ 0 ], v[ 1 ], w } ), "new dehomogenisation" );
			um::Matrix< double, 2, 2 > L; L( 0, 0 ) = 2; L( 0, 1 ) = -1; L( 1, 0 ) = 3; L( 1, 1 ) = 5; um::Matrix< double, 2, 3 > j; nd.multiplyJacobian1( L, j, in ); checkJ( dm( j ), [&]( const X& i ) { X z = o( i ); return X{ 2 * z[ 0 ] - z[ 1 ], 3 * z[ 0 ] + 5 * z[ 1 ] }; }, { v[ 0 ], v[ 1 ], w }, {}, t );
		}
		VC_OUT( "deh %g", w );
	}
}
static std::vector< um::Matrix< double, 3, 4 > > cams()
{ std::vector< um::Matrix< double, 3, 4 > > r; auto l = rotLattice( 0 ); for( int k = 0; k < 3; k++ ) { M3 R = mul( M3{ { { 500, 2.0 * k, 320 }, { 0, 480 + 10.0 * k, 240 }, { 0, 0, k == 1 ? -1.0 : 1.0 } } }, l[ ( 5 * k + 2 ) % l.size() ].R ); um::Matrix< double, 3, 4 > m; for( int i = 0; i < 3; i++ ) { for( int j = 0; j < 3; j++ ) m( i, j ) = R.m[ i ][ j ]; m( i, 3 ) = ( i == 2 ? 20 + k : 3.0 * i - k ); } r.push_back( m ); } return r; }
static V3 app( const um::Matrix< double, 3, 4 >& m, const V3& p ) { V3 r; for( int i = 0; i < 3; i++ ) r[ i ] = m( i, 0 ) * p[ 0 ] + m( i, 1 ) * p[ 1 ] + m( i, 2 ) * p[ 2 ] + m( i, 3 ); return r; }

static void projections()
{
	std::vector< um::Vector< double, 3 > > pts; for( auto& v : { v3( 0, 0, 0 ), v3( 1, 0, 0 ), v3( 0, -1, 0.5 ), v3( 0.3, 0.4, -0.8 ) } ) pts.push_back( u3( v ) );
	auto cm = cams(); auto ql = quatLattice();
	std::vector< std::pair< size_t, size_t > > vis; for( size_t p = 0; p < pts.size(); p++ ) for( size_t c = 0; c < cm.size(); c++ ) if( ( p + c ) % 3 != 1 ) vis.push_back( { p, c } ); std::vector< std::pair< unsigned, unsigned > > visu( vis.begin(), vis.end() );
	for( size_t qi = 0; qi < ql.size(); qi++ ) for( auto& t : { v3( 0, 0, 6 ), v3( 1, -2, 9 ), v3( -0.5, 0.5, -7 ) } )
	{
		const X& q = ql[ qi ]; if( !vc::next( "projection functions at pose %s, %s", sx( q ).c_str(), str( t ).c_str() ) ) continue;
		X in = cat( { { t[ 0 ], t[ 1 ], t[ 2 ] }, q } ); um::Matrix< double, 3, 3 > K; K( 0, 0 ) = 700; K( 0, 1 ) = 4; K( 0, 2 ) = 300; K( 1, 0 ) = 0; K( 1, 1 ) = 650; K( 1, 2 ) = 250; K( 2, 0 ) = K( 2, 1 ) = 0; K( 2, 2 ) = qi % 2 ? -1 : 1; M3 k3 = m3( K );
		auto pose = [&]( const X& i, const V3& p ) { return add( mul( rq( &i[ 3 ] ), p ), v3( i[ 0 ], i[ 1 ], i[ 2 ] ) ); };
		F one = [&]( const X& i ) { X r; for( auto& p : pts ) { X z = deh( mul( k3, pose( i, fromU( p ) ) ) ); r.insert( r.end(), z.begin(), z.end() ); } return r; };
		whole( uf::MultiplePointProjection< double >( pts, K ), 2 * pts.size(), one, in, { 3 } );
		{ UM j = nanM( 2 * pts.size(), 6 ); uf::MultiplePointProjectionError< double >( pts, K ).jacobian( uv( in ), j ); F e = [&]( const X& i ) { X r; double eq[ 4 ] = { i[ 3 ], i[ 4 ], i[ 5 ], 1 }; for( auto& p : pts ) { X z = deh( mul( k3, add( mul( rq( q.data() ), mul( rq( eq ), fromU( p ) ) ), add( t, v3( i[ 0 ], i[ 1 ], i[ 2 ] ) ) ) ) ); r.insert( r.end(), z.begin(), z.end() ); } return r; }; checkJ( dm( j ), e, X( 6, 0.0 ), {} ); }
		{ UM j = nanM( 3 * pts.size(), 6 ); ua::PoseEstimation3D3D::Function::MultiplePointTransformationError< std::vector< um::Vector< double, 3 > >::const_iterator > f( pts.begin(), pts.end() ); f.jacobian( uv( in ), j ); F e = [&]( const X& i ) { X r; double eq[ 4 ] = { i[ 3 ], i[ 4 ], i[ 5 ], 1 }; for( auto& p : pts ) { V3 z = add( mul( rq( q.data() ), mul( rq( eq ), fromU( p ) ) ), v3( i[ 0 ], i[ 1 ], i[ 2 ] ) ); r.insert( r.end(), z.begin(), z.end() ); } return r; }; checkJ( dm( j ), e, X( 6, 0.0 ), {} ); }
		// points moved by one pose
		{ ua::PoseEstimation3D3D::PointCorrespodencesSinglePose< std::vector< um::Vector< double, 3 > >::const_iterator > f( pts.begin(), pts.end() ); F o = [&]( const X& i ) { X r; for( auto& p : pts ) { V3 z = pose( i, fromU( p ) ); r.insert( r.end(), z.begin(), z.end() ); } return r; }; whole( f, 3 * pts.size(), o, in, { 3 } ); }
		// several cameras
		F multi = [&]( const X& i ) { X r; for( auto& v : vis ) { X z = deh( app( cm[ v.second ], pose( i, fromU( pts[ v.first ] ) ) ) ); r.insert( r.end(), z.begin(), z.end() ); } return r; }; (void)multi;
		bool ok = true; for( auto& v : vis ) if( std::fabs( app( cm[ v.second ], pose( in, fromU( pts[ v.first ] ) ) )[ 2 ] ) < 1 ) ok = false;
		if( ok )
		{
			UM j = nanM( 2 * vis.size(), 6 ); uf::MultipleCameraProjectionError< double >( pts, cm, vis ).jacobian( uv( in ), j );
			F e = [&]( const X& i ) { X r; double eq[ 4 ] = { i[ 3 ], i[ 4 ], i[ 5 ], 1 }; for( auto& v : vis ) { X z = deh( app( cm[ v.second ], add( mul( rq( q.data() ), mul( rq( eq ), fromU( pts[ v.first ] ) ) ), add( t, v3( i[ 0 ], i[ 1 ], i[ 2 ] ) ) ) ) ); r.insert( r.end(), z.begin(), z.end() ); } return r; }; checkJ( dm( j ), e, X( 6, 0.0 ), {}, 1e-6 );
			for( auto& c : { v3( 0, 0, 0 ), v3( 0.2, -0.3, 0.1 ) } )
			{
				Q lq( q[ 0 ], q[ 1 ], q[ 2 ], q[ 3 ] ); double s = std::sqrt( q[ 0 ] * q[ 0 ] + q[ 1 ] * q[ 1 ] + q[ 2 ] * q[ 2 ] ), an = 2 * std::atan2( s, q[ 3 ] ); X lg = s < 1e-12 ? X{ 0, 0, 0 } : X{ q[ 0 ] / s * an, q[ 1 ] / s * an, q[ 2 ] / s * an };
				UM ja = nanM( 2 * vis.size(), 6 ); uf::MultipleCameraProjectionErrorART< double >( pts, cm, visu, u3( c ) ).jacobian( uv( cat( { { t[ 0 ], t[ 1 ], t[ 2 ] }, lg } ) ), ja ); M3 R = rexp( lg.data() );
				F ea = [&]( const X& i ) { X r; for( auto& v : vis ) { X z = deh( app( cm[ v.second ], add( add( mul( rexp( &i[ 3 ] ), mul( R, sub( fromU( pts[ v.first ] ), c ) ) ), mul( R, c ) ), add( t, v3( i[ 0 ], i[ 1 ], i[ 2 ] ) ) ) ) ); r.insert( r.end(), z.begin(), z.end() ); } return r; }; checkJ( dm( ja ), ea, X( 6, 0.0 ), {}, 1e-6 );
			}
		}
		// cameras with poses, intrinsics and distortion
		std::vector< Pose > cp; std::vector< M3 > cR; std::vector< V3 > cT; auto rl = rotLattice( 0 ); for( int k = 0; k < 2; k++ ) { auto& r = rl[ ( 3 * k ) % rl.size() ]; cR.push_back( r.R ); cT.push_back( v3( k, -k, 25 ) ); cp.push_back( Pose( qOf( r ), u3( cT.back() ) ) ); }
		std::vector< um::Matrix< double, 3, 3 > > ci( 2, K ); ci[ 1 ]( 0, 0 ) = -500; ci[ 1 ]( 2, 2 ) = -K( 2, 2 ); std::vector< um::Vector< double, 4 > > cd( 2 ); for( int i = 0; i < 4; i++ ) { cd[ 0 ]( i ) = 0; cd[ 1 ]( i ) = 0.1 - 0.06 * i; }
		std::vector< std::pair< size_t, size_t > > v2; for( size_t p = 0; p < pts.size(); p++ ) v2.push_back( { p, ( p + qi ) % 2 } ); v2.push_back( { 0, ( qi + 1 ) % 2 } );
		F dist = [&]( const X& i ) { X r; for( auto& v : v2 ) { X n = deh( add( mul( cR[ v.second ], pose( i, fromU( pts[ v.first ] ) ) ), cT[ v.second ] ) ); double d[ 4 ]; for( int k = 0; k < 4; k++ ) d[ k ] = cd[ v.second ]( k ); n = dist4( n, d ); auto& I = ci[ v.second ]; r.push_back( I( 2, 2 ) * ( I( 0, 0 ) * n[ 0 ] + I( 0, 1 ) * n[ 1 ] + I( 0, 2 ) ) ); r.push_back( I( 2, 2 ) * ( I( 1, 0 ) * n[ 0 ] + I( 1, 1 ) * n[ 1 ] + I( 1, 2 ) ) ); } return r; };
		whole( uf::MultipleCameraProjection< double >( pts, cp, ci, cd, v2 ), 2 * v2.size(), dist, in, { 3 }, 1e-6 );
		// the same without distortion, pose as rotation vector, composed of function objects
		{
			double s = std::sqrt( q[ 0 ] * q[ 0 ] + q[ 1 ] * q[ 1 ] + q[ 2 ] * q[ 2 ] ), an = 2 * std::atan2( s, q[ 3 ] ); X lg = s < 1e-12 ? X{ 0, 0, 0 } : X{ q[ 0 ] / s * an, q[ 1 ] / s * an, q[ 2 ] / s * an };
			std::vector< um::Matrix< double, 3, 3 > > cr; std::vector< um::Vector< double, 3 > > ct; for( int k = 0; k < 2; k++ ) { cr.push_back( um3( cR[ k ] ) ); ct.push_back( u3( cT[ k ] ) ); }
			F o = [&]( const X& i ) { X r; for( auto& v : v2 ) { V3 c = add( mul( cR[ v.second ], add( mul( rexp( &i[ 3 ] ), fromU( pts[ v.first ] ) ), v3( i[ 0 ], i[ 1 ], i[ 2 ] ) ) ), cT[ v.second ] ); X z = deh( mul( m3( ci[ v.second ] ), c ) ); r.insert( r.end(), z.begin(), z.end() ); } return r; };
			withJ( ua::ObjectiveFunction< double >( pts, cr, ct, ci, v2 ), 2 * v2.size(), o, cat( { { t[ 0 ], t[ 1 ], t[ 2 ] }, lg } ), {}, 1e-6 );
		}
		// one point seen by many cameras
		{ X p = { t[ 0 ], t[ 1 ], t[ 2 ] + qi * 0.1 }; F o = [&]( const X& i ) { X r; for( auto& c : cm ) { X z = deh( app( c, v3( i[ 0 ], i[ 1 ], i[ 2 ] ) ) ); r.insert( r.end(), z.begin(), z.end() ); } return r; }; bool far = true; for( auto& c : cm ) if( std::fabs( app( c, v3( p[ 0 ], p[ 1 ], p[ 2 ] ) )[ 2 ] ) < 1 ) far = false; if( far ) whole( uf::SinglePointMultiProjection< double, std::vector< um::Matrix< double, 3, 4 > >::const_iterator >( cm.begin(), cm.end() ), 2 * cm.size(), o, p, {}, 1e-6 ); }
		VC_OUT( "proj %s %s", sx( q ).c_str(), str( t ).c_str() );
	}
}
static void toolTip()
{
	auto ql = quatLattice();
	for( auto& m : vecLattice() ) for( auto& w : { v3( 1, 2, 3 ), v3( 0, 0, 0 ), v3( 0, 4, 0 ), v3( -2, 0, 5 ) } )
	{
		if( !vc::next( "tool tip residuals, point %s seen at %s", str( m ).c_str(), str( w ).c_str() ) ) continue;
		std::vector< Pose > ps; std::vector< M3 > R; std::vector< V3 > T; size_t k = 0;
		for( auto& q : ql ) { R.push_back( rq( q.data() ) ); T.push_back( k % 3 == 0 ? v3( 0, 0, 0 ) : v3( (double)( k % 4 ), -1, (double)( k % 5 ) ) ); ps.push_back( Pose( Q( q[ 0 ], q[ 1 ], q[ 2 ], q[ 3 ] ), u3( T.back() ) ) ); k++; }
		X x = { w[ 0 ], w[ 1 ], w[ 2 ], m[ 0 ], m[ 1 ], m[ 2 ] };
		auto res = [&]( const X& i, size_t n ) { return norm( sub( v3( i[ 0 ], i[ 1 ], i[ 2 ] ), add( mul( R[ n ], v3( i[ 3 ], i[ 4 ], i[ 5 ] ) ), T[ n ] ) ) ); };
		ua::ToolTip::MultiplePoseSinglePointTransformation< std::vector< Pose >::const_iterator > f( ps.begin(), ps.end() ); size_t n = ps.size(); VC_CHECK( f.size() == n, "size", "size %zu", (size_t)f.size() );
		UV r1 = nanV( n ), r2 = nanV( n ); UM j = nanM( n, 6 ); f.evaluate( r1, uv( x ) ); f.evaluateWithJacobian( r2, uv( x ), j );
		for( size_t i = 0; i < n; i++ )
		{
			double e = res( x, i ); VC_NEAR( r1( i ), e, 1e-9, "value", "pose %zu", i ); VC_NEAR( r2( i ), e, 1e-9, "value", "pose %zu", i );
			for( int c = 0; c < 6; c++ ) VC_CHECK( std::isfinite( j( i, c ) ), "finite", "entry %d of the derivative of residual %zu (value %g) is %g", c, i, e, j( i, c ) );
			if( e > 0.05 ) { D row( 1, 6 ); for( int c = 0; c < 6; c++ ) row( 0, c ) = j( i, c ); checkJ( row, [&]( const X& z ) { return X{ res( z, i ) }; }, x, {}, 1e-5 ); }
		}
		VC_OUT( "tip %s %s", str( m ).c_str(), str( w ).c_str() );
	}
}
static void motion()
{
	auto ql = quatLattice(); std::vector< double > dts = { 0.0, 0.001, 0.02, 0.5 };
	for( double dt : dts ) for( auto& v : vecLattice() )
	{
		if( !vc::next( "motion functions, dt %g, velocity %s", dt, str( v ).c_str() ) ) continue; X vx = { v[ 0 ], v[ 1 ], v[ 2 ] }; double a = norm( v ) * dt;
		// angular velocity to rotation: value exact, derivative documented for small angles
		{
			mf::RotationVelocityIntegration f( dt ); UV r1 = nanV( 4 ), r2 = nanV( 4 ); UM j = nanM( 4, 3 ), j2 = nanM( 4, 3 ); f.evaluate( r1, uv( vx ) ); f.evaluateWithJacobian( r2, uv( vx ), j ); f.jacobian( uv( vx ), j2 );
			checkV( xv( r1 ), qexp( v.data(), dt ), "integrated velocity" ); checkV( xv( r2 ), qexp( v.data(), dt ), "integrated velocity with Jacobian" ); VC_CHECK( maxDiff( dm( j ), dm( j2 ) ) == 0, "two-jacobians", "differ" ); VC_CHECK( f.size() == 4, "size", "" );
			checkJ( dm( j ), [&]( const X& i ) { return qexp( i.data(), dt ); }, vx, {}, 1e-9, X( 4, dt * a * a / 4 + dt * a * a * a ) );
		}
		for( size_t qi = 0; qi < ql.size(); qi += 2 )
		{
			const X& q = ql[ qi ]; F rot = [&]( const X& i ) { X e = qexp( &i[ 4 ], dt ); return qmul( i.data(), e.data() ); }; X in = cat( { q, vx } );
			// first order in dt: the derivative may deviate by the order of the turned angle
			withJ( tf::QuaternionTimeUpdate( dt, 1 ), 4, rot, in, {}, 1e-9, X( 4, 1e-10 + 1.2 * a ) );
			{ UV r = nanV( 4 ); UM j = nanM( 4, 7 ); tf::QuaternionTimeUpdate( dt, 1 ).evaluateWithJacobian( r, uv( in ), j ); X z = cat( { q, { 0, 0, 0 } } ); UM j0 = nanM( 4, 7 ); tf::QuaternionTimeUpdate( dt, 1 ).evaluateWithJacobian( r, uv( z ), j0 ); checkJ( dm( j0 ), rot, z, {}, 1e-9 );
			  // velocity columns: relative error of the order of the angle
			  for( int c = 4; c < 7; c++ ) { X d( 7, 0.0 ); d[ c ] = 1; X w = numDer( rot, in, d ); for( int i = 0; i < 4; i++ ) VC_NEAR( j( i, c ), w[ i ], 1e-10 + dt * a, "velocity-jacobian", "row %d column %d at %s", i, c, sx( in ).c_str() ); } }
			// poses with every order of position and rotation
			for( int po : { 0, 1, 2 } ) for( int ro : { -1, 0, 1 } )
			{
				X s; for( int i = 0; i < 3 + 3 * po; i++ ) s.push_back( 0.5 * i - 1 ); int rs = s.size(); if( ro >= 0 ) s = cat( { s, q } ); if( ro > 0 ) s = cat( { s, vx } );
				F o = [&]( const X& i ) { X r( i.size() ); for( int k = 0; k <= po; k++ ) for( int c = 0; c < 3; c++ ) { double f = 1, sum = 0; for( int l = k; l <= po; l++ ) { sum += f * i[ 3 * l + c ]; f *= dt / ( l - k + 1 ); } r[ 3 * k + c ] = sum; } if( ro == 0 ) for( int c = 0; c < 4; c++ ) r[ rs + c ] = i[ rs + c ]; if( ro > 0 ) { X e = qexp( &i[ rs + 4 ], dt ), n = qmul( &i[ rs ], e.data() ); for( int c = 0; c < 4; c++ ) r[ rs + c ] = n[ c ]; for( int c = 4; c < 7; c++ ) r[ rs + c ] = i[ rs + c ]; } return r; };
				X abs( s.size(), 1e-10 ); if( ro > 0 ) for( int c = 0; c < 4; c++ ) abs[ rs + c ] += 1.2 * a;
				tf::PoseTimeUpdate f( dt, po, ro ); VC_CHECK( f.size() == s.size(), "size", "order %d/%d: size %u", po, ro, f.size() ); withJ( f, s.size(), o, s, {}, 1e-8, abs );
			}
			// inside-out: position in camera coordinates
			for( int po : { 0, 1 } )
			{
				X s; for( int i = 0; i < 3 + 3 * po; i++ ) s.push_back( 0.5 * i - 1 ); int rs = s.size(); s = cat( { s, q, vx } );
				F o = [&]( const X& i ) { X r( i ); V3 av = mul( rq( &i[ rs ] ), v3( i[ rs + 4 ], i[ rs + 5 ], i[ rs + 6 ] ) ); double e[ 3 ] = { av[ 0 ] * dt, av[ 1 ] * dt, av[ 2 ] * dt }; M3 E = rexp( e ); V3 p = mul( E, v3( i[ 0 ], i[ 1 ], i[ 2 ] ) ); if( po ) { V3 d = mul( E, v3( i[ 3 ], i[ 4 ], i[ 5 ] ) ); for( int c = 0; c < 3; c++ ) { r[ 3 + c ] = d[ c ]; p[ c ] += dt * i[ 3 + c ]; } } for( int c = 0; c < 3; c++ ) r[ c ] = p[ c ]; X x = qexp( &i[ rs + 4 ], dt ), n = qmul( &i[ rs ], x.data() ); for( int c = 0; c < 4; c++ ) r[ rs + c ] = n[ c ]; return r; };
				X abs( s.size(), 1e-10 ); for( int c = 0; c < 4; c++ ) abs[ rs + c ] += 1.2 * a; double pn = 4; for( int c = 0; c < rs; c++ ) abs[ c ] += pn * ( 3 * a * a + dt * 3 * a ); tf::InsideOutPoseTimeUpdate f( dt, po ); VC_CHECK( f.size() == s.size(), "size", "%u", f.size() ); withJ( f, s.size(), o, s, { rs }, 1e-8, abs );
			}
		}
		VC_OUT( "motion %g %s", dt, str( v ).c_str() );
	}
	for( unsigned n : { 1u, 2u, 3u } ) for( unsigned ord : { 0u, 1u, 2u, 3u } )
	{
		if( !vc::next( "linear motion of order %u in %u dimensions", ord, n ) ) continue;
		for( double dt : dts ) { X s; for( unsigned i = 0; i < n * ( ord + 1 ); i++ ) s.push_back( 1.5 * i - 2 ); F o = [&]( const X& i ) { X r( n, 0.0 ); double f = 1; for( unsigned l = 0; l <= ord; l++ ) { for( unsigned c = 0; c < n; c++ ) r[ c ] += f * i[ l * n + c ]; f *= dt / ( l + 1 ); } return r; }; tf::LinearTimeUpdate f( dt, n, ord ); VC_CHECK( f.size() == n, "size", "%u", f.size() ); withJ( f, n, o, s, {} ); }
		VC_OUT( "lin %u %u", n, ord );
	}
}
struct Cubic { unsigned size() const { return 2; } template< class A, class B > void evaluate( A& r, const B& x ) const { r( 0 ) = x( 0 ) * x( 0 ) * x( 1 ) + 2 * x( 2 ); r( 1 ) = std::sin( x( 1 ) ) - x( 0 ); } };
static void generic()
{
	for( auto& v : vecLattice() )
	{
		if( !vc::next( "generic functions at %s", str( v ).c_str() ) ) continue; X x = { v[ 0 ], v[ 1 ], v[ 2 ] };
		um::Matrix< double, 2, 3 > A; for( int i = 0; i < 2; i++ ) for( int j = 0; j < 3; j++ ) A( i, j ) = i * 4 - j * 1.5 + 1; F lin = [&]( const X& i ) { X r( 2, 0.0 ); for( int k = 0; k < 2; k++ ) for( int c = 0; c < 3; c++ ) r[ k ] += A( k, c ) * i[ c ]; return r; };
		whole( mf::LinearFunction< 2, 3, double >( A ), 2, lin, x, {} );
		if( norm( v ) > 0.5 ) for( size_t n : { 3u, 4u, 5u } ) { X y = x; while( y.size() < n ) y.push_back( 0.5 - (double)y.size() ); whole( mf::VectorNormalize( n ), n, []( const X& i ) { double s = 0; for( double d : i ) s += d * d; X r = i; for( double& d : r ) d /= std::sqrt( s ); return r; }, y, {}, 1e-6 ); }
		{ Cubic c; mf::DiscreteJacobianApproximation< Cubic > f( c, 1e-5 ); UV r = nanV( 2 ), r2 = nanV( 2 ); UM j = nanM( 2, 3 ); f.evaluate( r, uv( x ) ); f.evaluateWithJacobian( r2, uv( x ), j ); F o = [&]( const X& i ) { UV z( 2 ); c.evaluate( z, uv( i ) ); return xv( z ); }; checkV( xv( r ), o( x ), "approximated function" ); checkV( xv( r2 ), o( x ), "approximated function" ); checkJ( dm( j ), o, x, {}, 1e-3 ); UM k = nanM( 2, 3 ); f.jacobian( uv( x ), k ); VC_CHECK( maxDiff( dm( j ), dm( k ) ) < 1e-12, "two-jacobians", "differ" ); }
		{ // intrinsics and point of the composable camera function
			uf::CameraIntrinsicsMultiplicationOfTwo f; um::Vector< double, 5 > in; double iv[ 5 ] = { 600 + v[ 0 ], 3 + v[ 2 ], -320, 590 - v[ 1 ], -240 + v[ 2 ] }; for( int i = 0; i < 5; i++ ) in( i ) = iv[ i ]; um::Vector< double, 2 > pt( v[ 0 ], v[ 1 ] ), res; um::Matrix< double, 2, 2 > L; L( 0, 0 ) = 2; L( 0, 1 ) = -1; L( 1, 0 ) = 3; L( 1, 1 ) = 5; um::Matrix< double, 2, 5 > j5; um::Matrix< double, 2, 2 > j2;
			F o = []( const X& i ) { double a = -( i[ 0 ] * i[ 5 ] + i[ 1 ] * i[ 6 ] + i[ 2 ] ), b = -( i[ 3 ] * i[ 6 ] + i[ 4 ] ); return X{ a, b }; }, l = [&]( const X& i ) { X z = o( i ); return X{ 2 * z[ 0 ] - z[ 1 ], 3 * z[ 0 ] + 5 * z[ 1 ] }; }; X all( iv, iv + 5 ); all.push_back( v[ 0 ] ); all.push_back( v[ 1 ] );
			f.evaluate( res, in, pt ); checkV( xv( res ), o( all ), "intrinsics times point" ); f.multiplyJacobian1( L, j5, in, pt ); f.multiplyJacobian2( L, j2, in, pt ); D J( 2, 7 ); for( int i = 0; i < 2; i++ ) { for( int j = 0; j < 5; j++ ) J( i, j ) = j5( i, j ); for( int j = 0; j < 2; j++ ) J( i, 5 + j ) = j2( i, j ); } checkJ( J, l, all, {}, 1e-6 );
		}
		um::Vector< double, 3 > a = u3( v ), b( 1, -2, 0.5 ), r; um::Matrix< double, 2, 3 > j1, j2; mf::Addition< 3 > ad; mf::Subtraction< 3 > su; ad.evaluate( r, a, b ); checkV( xv( r ), { v[ 0 ] + 1, v[ 1 ] - 2, v[ 2 ] + 0.5 }, "sum" ); su.evaluate( r, a, b ); checkV( xv( r ), { v[ 0 ] - 1, v[ 1 ] + 2, v[ 2 ] - 0.5 }, "difference" );
		ad.multiplyJacobian1( A, j1, a, b ); ad.multiplyJacobian2( A, j2, a, b ); VC_CHECK( maxDiff( dm( j1 ), dm( A ) ) == 0 && maxDiff( dm( j2 ), dm( A ) ) == 0, "jacobian", "of a sum" ); su.multiplyJacobian1( A, j1, a, b ); su.multiplyJacobian2( A, j2, a, b ); VC_CHECK( maxDiff( dm( j1 ), dm( A ) ) == 0 && maxDiff( dm( j2 ), scale( dm( A ), -1 ) ) == 0, "jacobian", "of a difference" );
		um::Matrix< double, 3, 3 > B; for( int i = 0; i < 3; i++ ) for( int j = 0; j < 3; j++ ) B( i, j ) = ( i + 1 ) * ( j - 1.5 ) + ( i == j ); mf::LinearTransformation< 3, 3 > lt( B ); lt.evaluate( r, a ); um::Matrix< double, 2, 3 > jl; lt.multiplyJacobian1( A, jl, a ); F o = [&]( const X& i ) { V3 z = mul( m3( B ), v3( i[ 0 ], i[ 1 ], i[ 2 ] ) ); return lin( { z[ 0 ], z[ 1 ], z[ 2 ] } ); }; checkJ( dm( jl ), o, x, {} );
		// a composition with two parameter blocks and a shared one: A * ( exp(p0) p3 - p3 )
		{
			X p = { 0.3, -0.2, v[ 0 ], v[ 1 ], v[ 2 ] + 0.1, 1, 2, 4 }; F oc = [&]( const X& i ) { V3 y = v3( i[ 5 ], i[ 6 ], i[ 7 ] ), z = sub( mul( rexp( &i[ 2 ] ), y ), v3( i[ 0 ] , i[ 1 ], i[ 2 ] ) ); return lin( { z[ 0 ], z[ 1 ], z[ 2 ] } ); };
			UV in = uv( p ), res = nanV( 2 ); UM J = nanM( 2, 8 ); for( size_t i = 0; i < 2; i++ ) for( size_t k = 0; k < 8; k++ ) J( i, k ) = 0; (void)oc;
			F od = [&]( const X& i ) { V3 y = v3( i[ 5 ], i[ 6 ], i[ 7 ] ), z = sub( mul( rexp( &i[ 2 ] ), y ), v3( 1, -2, 0.5 ) ); return lin( { z[ 0 ], z[ 1 ], z[ 2 ] } ); };
			( mf::LinearTransformation< 2, 3 >( A ) << ( mf::Subtraction< 3 >() << ( mf::LieRotation() << mf::parameter< 3 >( 2 ) << mf::parameter< 3 >( 5 ) ) << mf::fixedParameterRef< 3 >( b ) ) ).evaluateWithJacobian( in, res, J ); checkV( xv( res ), od( p ), "composition" ); checkJ( dm( J ), od, p, {}, 1e-6 );
		}
		VC_OUT( "gen %s", str( v ).c_str() );
	}
}
static void bundle()
{
	typedef ua::BundleAdjustmentNetwork< double > Net; auto rl = rotLattice( 0 );
	for( int intr = 0; intr < 2; intr++ ) for( int nb = 1; nb <= 3; nb++ ) for( int np = 0; np <= 2; np++ ) for( int k = 0; k < vc::pick( 4, 12 ); k++ )
	{
		if( !vc::next( "bundle adjustment function: %d points, %d body poses, intrinsics %s, variant %d", np, nb, intr ? "estimated" : "fixed", k ) ) continue;
		Net n; n.bEstimateIntrinsics = intr; for( int i = 0; i < np; i++ ) n.points.push_back( um::Vector< double, 3 >( i - 0.5, 0.3 * k, 1.0 - i ) );
		n.bodies.resize( 2 ); for( int b = 0; b < 2; b++ ) for( int i = 0; i < 2; i++ ) n.bodies[ b ].push_back( um::Vector< double, 3 >( 0.4 * i, b - 0.3, 0.2 * ( b + i ) ) );
		for( int b = 0; b < nb; b++ ) { auto& r = rl[ ( 2 * b + k ) % rl.size() ]; n.bodyPoses.push_back( b ? Pose( qOf( r.axis, r.angle * 0.9 ), um::Vector< double, 3 >( b, -0.5 * b, 0.1 ) ) : Pose( Q( 0, 0, 0, 1 ), um::Vector< double, 3 >( 0, 0, 0 ) ) ); }
		for( int i = 0; i < 2; i++ ) { auto& r = rl[ ( 3 * i + 2 * k + 1 ) % rl.size() ]; n.images.push_back( Pose( qOf( r.axis, r.angle * 0.95 ), um::Vector< double, 3 >( 0.2 * i, -0.1, ( k & 1 ? 12 : -12 ) - i ) ) ); }
		for( int c = 0; c < 2; c++ ) { um::Matrix< double, 3, 3 > K; for( int i = 0; i < 3; i++ ) for( int j = 0; j < 3; j++ ) K( i, j ) = 0; K( 0, 0 ) = 400 + 50 * c; K( 0, 1 ) = 2; K( 0, 2 ) = -320; K( 1, 1 ) = 420; K( 1, 2 ) = -240; K( 2, 2 ) = -1; n.intrinsics.push_back( K ); um::Vector< double, 4 > d; for( int i = 0; i < 4; i++ ) d( i ) = ( c + 1 ) * ( 0.08 - 0.05 * i ); n.distortions.push_back( d ); }
		for( int p = 0; p < np; p++ ) for( size_t i = 0; i < 2; i++ ) if( ( p + i + k ) % 3 ) { Net::FreePointMeasurement m; m.iPoint = p; m.iCamera = ( p + i ) % 2; m.iImage = i; m.measurement = um::Vector< double, 2 >( p, 10 + i ); n.freePointMeasurements.push_back( m ); }
		for( int b = 0; b < nb; b++ ) for( size_t i = 0; i < 2; i++ ) for( size_t q = 0; q < 2; q++ ) { Net::BodyPointMeasurement m; m.iBody = ( b + k ) % 2; m.iPoint = q; m.iBodyPose = b; m.iCamera = i; m.iImage = ( i + b ) % 2; m.measurement = um::Vector< double, 2 >( b, 20 + i ); n.bodyPointMeasurements.push_back( m ); }
		ua::BundleAdjustmentFunction< double > f( n ); size_t np3 = 3 * np + 6 * ( nb - 1 ) + 12 + ( intr ? 18 : 0 ), nm = 2 * ( n.freePointMeasurements.size() + n.bodyPointMeasurements.size() );
		VC_CHECK( f.parameterSize() == np3 && f.measurementSize() == nm, "size", "%zu parameters, %zu measurements", (size_t)f.parameterSize(), (size_t)f.measurementSize() ); if( f.parameterSize() != np3 || f.measurementSize() != nm ) continue;
		UV v = nanV( np3 ), mv = nanV( nm ); f.buildParameterVector( v ); f.buildMeasurementVector( mv ); { size_t i = 0; for( auto& m : n.freePointMeasurements ) { VC_CHECK( mv( i ) == m.measurement( 0 ) && mv( i + 1 ) == m.measurement( 1 ), "measurement-vector", "entry %zu", i ); i += 2; } for( auto& m : n.bodyPointMeasurements ) { VC_CHECK( mv( i ) == m.measurement( 0 ) && mv( i + 1 ) == m.measurement( 1 ), "measurement-vector", "entry %zu", i ); i += 2; } }
		X x = xv( v ); int bo = 3 * np, io = bo + 6 * ( nb - 1 ), co = io + 12;
		// the parameter vector describes the network
		for( int p = 0; p < np; p++ ) for( int c = 0; c < 3; c++ ) VC_CHECK( x[ 3 * p + c ] == n.points[ p ]( c ), "parameter-vector", "point %d", p );
		for( int b = 1; b < nb; b++ ) VC_CHECK( poseDist( n.bodyPoses[ b ], rexp( &x[ bo + 6 * ( b - 1 ) + 3 ] ), v3( x[ bo + 6 * ( b - 1 ) ], x[ bo + 6 * ( b - 1 ) + 1 ], x[ bo + 6 * ( b - 1 ) + 2 ] ) ) < 1e-9, "parameter-vector", "body pose %d", b ); for( int i = 0; i < 2; i++ ) VC_CHECK( poseDist( n.images[ i ], rexp( &x[ io + 6 * i + 3 ] ), v3( x[ io + 6 * i ], x[ io + 6 * i + 1 ], x[ io + 6 * i + 2 ] ) ) < 1e-9, "parameter-vector", "image %d", i );
		F o = [&]( const X& i )
		{
			X r; auto img = [&]( size_t cam, size_t im, const V3& w ) { X d = deh( add( mul( rexp( &i[ io + 6 * im + 3 ] ), w ), v3( i[ io + 6 * im ], i[ io + 6 * im + 1 ], i[ io + 6 * im + 2 ] ) ) ); double k[ 9 ]; if( intr ) for( int c = 0; c < 9; c++ ) k[ c ] = i[ co + 9 * cam + c ]; else { auto& K = n.intrinsics[ cam ]; k[ 0 ] = K( 0, 0 ); k[ 1 ] = K( 0, 1 ); k[ 2 ] = K( 0, 2 ); k[ 3 ] = K( 1, 1 ); k[ 4 ] = K( 1, 2 ); for( int c = 0; c < 4; c++ ) k[ 5 + c ] = n.distortions[ cam ]( c ); } d = dist4( d, k + 5 ); r.push_back( -( k[ 0 ] * d[ 0 ] + k[ 1 ] * d[ 1 ] + k[ 2 ] ) ); r.push_back( -( k[ 3 ] * d[ 1 ] + k[ 4 ] ) ); };
			for( auto& m : n.freePointMeasurements ) img( m.iCamera, m.iImage, v3( i[ 3 * m.iPoint ], i[ 3 * m.iPoint + 1 ], i[ 3 * m.iPoint + 2 ] ) );
			for( auto& m : n.bodyPointMeasurements ) { V3 p = fromU( n.bodies[ m.iBody ][ m.iPoint ] ); if( m.iBodyPose ) { size_t s = bo + 6 * ( m.iBodyPose - 1 ); p = add( mul( rexp( &i[ s + 3 ] ), p ), v3( i[ s ], i[ s + 1 ], i[ s + 2 ] ) ); } img( m.iCamera, m.iImage, p ); } return r;
		};
		UV r1 = nanV( nm ), r2 = nanV( nm ); UM j = nanM( nm, np3 ), j2 = nanM( nm, np3 ); f.evaluate( r1, v ); f.evaluateWithJacobian( r2, v, j ); f.jacobian( v, j2 ); checkV( xv( r1 ), o( x ), "evaluate" ); checkV( xv( r2 ), o( x ), "evaluateWithJacobian" ); checkJ( dm( j ), o, x, {}, 1e-6 ); VC_CHECK( maxDiff( dm( j ), dm( j2 ) ) < 1e-12, "two-jacobians", "differ" );
		// writing a changed parameter vector back and reading it again
		UV w = v; for( size_t i = 0; i < np3; i++ ) w( i ) += 0.01 * ( (int)( i % 5 ) - 2 ); f.updateParametersFromVector( w ); UV b = nanV( np3 ); f.buildParameterVector( b ); 
		for( size_t i = 0; i < np3; i++ ) { bool rotv = ( (int)i >= bo && (int)i < co && ( i - bo ) % 6 >= 3 ); if( !rotv ) VC_NEAR( b( i ), w( i ), 1e-9, "round-trip", "parameter %zu", i ); } for( int p = bo; p < co; p += 6 ) { double a[ 3 ], c[ 3 ]; for( int i = 0; i < 3; i++ ) { a[ i ] = w( p + 3 + i ); c[ i ] = b( p + 3 + i ); } VC_CHECK( maxDiff( rexp( a ), rexp( c ) ) < 1e-9, "round-trip", "rotation at parameter %d", p ); }
		VC_OUT( "ba %d %d %d %d", intr, nb, np, k );
	}
}
static void body() { inverted(); algorithmFunctions(); projections(); toolTip(); motion(); generic(); bundle(); }
VC_MAIN( body() )
