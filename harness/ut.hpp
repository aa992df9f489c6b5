// conversions between oracle types and the library's types
#ifndef UT_HPP
#define UT_HPP
#include "vc.hpp"
#include "lin.hpp"
#include <utMath/Vector.h>
#include <utMath/Matrix.h>
#include <utMath/Quaternion.h>
#include <utMath/Pose.h>
namespace ut {
using namespace lin;
typedef Ubitrack::Math::Quaternion Q;
typedef Ubitrack::Math::Vector< double, 3 > U3;
typedef Ubitrack::Math::Vector< double, 2 > U2;
typedef Ubitrack::Math::Pose Pose;
inline U3 u3( const V3& v ) { return U3( v[ 0 ], v[ 1 ], v[ 2 ] ); }
inline V3 fromU( const U3& v ) { return v3( v( 0 ), v( 1 ), v( 2 ) ); }
// oracle: unit quaternion of a lattice rotation by half angles, independent of the library's constructor
inline Q qOf( const V3& axis, double angle, int sign = 1 )
{ V3 u = unit( axis ); double s = std::sin( angle / 2 ) * sign; return Q( u[ 0 ] * s, u[ 1 ] * s, u[ 2 ] * s, std::cos( angle / 2 ) * sign ); }
inline Q qOf( const Rot& r, int sign = 1 ) { return qOf( r.axis, r.angle, sign ); }
// oracle: rotation matrix of a quaternion by conjugating basis vectors (Hamilton product written out)
inline M3 matOf( double w, double x, double y, double z )
{
	double n = std::sqrt( w * w + x * x + y * y + z * z ); w /= n; x /= n; y /= n; z /= n;
	M3 R;
	for( int k = 0; k < 3; k++ )
	{
		V3 p = v3( 0, 0, 0 ); p[ k ] = 1;
		V3 u = v3( x, y, z ), t = mulS( cross( u, p ), 2 );
		V3 r = add( add( p, mulS( t, w ) ), cross( u, t ) );
		for( int i = 0; i < 3; i++ ) R.m[ i ][ k ] = r[ i ];
	}
	return R;
}
inline M3 matOf( const Q& q ) { return matOf( q.w(), q.x(), q.y(), q.z() ); }
template< class M > inline M3 m3( const M& m ) { M3 r; for( int i = 0; i < 3; i++ ) for( int j = 0; j < 3; j++ ) r.m[ i ][ j ] = m( i, j ); return r; }
inline Ubitrack::Math::Matrix< double, 3, 3 > um3( const M3& a ) { Ubitrack::Math::Matrix< double, 3, 3 > r; for( int i = 0; i < 3; i++ ) for( int j = 0; j < 3; j++ ) r( i, j ) = a.m[ i ][ j ]; return r; }
inline double qnorm( const Q& q ) { return std::sqrt( q.w() * q.w() + q.x() * q.x() + q.y() * q.y() + q.z() * q.z() ); }
inline std::string str( const Rot& r ) { return vc::fmt( "axis(%g,%g,%g) angle %.12g deg", r.axis[ 0 ], r.axis[ 1 ], r.axis[ 2 ], r.angle * 180 / PI ); }
inline std::string str( const V3& v ) { return vc::fmt( "(%g,%g,%g)", v[ 0 ], v[ 1 ], v[ 2 ] ); }
inline std::string str( const Q& q ) { return vc::fmt( "[%.9g %.9g %.9g;%.9g]", q.x(), q.y(), q.z(), q.w() ); }
template< class M > D dense( const M& m ) { D r( m.size1(), m.size2() ); for( size_t i = 0; i < r.r; i++ ) for( size_t j = 0; j < r.c; j++ ) r( i, j ) = m( i, j ); return r; }
// well-spread points of [-1,1]^3 in a fixed order: radical inverses of the index in bases 2, 3 and 5
inline V3 spreadPoint( size_t i ) { V3 r; size_t b[] = { 2, 3, 5 }; for( int k = 0; k < 3; k++ ) { double f = 1, x = 0; for( size_t j = i + 1; j; j /= b[ k ] ) { f /= b[ k ]; x += f * ( j % b[ k ] ); } r[ k ] = 2 * x - 1; } return r; }
inline std::vector< V3 > spreadPoints( size_t n, double s = 1 ) { std::vector< V3 > r; for( size_t i = 0; i < n; i++ ) r.push_back( mulS( spreadPoint( i ), s ) ); return r; }
// sizes of point sets: every one up to some number, and larger ones around powers of two
inline std::vector< size_t > sizes( size_t from, size_t every, size_t max ) { std::vector< size_t > r; for( size_t n = from; n <= every; n++ ) r.push_back( n ); for( size_t p = 32; p <= max; p *= 2 ) for( size_t n = p - 1; n <= p + 1; n++ ) if( n > every && n <= max ) r.push_back( n ); return r; }
inline double poseDist( const Pose& p, const M3& R, const V3& t )
{ double a = maxDiff( matOf( p.rotation() ), R ); double b = dist( fromU( p.translation() ), t ); if( a != a || b != b ) return 1e30; return std::max( a, b ); }
}
#endif
