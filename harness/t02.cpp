// T02: rotation-only filters track every history and predict forwards and backwards.
#include "ut.hpp"
#include "kf.hpp"
#include <algorithm>
#include <utTracking/RotationOnlyKF.h>
#include <utAlgorithm/OnlineRotHec.h>
#include <utAlgorithm/RotationHecKalmanFilter.h>
#include <utMath/RotationVelocity.h>
using namespace ut;
namespace um = Ubitrack::Math; namespace me = Ubitrack::Measurement; namespace tr = Ubitrack::Tracking; namespace ua = Ubitrack::Algorithm;
static const double MS = 1e6;
static X toX( const Q& q ) { return { q.x(), q.y(), q.z(), q.w() }; }
struct Ref
{
	bool small; X x = { 0, 0, 0, 1, 0, 0, 0 }; D P = eye( 7 ); double t = 0;
	static X predict( const X& x, double dt ) { X y = x, r = qmul( part( x, 0, 4 ), qexp( part( x, 4, 3 ), dt ) ); std::copy( r.begin(), r.end(), y.begin() ); return y; }
	void time( double to )
	{
		if( !t ) { t = to; return; } double dt = ( to - t ) * 1e-9; t = to; D J( 7, 7 ); for( int k = 0; k < 7; k++ ) { X a = x, b = x; a[ k ] += 1e-5; b[ k ] -= 1e-5; X fa = predict( a, dt ), fb = predict( b, dt ); for( int i = 0; i < 7; i++ ) J( i, k ) = ( fa[ i ] - fb[ i ] ) / 2e-5; }
		if( small ) { for( int i = 0; i < 4; i++ ) for( int k = 0; k < 4; k++ ) J( i, k ) = i == k; for( int k = 0; k < 3; k++ ) { X e( 4, 0.0 ); e[ k ] = dt / 2; X d = qmul( part( x, 0, 4 ), e ); for( int i = 0; i < 4; i++ ) J( i, 4 + k ) = d[ i ]; } }
		P = mul( mul( J, P ), trans( J ) ); for( int i = 0; i < 7; i++ ) P( i, i ) += ( i < 4 ? 0.001 : 4.0 ) * dt * dt; x = predict( x, dt );
	}
	void update( int s, const X& z, double var )
	{
		int m = z.size(); D H( m, 7 ), I( m, m ); for( int i = 0; i < m; i++ ) H( i, s + i ) = 1; D PH = mul( P, trans( H ) ), S = add( mul( H, PH ), scale( eye( m ), var ) ); inv( S, I ); D K = mul( PH, I ); X in; for( int i = 0; i < m; i++ ) in.push_back( z[ i ] - x[ s + i ] ); for( int i = 0; i < 7; i++ ) for( int j = 0; j < m; j++ ) x[ i ] += K( i, j ) * in[ j ]; P = sub( P, mul( K, trans( PH ) ) );
		double n = 0; for( int i = 0; i < 4; i++ ) n += x[ i ] * x[ i ]; n = std::sqrt( n ); D J = eye( 7 ); for( int i = 0; i < 4; i++ ) for( int k = 0; k < 4; k++ ) J( i, k ) = ( ( i == k ) - x[ i ] * x[ k ] / ( n * n ) ) / n; for( int i = 0; i < 4; i++ ) x[ i ] /= n; P = mul( mul( J, P ), trans( J ) );
	}
	void rot( double to, X q ) { if( !t ) std::copy( q.begin(), q.end(), x.begin() ); time( to ); double ip = 0; for( int i = 0; i < 4; i++ ) ip += q[ i ] * x[ i ]; if( ip < 0 ) for( double& v : q ) v = -v; update( 0, q, 0.004 ); }
	void vel( double to, const X& w ) { time( to ); update( 4, w, 1e-5 ); }
};
struct Node { tr::RotationOnlyKF f; Ref a, b; double t; };
struct Op { char kind; int v; double dt; };
static const double QS[ 5 ][ 4 ] = { { 0, 0, 0, 1 }, { 0.05, -0.02, 0.03, 0.998 }, { 0.4, 0.5, -0.3, 0.7 }, { -0.05, 0.02, -0.03, -0.998 }, { 0.7, -0.1, 0.2, -0.1 } };
static const double WS[ 3 ][ 3 ] = { { 0, 0, 0 }, { 0.3, -0.2, 0.5 }, { -1.5, 2, 1 } };
static Q quat( int i ) { const double* q = QS[ i ]; double n = std::sqrt( q[ 0 ] * q[ 0 ] + q[ 1 ] * q[ 1 ] + q[ 2 ] * q[ 2 ] + q[ 3 ] * q[ 3 ] ); return Q( q[ 0 ] / n, q[ 1 ] / n, q[ 2 ] / n, q[ 3 ] / n ); }
static std::string show( const std::vector< Op >& h ) { std::string s; for( auto& o : h ) s += vc::fmt( "%c%d+%gms ", o.kind, o.v, o.dt ); return s; }
static X state( const tr::RotationOnlyKF& f ) { X x; for( int i = 0; i < 7; i++ ) x.push_back( f.getState()( i ) ); return x; }
static double diff( const X& a, const X& b ) { double d = 0; for( size_t i = 0; i < a.size(); i++ ) { double e = std::fabs( a[ i ] - b[ i ] ); if( !( e <= d ) ) d = e; } return d; }
static void check( const Node& n, const std::vector< Op >& h )
{
	X x = state( n.f ); double big = 1; for( double v : n.a.x ) big = std::max( big, std::fabs( v ) ); double sp = diff( n.a.x, n.b.x ), d = diff( x, n.a.x ), q = 0; for( int i = 0; i < 4; i++ ) q += x[ i ] * x[ i ]; VC_CHECK( std::isfinite( q ) && std::fabs( q - 1 ) < 1e-9, "unit", "%s: %g", show( h ).c_str(), q ); VC_CHECK( d <= 1.5 * sp + 1e-7 * big, "state", "%s: off by %g of %g", show( h ).c_str(), d, sp ); vc::outcome( vc::fmt( "agreement 1e%d", (int)std::floor( std::log10( d + 1e-16 ) ) ) );
	tr::RotationOnlyKF f( n.f ); for( double dt : { 0.0, 15.0, 700.0, -15.0, -900.0 } ) { unsigned long long t = (unsigned long long)( n.t + dt * MS ); auto p = f.predict( t ); vc::step(); X y = Ref::predict( x, dt * 1e-3 ); VC_CHECK( p.time() == t && diff( toX( *p ), part( y, 0, 4 ) ) < 1e-9, "predict", "%s by %g ms: off by %g", show( h ).c_str(), dt, diff( toX( *p ), part( y, 0, 4 ) ) ); } VC_CHECK( state( f ) == x, "predict-changes", "%s", show( h ).c_str() );
}
static void apply( Node& n, const Op& o )
{
	n.t += o.dt * MS; unsigned long long t = (unsigned long long)n.t; vc::step(); if( o.kind == 'R' ) { Q q = quat( o.v ); n.f.addRotationMeasurement( me::Rotation( t, q ) ); n.a.rot( n.t, toX( q ) ); n.b.rot( n.t, toX( q ) ); } else { const double* w = WS[ o.v ]; n.f.addVelocityMeasurement( me::RotationVelocity( t, um::RotationVelocity( w[ 0 ], w[ 1 ], w[ 2 ] ) ) ); X z( w, w + 3 ); n.a.vel( n.t, z ); n.b.vel( n.t, z ); if( o.dt >= 20 ) for( int k = 0; k < 3; k++ ) VC_NEAR( n.f.getState()( 4 + k ), w[ k ], 0.05, "pull-velocity", "%d", k ); }
}
static void explore( const Node& n, const std::vector< Op >& ops, std::vector< Op >& h, int depth ) { vc::state(); check( n, h ); if( depth == 0 ) return; for( auto& o : ops ) { Node c( n ); apply( c, o ); h.push_back( o ); explore( c, ops, h, depth - 1 ); h.pop_back(); } }
// a accurate sequence: the estimate settles on the measured rotation
static void settles( int v, int w )
{
	tr::RotationOnlyKF f; double t = 1000 * MS; X q = toX( quat( v ) ), ws( WS[ w ], WS[ w ] + 3 ); f.addRotationMeasurement( me::Rotation( (unsigned long long)t, quat( v ? 0 : 2 ) ) ); for( int i = 0; i < 400; i++ ) { t += 20 * MS; X r = qmul( q, qexp( ws, 0.02 * i ) ); f.addRotationMeasurement( me::Rotation( (unsigned long long)t, Q( r[ 0 ], r[ 1 ], r[ 2 ], r[ 3 ] ) ) ); vc::step(); }
	X r = qmul( q, qexp( ws, 0.02 * 399 ) ), p = toX( *f.predict( (unsigned long long)t ) ); VC_CHECK( std::min( diff( p, r ), diff( p, { -r[ 0 ], -r[ 1 ], -r[ 2 ], -r[ 3 ] } ) ) < 0.02, "settles", "rotation %d velocity %d: off by %g", v, w, diff( p, r ) ); X s = state( f ); VC_CHECK( diff( part( s, 4, 3 ), ws ) < 0.1, "settles-velocity", "rotation %d velocity %d: off by %g", v, w, diff( part( s, 4, 3 ), ws ) );
}
typedef std::vector< Rot > Rots;
static double quatDist( const Q& a, const X& b ) { X x = toX( a ); return std::min( diff( x, b ), diff( x, { -b[ 0 ], -b[ 1 ], -b[ 2 ], -b[ 3 ] } ) ); }
static void handEye( const Rot& off, const std::vector< M3 >& motions, int set, int signs )
{
	Q xq = qOf( off ); X x = toX( xq ); if( std::fabs( x[ 3 ] ) < 0.05 ) return; // half turns are not representable by the vector form
	int n = motions.size(); std::vector< Q > as, bs; for( int i = 0; i < n; i++ ) { Q b( um3( motions[ i ] ) ), a( um3( mul( mul( off.R, motions[ i ] ), trans( off.R ) ) ) ); if( signs >> ( 2 * i ) & 1 ) a = Q( -a.x(), -a.y(), -a.z(), -a.w() ); if( signs >> ( 2 * i + 1 ) & 1 ) b = Q( -b.x(), -b.y(), -b.z(), -b.w() ); as.push_back( a ); bs.push_back( b ); }
	std::vector< int > o; for( int i = 0; i < n; i++ ) o.push_back( i );
	do { ua::OnlineRotHec f; for( int i : o ) { f.addMeasurement( as[ i ], bs[ i ] ); vc::step(); } vc::state(); double e = quatDist( f.computeResult(), x ); VC_NEAR( qnorm( f.computeResult() ), 1.0, 1e-9, "online-unit", "set %d", set ); VC_CHECK( e < 1e-3, "online", "set %d, signs %x, first %d: off by %g", set, signs, o[ 0 ], e ); ua::RotationHecKalmanFilter k; for( int rep = 0; rep < 12; rep++ ) for( int i : o ) { k.addMeasurement( as[ i ], bs[ i ] ); vc::step(); } double e2 = quatDist( k.getResult(), x ); VC_NEAR( qnorm( k.getResult() ), 1.0, 1e-9, "filter-unit", "set %d", set ); VC_CHECK( e2 < 1e-2, "filter", "set %d, signs %x, first %d: off by %g", set, signs, o[ 0 ], e2 ); D C = dense( k.getCovariance() ); auto ev = eigSym( C ); VC_CHECK( maxDiff( C, trans( C ) ) < 1e-6 * maxAbs( C ) + 1e-6 && ev.front() > -1e-6 * maxAbs( C ) - 1e-6 && ev.back() > -1e-6 * maxAbs( C ) - 1e-6, "filter-covariance", "set %d: %g %g", set, ev.front(), ev.back() ); }
	while( std::next_permutation( o.begin(), o.end() ) && ( vc::thorough() || n < 4 ) );
}
static void body()
{
	std::vector< Op > ops; for( double dt : vc::thorough() ? std::vector< double >{ 0, 1, 20, 300, -10, -180 } : std::vector< double >{ 0, 20, 300, -15 } ) { for( int v = 0; v < 5; v++ ) ops.push_back( { 'R', v, dt } ); for( int v = 0; v < 3; v++ ) ops.push_back( { 'V', v, dt } ); }
	for( auto& a : ops ) for( auto& b : ops ) { if( a.dt || !vc::next( "first %c%d, then %c%d after %g", a.kind, a.v, b.kind, b.v, b.dt ) ) continue; Node n = { tr::RotationOnlyKF(), Ref(), Ref(), 5000 * MS }; n.a.small = false; n.b.small = true; VC_CHECK( state( n.f ) == X( { 0, 0, 0, 1, 0, 0, 0 } ), "initial", "state" ); std::vector< Op > h = { a }; apply( n, a ); check( n, h ); apply( n, b ); h.push_back( b ); explore( n, ops, h, 2 ); VC_OUT( "%c%d %c%d %g", a.kind, a.v, b.kind, b.v, b.dt ); }
	if( vc::next( "constant motion" ) ) for( int v = 0; v < 5; v++ ) for( int w = 0; w < 3; w++ ) settles( v, w );
	std::vector< std::vector< M3 > > sets = { { axisRot( 0, 0.5 ), axisRot( 1, 0.7 ) }, { axisRot( 0, 0.5 ), axisRot( 1, 0.7 ), axisRot( 2, -0.9 ) }, { axisRot( 0, 2.0 ), axisRot( 1, -2.5 ), axisRot( 2, 1.9 ) }, { axisRot( 0, 1.2 ), mul( axisRot( 1, 0.8 ), axisRot( 2, 1.0 ) ), axisRot( 2, 2.8 ), mul( axisRot( 0, -2.0 ), axisRot( 1, 1.0 ) ) }, { axisRot( 0, 0.5 ), axisRot( 0, 1.0 ), axisRot( 1, 4.5 ) } };
	for( auto& r : rotLattice( vc::pick( 0, 1 ) ) ) { if( !vc::next( "online hand-eye rotation %s", str( r ).c_str() ) ) continue; for( size_t s = 0; s < sets.size(); s++ ) { int n = sets[ s ].size(); for( int g = 0; g < 1 << ( 2 * n ); g += ( n > 3 ? 37 : n > 2 ? 5 : 1 ) ) handEye( r, sets[ s ], s, g ); } VC_OUT( "hand-eye %s", str( r ).c_str() ); }
}
VC_MAIN( body() )
