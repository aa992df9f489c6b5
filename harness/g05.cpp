// G05: uncertain poses propagate their covariance to first order under the documented error model
//   x' = q * e_r * x * e_r^* * q^* + t + e_t,   e_r = (e_rx, e_ry, e_rz, 1) small, covariance of (e_t, e_r).
// The oracle differentiates the pose functions numerically with its own rotation matrices.
#include "ut.hpp"
#include <utMath/ErrorPose.h>
#include <utMath/ErrorVector.h>
#include <functional>
using namespace ut;
using Ubitrack::Math::Matrix; using Ubitrack::Math::Vector; using Ubitrack::Math::ErrorPose; using Ubitrack::Math::ErrorVector;
typedef std::array< double, 6 > E6;
struct RP { M3 R; V3 t; };
static RP comp( const RP& a, const RP& b ) { RP r; r.R = mul( a.R, b.R ); r.t = add( mul( a.R, b.t ), a.t ); return r; }
static RP invp( const RP& a ) { RP r; r.R = trans( a.R ); r.t = mulS( mul( r.R, a.t ), -1 ); return r; }
// rotation of the quaternion (x,y,z,1)/norm: Rodrigues with axis e and angle 2 atan |e|
static M3 small( double x, double y, double z ) { V3 e = v3( x, y, z ); double n = norm( e ); return n == 0 ? ident() : rodrigues( e, 2 * std::atan( n ) ); }
static RP perturb( const RP& p, const E6& e ) { RP r; r.t = add( p.t, v3( e[ 0 ], e[ 1 ], e[ 2 ] ) ); r.R = mul( p.R, small( e[ 3 ], e[ 4 ], e[ 5 ] ) ); return r; }
static E6 errorOf( const RP& p0, const RP& p )
{
	M3 d = mul( trans( p0.R ), p.R ); double w4 = 1 + traceOf( d );   // 4 w^2; e_r = vector part / w
	E6 e; V3 t = sub( p.t, p0.t ); for( int i = 0; i < 3; i++ ) e[ i ] = t[ i ];
	e[ 3 ] = ( d.m[ 2 ][ 1 ] - d.m[ 1 ][ 2 ] ) / w4; e[ 4 ] = ( d.m[ 0 ][ 2 ] - d.m[ 2 ][ 0 ] ) / w4; e[ 5 ] = ( d.m[ 1 ][ 0 ] - d.m[ 0 ][ 1 ] ) / w4; return e;
}
static const double H = 1e-4;
static D jac( const RP& p, const std::function< RP( const RP& ) >& f )
{
	D j( 6, 6 ); RP r0 = f( p );
	for( int c = 0; c < 6; c++ )
	{
		E6 e = {{ 0, 0, 0, 0, 0, 0 }}; e[ c ] = H; E6 a = errorOf( r0, f( perturb( p, e ) ) ); e[ c ] = -H; E6 b = errorOf( r0, f( perturb( p, e ) ) );
		e[ c ] = 2 * H; E6 a2 = errorOf( r0, f( perturb( p, e ) ) ); e[ c ] = -2 * H; E6 b2 = errorOf( r0, f( perturb( p, e ) ) );
		for( int r = 0; r < 6; r++ ) j( r, c ) = ( 8 * ( a[ r ] - b[ r ] ) - ( a2[ r ] - b2[ r ] ) ) / ( 12 * H );
	}
	return j;
}
static D jacV( const RP& p, const V3& v )
{
	D j( 3, 6 );
	for( int c = 0; c < 6; c++ )
	{
		V3 y[ 4 ]; double s[ 4 ] = { 1, -1, 2, -2 };
		for( int k = 0; k < 4; k++ ) { E6 e = {{ 0, 0, 0, 0, 0, 0 }}; e[ c ] = s[ k ] * H; RP q = perturb( p, e ); y[ k ] = add( mul( q.R, v ), q.t ); }
		for( int r = 0; r < 3; r++ ) j( r, c ) = ( 8 * ( y[ 0 ][ r ] - y[ 1 ][ r ] ) - ( y[ 2 ][ r ] - y[ 3 ][ r ] ) ) / ( 12 * H );
	}
	return j;
}
static D prop( const D& j, const D& c ) { return mul( mul( j, c ), trans( j ) ); }
template< class M > static M toU( const D& d ) { M m; for( size_t i = 0; i < d.r; i++ ) for( size_t j = 0; j < d.c; j++ ) m( i, j ) = d( i, j ); return m; }

// covariances: anisotropic, correlated, singular; deterministic
static std::vector< D > covs( size_t n )
{
	std::vector< D > r; r.push_back( D( n, n ) ); r.push_back( eye( n ) );
	{ D d( n, n ); for( size_t i = 0; i < n; i++ ) d( i, i ) = 1 + i; r.push_back( d ); }
	for( int s = 1; s <= 2; s++ ) { D a( n, n ); for( size_t i = 0; i < n; i++ ) for( size_t j = 0; j < n; j++ ) a( i, j ) = ( (int)( ( i * 7 + j * 3 * s + i * j + s ) % 11 ) - 5 ) / 5.0; r.push_back( mul( a, trans( a ) ) ); }
	{ D v( n, 1 ); for( size_t i = 0; i < n; i++ ) v( i, 0 ) = ( i % 2 ? -1.0 : 1.0 ) * ( 1 + i * 0.5 ); r.push_back( mul( v, trans( v ) ) ); }
	return r;
}
static double maxNorm( const D& a ) { return 1 + maxAbs( a ); }
static void checkCov( const D& got, const D& want, const char* key, const std::string& what )
{
	double m = maxNorm( want );
	VC_CHECK( maxDiff( got, want ) < 1e-6 * m, key, "%s: covariance off by %g (scale %g)", what.c_str(), maxDiff( got, want ), m );
	VC_CHECK( maxDiff( got, trans( got ) ) < 1e-9 * m, "symmetric", "%s: covariance not symmetric", what.c_str() );
	D s = scale( add( got, trans( got ) ), 0.5 ); if( maxAbs( s ) < 1e200 ) VC_CHECK( eigSym( s )[ 0 ] > -1e-8 * m, "semidefinite", "%s: negative eigenvalue", what.c_str() );
}
struct G { ErrorPose p[ 6 ]; Pose plain; RP r; std::string s; };
static void checkMean( const Pose& p, const RP& r, const char* key, const std::string& what )
{ VC_CHECK( poseDist( p, r.R, r.t ) < 1e-7 * ( 1 + norm( r.t ) ), key, "%s: mean off by %g", what.c_str(), poseDist( p, r.R, r.t ) ); }

static void body()
{
	std::vector< Rot > rots = rotLattice( vc::thorough() ? 1 : 0 );
	V3 ts[] = { v3( 0, 0, 0 ), v3( 0.5, 3, -7 ), v3( -1, 0.25, 2 ) };
	std::vector< D > C6 = covs( 6 ), C3 = covs( 3 );
	std::vector< G > g;
	for( size_t i = 0; i < rots.size(); i++ ) for( int k = 0; k < 3; k++ )
	{
		if( i % 3 != (size_t)k && k != 1 ) continue;
		G x; x.r.R = rots[ i ].R; x.r.t = ts[ k ]; x.plain = Pose( qOf( rots[ i ], ( i + k ) % 2 ? 1 : -1 ), u3( ts[ k ] ) );
		for( int c = 0; c < 6; c++ ) x.p[ c ] = ErrorPose( x.plain.rotation(), u3( ts[ k ] ), toU< Matrix< double, 6, 6 > >( C6[ c ] ) );
		x.s = str( rots[ i ] ) + " t " + str( ts[ k ] ); g.push_back( x );
	}
	V3 pts[] = { v3( 0, 0, 0 ), v3( 1, 0, 0 ), v3( 0, 2, 0 ), v3( 0, 0, -3 ), v3( -3, 2, 5 ) };
	for( size_t i = 0; i < g.size(); i++ )
	{
		if( !vc::next( "uncertain pose %s with 6 covariances: construct, invert, act, convert", g[ i ].s.c_str() ) ) continue;
		const G& a = g[ i ]; RP inv = invp( a.r ); D J = jac( a.r, invp );
		for( int c = 0; c < 6; c++ )
		{
			vc::state(); std::string w = vc::fmt( "covariance %d", c );
			const ErrorPose& p = a.p[ c ];
			checkMean( p, a.r, "construct-mean", w ); VC_CHECK( maxDiff( dense( p.covariance() ), C6[ c ] ) == 0, "construct-covariance", "covariance changed by construction" );
			ErrorPose p2( a.plain, toU< Matrix< double, 6, 6 > >( C6[ c ] ) ); VC_CHECK( maxDiff( dense( p2.covariance() ), C6[ c ] ) == 0, "construct-covariance", "covariance changed by construction from a pose" );
			ErrorPose q = ~p; checkMean( q, inv, "inverse-mean", w ); checkCov( dense( q.covariance() ), prop( J, C6[ c ] ), "inverse-covariance", w );
			ErrorPose qq = ~q; checkMean( qq, a.r, "inverse-twice-mean", w ); checkCov( dense( qq.covariance() ), C6[ c ], "inverse-twice-covariance", w );
			for( const V3& x : pts )
			{
				ErrorVector< double, 3 > y = p * u3( x ); V3 e = add( mul( a.r.R, x ), a.r.t ); D jv = jacV( a.r, x );
				VC_CHECK( dist( fromU( y.value ), e ) < 1e-7 * ( 1 + norm( e ) ), "act-mean", "point %s", str( x ).c_str() );
				checkCov( dense( y.covariance ), prop( jv, C6[ c ] ), "act-covariance", "point " + str( x ) );
				double tr = 0; for( int k = 0; k < 3; k++ ) tr += dense( y.covariance )( k, k ); VC_CLOSE( y.getRMS(), std::sqrt( tr ), 1e-6, "rms" );
				D Rm( 3, 3 ); for( int r = 0; r < 3; r++ ) for( int k = 0; k < 3; k++ ) Rm( r, k ) = a.r.R.m[ r ][ k ];
				for( int b = 0; b < 6; b++ )
				{
					ErrorVector< double, 3 > v( u3( x ), toU< Matrix< double, 3, 3 > >( C3[ b ] ) ), z = p * v; vc::step();
					VC_CHECK( dist( fromU( z.value ), e ) < 1e-7 * ( 1 + norm( e ) ), "act-uncertain-mean", "point %s", str( x ).c_str() );
					checkCov( dense( z.covariance ), add( prop( jv, C6[ c ] ), prop( Rm, C3[ b ] ) ), "act-uncertain-covariance", vc::fmt( "point %s with covariance %d", str( x ).c_str(), b ) );
				}
			}
			// the seven-parameter form
			ErrorPose t( p ); ErrorVector< double, 7 > v; t.toAdditiveErrorVector( v );
			VC_CHECK( v.value( 0 ) == a.r.t[ 0 ] && v.value( 1 ) == a.r.t[ 1 ] && v.value( 2 ) == a.r.t[ 2 ] && v.value( 3 ) == a.plain.rotation().x() && v.value( 4 ) == a.plain.rotation().y() && v.value( 5 ) == a.plain.rotation().z() && v.value( 6 ) == a.plain.rotation().w(), "additive-mean", "parameters differ" );
			D v7 = dense( v.covariance ); VC_CHECK( maxDiff( v7, trans( v7 ) ) < 1e-9 * maxNorm( v7 ), "additive-symmetric", "not symmetric" );
			ErrorPose back = ErrorPose::fromAdditiveErrorVector( v ); checkMean( back, a.r, "additive-round-trip-mean", w ); checkCov( dense( back.covariance() ), C6[ c ], "additive-round-trip-covariance", w );
			// additive covariance is the first-order image: translation block unchanged, rotation block = L(q) C L(q)^T plus a part along q
			vc::step( 4 );
			vc::outcome( a.s + w );
		}
		// from an arbitrary additive covariance: e_r = vector part of q^* (q + dq)
		Q q = a.plain.rotation(); double X = q.x(), Y = q.y(), Z = q.z(), W = q.w();
		D L( 6, 7 ); for( int k = 0; k < 3; k++ ) L( k, k ) = 1;
		double row[ 3 ][ 4 ] = { { W, Z, -Y, -X }, { -Z, W, X, -Y }, { Y, -X, W, -Z } }; for( int r = 0; r < 3; r++ ) for( int c = 0; c < 4; c++ ) L( 3 + r, 3 + c ) = row[ r ][ c ];
		std::vector< D > C7 = covs( 7 );
		for( size_t c = 0; c < C7.size(); c++ )
		{
			ErrorVector< double, 7 > v; a.plain.toVector( v.value ); v.covariance = toU< Matrix< double, 7, 7 > >( C7[ c ] );
			ErrorPose p = ErrorPose::fromAdditiveErrorVector( v ); checkMean( p, a.r, "from-additive-mean", "additive" ); checkCov( dense( p.covariance() ), prop( L, C7[ c ] ), "from-additive-covariance", vc::fmt( "additive covariance %d", (int)c ) ); vc::step(); vc::state();
		}
	}
	for( size_t i = 0; i < g.size(); i++ ) for( size_t j = 0; j < g.size(); j++ )
	{
		if( !vc::next( "%s  with  %s: products, invert-multiply, interpolation", g[ i ].s.c_str(), g[ j ].s.c_str() ) ) continue;
		const G &a = g[ i ], &b = g[ j ];
		RP ab = comp( a.r, b.r ), iab = comp( invp( a.r ), b.r );
		D Ja = jac( a.r, [ & ]( const RP& x ) { return comp( x, b.r ); } ), Jb = jac( b.r, [ & ]( const RP& x ) { return comp( a.r, x ); } );
		D Ia = jac( a.r, [ & ]( const RP& x ) { return comp( invp( x ), b.r ); } ), Ib = jac( b.r, [ & ]( const RP& x ) { return comp( invp( a.r ), x ); } );
		for( int c = 0; c < 6; c++ ) for( int d = 0; d < 6; d++ )
		{
			if( ( c + d + i + j ) % 3 && !( c == 3 && d == 4 ) && !vc::thorough() ) continue;
			vc::state(); std::string w = vc::fmt( "covariances %d and %d", c, d );
			ErrorPose r = a.p[ c ] * b.p[ d ]; checkMean( r, ab, "product-mean", w ); checkCov( dense( r.covariance() ), add( prop( Ja, C6[ c ] ), prop( Jb, C6[ d ] ) ), "product-covariance", w );
			ErrorPose s = invertMultiply( a.p[ c ], b.p[ d ] ); checkMean( s, iab, "invert-multiply-mean", w ); checkCov( dense( s.covariance() ), add( prop( Ia, C6[ c ] ), prop( Ib, C6[ d ] ) ), "invert-multiply-covariance", w );
			if( d == 0 ) { ErrorPose x = a.p[ c ] * b.plain; checkMean( x, ab, "product-exact-mean", w ); checkCov( dense( x.covariance() ), prop( Ja, C6[ c ] ), "product-exact-covariance", w ); }
			if( c == 0 ) { ErrorPose x = a.plain * b.p[ d ]; checkMean( x, ab, "exact-product-mean", w ); checkCov( dense( x.covariance() ), prop( Jb, C6[ d ] ), "exact-product-covariance", w ); }
			if( c == 3 && d == 4 ) for( int k = 0; k <= 4; k++ )
			{
				double t = k / 4.0; ErrorPose x = linearInterpolate( a.p[ c ], b.p[ d ], t ); Pose m = linearInterpolate( a.plain, b.plain, t );
				VC_CHECK( poseDist( x, matOf( m.rotation() ), fromU( m.translation() ) ) < 1e-9, "interpolate-mean", "t=%g", t );
				checkCov( dense( x.covariance() ), add( scale( C6[ c ], ( 1 - t ) * ( 1 - t ) ), scale( C6[ d ], t * t ) ), "interpolate-covariance", vc::fmt( "t=%g", t ) );
			}
			vc::step( 3 ); 
		}
		vc::outcome( vc::fmt( "%.2f %.2f %.2f %.2f", ab.R.m[ 0 ][ 0 ], ab.R.m[ 1 ][ 2 ], ab.t[ 0 ], ab.t[ 2 ] ) );
	}
}
VC_MAIN( body() )
