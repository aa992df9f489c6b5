// G02: conversions between rotation representations preserve the rotation.
#include "ut.hpp"
#include <utMath/Util/RotationCast.h>
using namespace ut;
using Ubitrack::Math::Matrix; using Ubitrack::Math::Vector; using Ubitrack::Math::Util::RotationCast;
static const double TOL = 1e-6;

static M3 fromAA( const V3& axis, double ang ) { if( norm( axis ) < 1e-300 ) return std::fabs( std::sin( ang / 2 ) ) < 1e-9 ? ident() : M3{ { { 9, 9, 9 }, { 9, 9, 9 }, { 9, 9, 9 } } }; return rodrigues( axis, ang ); }
static void same( const M3& got, const M3& exp, const char* key ) { double d = maxDiff( got, exp ); VC_CHECK( d < TOL, key, "rotation changed by %g", d ); }
template< class T > static V3 av( const Vector< T, 3 >& v ) { return v3( v( 0 ), v( 1 ), v( 2 ) ); }

// quaternion from the library's casts must be unit and finite
static void sameQ( const Q& q, const M3& exp, const char* key )
{ VC_CHECK( std::fabs( qnorm( q ) - 1 ) < TOL, key, "not a unit quaternion: %s", str( q ).c_str() ); same( matOf( q ), exp, key ); }

static void checkMatrix( const M3& R )
{
	Matrix< double, 3, 3 > m = um3( R );
	Q q( m ); sameQ( q, R, "quaternion-from-matrix" );
	Matrix< double, 4, 4 > m4; for( int i = 0; i < 4; i++ ) for( int j = 0; j < 4; j++ ) m4( i, j ) = i < 3 && j < 3 ? R.m[ i ][ j ] : i == j;
	Q q4( m4 ); sameQ( q4, R, "quaternion-from-matrix44" );
	Matrix< double, 0, 0 > md( 3, 3 ); for( int i = 0; i < 3; i++ ) for( int j = 0; j < 3; j++ ) md( i, j ) = R.m[ i ][ j ];
	Q qd( md ); sameQ( qd, R, "quaternion-from-dynamic-matrix" );
	Q c = RotationCast< Q >()( m ); sameQ( c, R, "cast-matrix-quaternion" );
	Q c4 = RotationCast< Q >()( m4 ); sameQ( c4, R, "cast-matrix44-quaternion" );
	Vector< double, 4 > aa = RotationCast< Vector< double, 4 > >()( m );
	same( fromAA( v3( aa( 0 ), aa( 1 ), aa( 2 ) ), aa( 3 ) ), R, "cast-matrix-axisangle" );
	Vector< double, 3 > rv = RotationCast< Vector< double, 3 > >()( m );
	same( fromAA( av( rv ), norm( av( rv ) ) ), R, "cast-matrix-rotvec" );
	Matrix< double, 3, 3 > mm = RotationCast< Matrix< double, 3, 3 > >()( m ); same( m3( mm ), R, "cast-matrix-matrix" );
	vc::step( 7 );
}

static void body()
{
	std::vector< Rot > rots = rotLattice( 2 );
	if( vc::thorough() )
	{
		// dense fan of axes and angles around the half turn and the branch boundaries
		for( int a = -8; a <= 8; a++ ) for( int b = -8; b <= 8; b++ ) for( int c = -8; c <= 8; c++ )
		{
			if( std::max( std::abs( a ), std::max( std::abs( b ), std::abs( c ) ) ) != 8 ) continue;
			double ang[] = { 20, 89.5, 119.9, 120.1, 178, 179.9999, 180, 180 - 1e-6, 180 - 1e-8 };
			for( double g : ang ) { Rot r; r.axis = v3( a, b, c ); r.angle = g * PI / 180; r.R = rodrigues( r.axis, r.angle ); rots.push_back( r ); }
		}
	}
	for( size_t i = 0; i < rots.size(); i++ ) for( int sg = -1; sg <= 1; sg += 2 )
	{
		const Rot& r = rots[ i ];
		if( !vc::next( "%s sign %d", str( r ).c_str(), sg ) ) continue;
		vc::state();
		Q q = qOf( r, sg );
		checkMatrix( r.R );
		Matrix< double, 3, 3 > fm; q.toMatrix( fm ); Q back( fm ); sameQ( back, r.R, "quaternion-matrix-quaternion" );
		// products of rotations that should be exactly orthonormal only up to rounding
		Q pr( Q( q * qOf( rots[ ( i * 7 + 3 ) % rots.size() ] ) ) * ( ~qOf( rots[ ( i * 7 + 3 ) % rots.size() ] ) ) );
		Matrix< double, 3, 3 > pm; pr.toMatrix( pm ); Q pb( pm ); sameQ( pb, r.R, "matrix-with-rounding" );
		// axis-angle
		Vector< double, 3 > ax; double an; Q qq( q ); qq.toAxisAngle( ax, an );
		VC_CHECK( vc::finite( an ) && an >= -1e-9 && an <= 2 * PI + 1e-9, "axisangle-range", "angle %g", an );
		same( fromAA( av( ax ), an ), r.R, "to-axisangle" );
		Q fromaa( ax, an ); sameQ( fromaa, r.R, "axisangle-roundtrip" );
		Vector< float, 3 > axf; float anf; qq.toAxisAngle( axf, anf );
		{ double d = maxDiff( fromAA( av( axf ), anf ), r.R ); VC_CHECK( d < 2e-3, "to-axisangle-float", "rotation changed by %g", d ); }
		Q prod( q * ( ~q ) ); Vector< double, 3 > ax0; double an0; prod.toAxisAngle( ax0, an0 );
		same( fromAA( av( ax0 ), an0 ), ident(), "axisangle-of-near-identity" );
		// log / exp
		U3 lg = q.toLogarithm(); V3 lv = fromU( lg );
		VC_CHECK( norm( lv ) <= PI + 1e-6, "log-range", "|log| = %g", norm( lv ) );
		same( norm( lv ) < 1e-12 ? ident() : rodrigues( lv, norm( lv ) ), r.R, "log" );
		Q ex = Q::fromLogarithm( lg ); sameQ( ex, r.R, "exp-log" );
		V3 own = mulS( unit( r.axis ), r.angle ); Q ex2 = Q::fromLogarithm( u3( own ) ); sameQ( ex2, r.R, "exp" );
		U3 lp = prod.toLogarithm(); VC_CHECK( norm( fromU( lp ) ) < 1e-6, "log-of-near-identity", "|log| = %g", norm( fromU( lp ) ) );
		// rotation casts between all representations
		Matrix< double, 3, 3 > cm = RotationCast< Matrix< double, 3, 3 > >()( q ); same( m3( cm ), r.R, "cast-quaternion-matrix" );
		Matrix< double, 4, 4 > cm4 = RotationCast< Matrix< double, 4, 4 > >()( q ); same( m3( cm4 ), r.R, "cast-quaternion-matrix44" );
		Vector< double, 4 > ca = RotationCast< Vector< double, 4 > >()( q ); same( fromAA( v3( ca( 0 ), ca( 1 ), ca( 2 ) ), ca( 3 ) ), r.R, "cast-quaternion-axisangle" );
		Vector< double, 3 > cr = RotationCast< Vector< double, 3 > >()( q ); same( fromAA( av( cr ), norm( av( cr ) ) ), r.R, "cast-quaternion-rotvec" );
		Q cq = RotationCast< Q >()( q ); sameQ( cq, r.R, "cast-quaternion-quaternion" );
		V3 u = unit( r.axis ); Vector< double, 4 > a4( u[ 0 ], u[ 1 ], u[ 2 ], r.angle * sg ); M3 Rs = sg > 0 ? r.R : trans( r.R );
		Q qa = RotationCast< Q >()( a4 ); sameQ( qa, Rs, "cast-axisangle-quaternion" );
		Matrix< double, 3, 3 > ma = RotationCast< Matrix< double, 3, 3 > >()( a4 ); same( m3( ma ), Rs, "cast-axisangle-matrix" );
		Vector< double, 3 > ra = RotationCast< Vector< double, 3 > >()( a4 ); same( fromAA( av( ra ), norm( av( ra ) ) ), Rs, "cast-axisangle-rotvec" );
		Vector< double, 4 > aa4 = RotationCast< Vector< double, 4 > >()( a4 ); same( fromAA( v3( aa4( 0 ), aa4( 1 ), aa4( 2 ) ), aa4( 3 ) ), Rs, "cast-axisangle-axisangle" );
		Vector< double, 3 > rv( u3( mulS( u, r.angle * sg ) ) );
		Q qr = RotationCast< Q >()( rv ); sameQ( qr, Rs, "cast-rotvec-quaternion" );
		Matrix< double, 3, 3 > mr = RotationCast< Matrix< double, 3, 3 > >()( rv ); same( m3( mr ), Rs, "cast-rotvec-matrix" );
		Vector< double, 4 > ar = RotationCast< Vector< double, 4 > >()( rv ); same( fromAA( v3( ar( 0 ), ar( 1 ), ar( 2 ) ), ar( 3 ) ), Rs, "cast-rotvec-axisangle" );
		Q qchain = RotationCast< Q >()( ca ); sameQ( qchain, r.R, "cast-chain-quaternion-axisangle-quaternion" );
		Q qchain2 = RotationCast< Q >()( cm ); sameQ( qchain2, r.R, "cast-chain-quaternion-matrix-quaternion" );
		Q qchain3 = RotationCast< Q >()( cr ); sameQ( qchain3, r.R, "cast-chain-quaternion-rotvec-quaternion" );
		// Euler angles
		int ord[ 6 ][ 3 ] = { { 0, 1, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 }, { 0, 2, 1 }, { 1, 0, 2 } };
		U3 e0 = q.getEulerAngles();
		same( mul( mul( axisRot( 2, e0( 2 ) ), axisRot( 1, e0( 1 ) ) ), axisRot( 0, e0( 0 ) ) ), r.R, "euler-default" );
		for( int s = 0; s < 6; s++ )
		{
			U3 e = q.getEulerAngles( Q::t_EulerSequence( s ) );
			// R = R_third(gamma) R_second(beta) R_first(alpha); sin(beta) from the oracle matrix
			int a = ord[ s ][ 0 ], c = ord[ s ][ 2 ]; double sgn = ( ord[ s ][ 1 ] == ( a + 1 ) % 3 ) ? -1 : 1;
			double sb = sgn * r.R.m[ c ][ a ];
			VC_CHECK( vc::finite( e( 0 ) ) && vc::finite( e( 1 ) ) && vc::finite( e( 2 ) ), "euler-finite", "sequence %d", s );
			if( std::fabs( sb ) > 0.9979 && std::fabs( sb ) < 1 - 1e-9 ) { vc::note( "inside the pole cap (|sin beta| > 0.998) only finiteness is required" ); continue; }
			M3 g = mul( mul( axisRot( c, e( 2 ) ), axisRot( ord[ s ][ 1 ], e( 1 ) ) ), axisRot( a, e( 0 ) ) );
			double d = maxDiff( g, r.R );
			VC_CHECK( d < ( std::fabs( sb ) > 0.9979 ? 1e-4 : TOL ), vc::fmt( "euler-sequence-%d%s", s, std::fabs( sb ) > 0.9979 ? "-pole" : "" ), "rotation changed by %g, angles %g %g %g", d, e( 0 ), e( 1 ), e( 2 ) );
			VC_CHECK( std::fabs( e( 1 ) ) <= PI / 2 + 1e-9, "euler-range", "sequence %d beta %g", s, e( 1 ) );
		}
		vc::step( 40 );
		vc::outcome( vc::fmt( "%.3f %.3f %.3f %d", r.R.m[ 0 ][ 0 ], r.R.m[ 0 ][ 1 ], r.R.m[ 2 ][ 1 ], sg ) );
	}
	// rotations by tiny angles keep their direction and size
	for( int e = 4; e <= 36; e++ ) for( auto& ax : { v3( 1, 0, 0 ), v3( 0, 1, 0 ), v3( 0, 0, -1 ), v3( 1, -1, 1 ), v3( -2, 1, 0.5 ), v3( 0.01, 1, -0.02 ) } ) for( int sg = -1; sg <= 1; sg += 2 )
	{
		double an = std::pow( 10, -e / 4. ); if( !vc::next( "tiny rotation by %g about %s, sign %d", an, str( ax ).c_str(), sg ) ) continue;
		V3 u = unit( ax ), own = mulS( u, an ); double h = std::sin( an / 2 ) * sg; Q q( u[ 0 ] * h, u[ 1 ] * h, u[ 2 ] * h, std::cos( an / 2 ) * sg ); vc::state(); vc::step( 8 );
		auto near = [&]( const V3& l, double tol, const char* key ) { VC_CHECK( dist( l, own ) < tol, key, "rotation vector %s instead of %s", str( l ).c_str(), str( own ).c_str() ); };
		auto vec = []( const Q& x ) { double s = x.w() < 0 ? -2 : 2; return v3( s * x.x(), s * x.y(), s * x.z() ); };
		// the cosine of half the angle carries it to about 3e-8 only
		double in = 1e-9 * an + an * an * an, out = 5e-8;
		near( fromU( q.toLogarithm() ), out, "tiny-log" ); near( vec( Q::fromLogarithm( u3( own ) ) ), in, "tiny-exp" ); near( vec( Q( u3( u ), an ) ), in, "tiny-axisangle" ); near( vec( RotationCast< Q >()( Vector< double, 3 >( u3( own ) ) ) ), in + 1e-7, "tiny-cast-rotvec" ); near( vec( RotationCast< Q >()( Vector< double, 4 >( u[ 0 ], u[ 1 ], u[ 2 ], an ) ) ), in, "tiny-cast-axisangle" );
		Vector< double, 3 > cr = RotationCast< Vector< double, 3 > >()( q ); V3 rv = av( cr ); if( norm( rv ) > PI ) rv = mulS( rv, 1 - 2 * PI / norm( rv ) ); near( rv, 2e-7, "tiny-to-rotvec" ); Vector< double, 3 > x; double a; Q qq( q ); qq.toAxisAngle( x, a ); while( a > PI ) a -= 2 * PI; near( mulS( av( x ), a ), 2e-7, "tiny-to-axisangle" );
		Matrix< double, 3, 3 > m; q.toMatrix( m ); near( v3( ( m( 2, 1 ) - m( 1, 2 ) ) / 2, ( m( 0, 2 ) - m( 2, 0 ) ) / 2, ( m( 1, 0 ) - m( 0, 1 ) ) / 2 ), in, "tiny-matrix" ); near( vec( Q( m ) ), in + 1e-15, "tiny-from-matrix" );
		VC_OUT( "tiny %d %d", e, sg );
	}
	// Euler constructor: rotation about x by z, then z by x, then y by y
	double g[] = { -3, -PI / 2, -1, -0.3, 0, 0.2, 0.9, PI / 2, 2.5, PI };
	for( double x : g ) for( double y : g ) for( double z : g )
	{
		if( !vc::next( "euler constructor %g %g %g", x, y, z ) ) continue;
		vc::state();
		Q q( x, y, z );
		sameQ( q, mul( mul( axisRot( 1, y ), axisRot( 2, x ) ), axisRot( 0, z ) ), "euler-constructor" );
		vc::step();
		checkMatrix( matOf( q ) );
		vc::outcome( str( q ) );
	}
}
VC_MAIN( body() )
