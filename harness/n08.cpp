// N08: conics and quadrics keep their geometry.
#include "ut.hpp"
#include <utMath/Geometry/Conic.h>
#include <utMath/Geometry/QuadricFunctors.h>
using namespace ut;
namespace um = Ubitrack::Math; namespace ug = Ubitrack::Math::Geometry;
struct Con { double a, b, c, d, e, f; };   // a x^2 + b xy + c y^2 + d x + e y + f
static double val( const Con& q, double x, double y ) { return q.a * x * x + q.b * x * y + q.c * y * y + q.d * x + q.e * y + q.f; }
// s1 u^2 + s2 v^2 - 1 in the frame turned by th and moved to (x,y), times k
static Con build( double s1, double s2, double th, double x, double y, double k )
{
	double c = std::cos( th ), s = std::sin( th ); Con q;
	q.a = s1 * c * c + s2 * s * s; q.b = 2 * ( s1 - s2 ) * s * c; q.c = s1 * s * s + s2 * c * c;
	q.d = -2 * q.a * x - q.b * y; q.e = -q.b * x - 2 * q.c * y; q.f = q.a * x * x + q.b * x * y + q.c * y * y - 1;
	q.a *= k; q.b *= k; q.c *= k; q.d *= k; q.e *= k; q.f *= k; return q;
}
template< class T > static um::Vector< T, 6 > v6( const Con& q ) { um::Vector< T, 6 > v; v( 0 ) = (T)q.a; v( 1 ) = (T)q.b; v( 2 ) = (T)q.c; v( 3 ) = (T)q.d; v( 4 ) = (T)q.e; v( 5 ) = (T)q.f; return v; }
template< class V > static Con con( const V& v ) { Con q = { v( 0 ), v( 1 ), v( 2 ), v( 3 ), v( 4 ), v( 5 ) }; return q; }
static D mat( const Con& q ) { D m( 3, 3 ); m( 0, 0 ) = q.a; m( 0, 1 ) = m( 1, 0 ) = q.b / 2; m( 1, 1 ) = q.c; m( 0, 2 ) = m( 2, 0 ) = q.d / 2; m( 1, 2 ) = m( 2, 1 ) = q.e / 2; m( 2, 2 ) = q.f; return m; }
static double size( const Con& q ) { return std::max( { std::fabs( q.a ), std::fabs( q.b ), std::fabs( q.c ), std::fabs( q.d ), std::fabs( q.e ), std::fabs( q.f ) } ); }
static double modDist( double a, double b, double m ) { double d = std::fmod( a - b, m ); if( d < 0 ) d += m; return std::min( d, m - d ); }
static const double pts[][ 2 ] = { { 0, 0 }, { 1, 0 }, { 0, 1 }, { -1, 2 }, { 3, -2 }, { 0.5, 0.25 }, { 7, 5 } };

// functions defined for every conic
template< class T > static void common( const Con& q, double tol )
{
	um::Vector< T, 6 > v = v6< T >( q ); double sz = size( q );
	um::Matrix< T, 3, 3 > m = ug::MatrixFromConic< T >()( v ); VC_NEAR( maxDiff( dense( m ), mat( q ) ), 0.0, tol * sz, "matrix", "matrix of the conic" );
	VC_NEAR( maxAbs( sub( mat( con( ug::ConicFromMatrix< T >()( m ) ) ), mat( q ) ) ), 0.0, tol * sz, "matrix-back", "conic of its matrix" );
	um::Matrix< T, 3, 3 > um_( m ); um_( 0, 1 ) += (T)0.5; um_( 1, 0 ) -= (T)0.5; um_( 2, 0 ) += 1; um_( 0, 2 ) -= 1; um_( 1, 2 ) += 2; um_( 2, 1 ) -= 2;
	VC_NEAR( maxAbs( sub( mat( con( ug::ConicFromMatrix< T >()( um_ ) ) ), mat( q ) ) ), 0.0, tol * ( 1 + sz ), "matrix-back", "conic of an unsymmetric matrix" );
	D im, nm = mat( q ); for( int i = 0; i < 3; i++ ) for( int j = 0; j < 3; j++ ) nm( i, j ) /= sz; double dt; bool ok = inv( nm, im, &dt ); dt *= sz * sz * sz; if( ok ) for( int i = 0; i < 3; i++ ) for( int j = 0; j < 3; j++ ) im( i, j ) /= sz;
	VC_NEAR( (double)ug::ConicDeterminant< T >()( v ), dt, tol * sz * sz * sz, "determinant", "determinant" );
	if( ok && std::fabs( dt ) > 1e-3 * sz * sz * sz )
	{
		um::Vector< T, 6 > w = ug::ConicInverse< T >()( v ); VC_NEAR( maxDiff( mat( con( w ) ), im ), 0.0, 100 * tol * maxAbs( im ), "inverse", "dual conic" );
		Con b = con( ug::ConicInverse< T >()( w ) ); VC_NEAR( maxDiff( mat( b ), mat( q ) ), 0.0, 1e4 * tol * sz, "inverse-twice", "dual of the dual" );
	}
	for( auto& p : pts )
	{
		double w = val( q, p[ 0 ], p[ 1 ] ), n = 1 + p[ 0 ] * p[ 0 ] + p[ 1 ] * p[ 1 ];
		VC_NEAR( (double)ug::ConicPixel< T >()( v, um::Vector< T, 2 >( (T)p[ 0 ], (T)p[ 1 ] ) ), w, tol * sz * n * 4, "pixel", "value at %g,%g", p[ 0 ], p[ 1 ] );
		for( auto& t : pts )
		{
			Con r = con( ug::TranslateConic< T >()( um::Vector< T, 2 >( (T)t[ 0 ], (T)t[ 1 ] ), v ) );
			VC_NEAR( val( r, p[ 0 ] + t[ 0 ], p[ 1 ] + t[ 1 ] ), w, tol * sz * ( n + 80 ) * 40, "translate", "translated by %g,%g, at the image of %g,%g", t[ 0 ], t[ 1 ], p[ 0 ], p[ 1 ] );
		}
		static const double sc[][ 2 ] = { { 2, 2 }, { 0.5, 0.5 }, { 3, 0.25 }, { 1, 4 }, { -1, 2 } };
		for( auto& s : sc )
		{
			Con r = con( ug::ScaleConicUnsafe< T >( (T)s[ 0 ], (T)s[ 1 ] )( v ) ); VC_NEAR( val( r, p[ 0 ] * s[ 0 ], p[ 1 ] * s[ 1 ] ), w, tol * sz * n * 40, "scale", "scaled by %g,%g, at the image of %g,%g", s[ 0 ], s[ 1 ], p[ 0 ], p[ 1 ] );
			Con u = con( ug::ScaleConicUnsafe< T >( (T)s[ 0 ] )( v ) ); VC_NEAR( val( u, p[ 0 ] * s[ 0 ], p[ 1 ] * s[ 0 ] ), w, tol * sz * n * 40, "scale", "scaled by %g, at the image of %g,%g", s[ 0 ], p[ 0 ], p[ 1 ] );
		}
		for( double h : { 1.0, 2.0, 11.0 } ) { Con r = con( ug::FlipConicHorizontal< T >( (T)h )( v ) ); VC_NEAR( val( r, p[ 0 ], h - 1 - p[ 1 ] ), w, tol * sz * ( n + 121 ) * 40, "flip", "flipped at height %g, at the image of %g,%g", h, p[ 0 ], p[ 1 ] ); }
	}
	vc::state(); vc::step();
}
template< class T > static void ellipse( double ma, double mi, double th, double x, double y, double k, double tol )
{
	Con q = build( 1 / ( ma * ma ), 1 / ( mi * mi ), th, x, y, k ); um::Vector< T, 6 > v = v6< T >( q ); double R = ma + std::fabs( x ) + std::fabs( y ), cond = R * R / ( mi * mi ) * ( ma / mi );
	double t = tol * ( 1 + cond ) * R; common< T >( q, tol * 10 );
	bool circle = ma == mi; std::string w = vc::fmt( "axes %g,%g angle %g deg centre %g,%g factor %g", ma, mi, th * 180 / PI, x, y, k ); const char* s = w.c_str();
	um::Vector< T, 2 > ax = ug::ConicSemiAxes< T >()( v ); double an = ug::ConicAngle< T >()( v ); um::Vector< T, 2 > ce = ug::ConicCenter< T >()( v );
	VC_CHECK( an == an, "angle", "%s: angle is not a number", s );
	VC_NEAR( std::hypot( ce( 0 ) - x, ce( 1 ) - y ), 0.0, t, "centre", "%s: centre %g,%g", s, (double)ce( 0 ), (double)ce( 1 ) );
	double amb = circle ? 1e300 : ma * ma / ( ma * ma - mi * mi );
	bool first = k > 0;   // coefficients positive inside out: the major axis comes first; otherwise the pair is judged together
	if( circle ) { VC_NEAR( (double)ax( 0 ), ma, t, "axes", "%s", s ); VC_NEAR( (double)ax( 1 ), ma, t, "axes", "%s", s ); }
	else
	{
		if( !first && ax( 0 ) < ax( 1 ) ) { std::swap( ax( 0 ), ax( 1 ) ); an += PI / 2; }
		VC_NEAR( (double)ax( 0 ), ma, t, "axes", "%s: major", s ); VC_NEAR( (double)ax( 1 ), mi, t, "axes", "%s: minor", s );
		VC_NEAR( modDist( an, th, PI ), 0.0, t * amb, "angle", "%s: angle %g deg", s, an * 180 / PI );
	}
	VC_NEAR( (double)ug::ConicArea< T >()( v ), PI * ma * mi, t * ma * 8, "area", "%s", s );
	double ec = ug::ConicEccentricity< T >()( v ), we = std::sqrt( 1 - mi * mi / ( ma * ma ) );
	VC_NEAR( ec * ec, we * we, t, "eccentricity", "%s: eccentricity %g, expected %g", s, ec, we );
	VC_CHECK( ug::IsConicEllipse< T >()( v ) && !ug::IsConicHyperbola< T >()( v ), "kind", "%s: not recognised as an ellipse", s );
	{ ug::Conic< T > copy( v ), again( copy ), later; later = copy; for( int i = 0; i < 6; i++ ) VC_CHECK( copy[ i ] == v( i ) && again[ i ] == v( i ) && later[ i ] == v( i ), "copy", "%s: coefficient %d", s, i ); }
	double g = size( q ); if( std::fabs( q.b * q.b - 4 * q.a * q.c ) > 0.02 ) VC_CHECK( !ug::IsConicParabola< T >()( v ), "kind", "%s: taken for a parabola", s );
	double dq = ug::ConicDeterminant< double >()( v6< double >( q ) ); if( std::fabs( dq ) > 2e-3 ) VC_CHECK( !ug::IsConicDegenerate< T >()( v ), "kind", "%s: taken for degenerate", s );
	if( std::fabs( q.a - q.c ) > 2e-3 || std::fabs( q.b ) > 2e-3 ) VC_CHECK( !ug::IsConicCircle< T >()( v ), "kind", "%s: taken for a circle", s );
	if( circle && g < 1e3 ) VC_CHECK( ug::IsConicCircle< T >()( v ), "kind", "%s: not recognised as a circle", s );
	// bounding box and horizontal sections, from the parametric form
	double hy = std::sqrt( ma * ma * std::sin( th ) * std::sin( th ) + mi * mi * std::cos( th ) * std::cos( th ) ), hx = std::sqrt( ma * ma * std::cos( th ) * std::cos( th ) + mi * mi * std::sin( th ) * std::sin( th ) );
	um::Vector< T, 2 > ul = ug::ConicUpperLowerLimit< T >()( v ), lr = ug::ConicLeftRightLimit< T >()( v );
	VC_NEAR( (double)ul( 0 ), y - hy, t, "limits", "%s: lowest y", s ); VC_NEAR( (double)ul( 1 ), y + hy, t, "limits", "%s: highest y", s ); VC_NEAR( (double)lr( 0 ), x - hx, t, "limits", "%s: leftmost x", s ); VC_NEAR( (double)lr( 1 ), x + hx, t, "limits", "%s: rightmost x", s );
	for( double f : { -0.9, -0.3, 0.0, 0.5, 0.8 } )
	{
		double yy = y + f * hy, w0 = q.a, w1 = ( q.b * yy + q.d ) / 2, w2 = ( q.c * yy + q.e ) * yy + q.f, ds = std::sqrt( w1 * w1 - w0 * w2 ) / std::fabs( w0 ), m = -w1 / w0;
		um::Vector< T, 2 > h = ug::ConicHorizontalIntersection< T >()( v, (T)yy ); VC_NEAR( (double)h( 0 ), m - ds, 10 * t, "section", "%s: left at y=%g", s, yy ); VC_NEAR( (double)h( 1 ), m + ds, 10 * t, "section", "%s: right at y=%g", s, yy );
	}
	for( int i = 0; i < 12; i++ )
	{
		double p = 2 * PI * i / 12, u = ma * std::cos( p ), z = mi * std::sin( p ), px = x + u * std::cos( th ) - z * std::sin( th ), py = y + u * std::sin( th ) + z * std::cos( th );
		for( double f : { 1.0, 0.5, 1.5 } )
		{
			double c = ug::ConicPixel< T >()( v, um::Vector< T, 2 >( (T)( x + f * ( px - x ) ), (T)( y + f * ( py - y ) ) ) ) / k, sc = tol * 40 * ( 1 + R * R / ( mi * mi ) );
			VC_NEAR( c, f * f - 1, sc, "outline", "%s: value at %g times the outline at %g deg", s, f, p * 180 / PI );
		}
	}
	VC_OUT( "%s", s );
}
static void open()
{
	int n = vc::pick( 12, 36 );
	for( double s1 : { 1.0, 0.25, 4.0 } ) for( double s2 : { -1.0, -0.5, -9.0 } ) for( int i = 0; i < n; i++ ) for( double k : { 1.0, -3.0 } )
	{
		if( !vc::next( "hyperbola with inverse squared axes %g,%g turned by %d/%d of a half turn, factor %g", s1, s2, i, n, k ) ) continue;
		for( auto& p : pts )
		{
			Con q = build( s1, s2, PI * i / n, p[ 0 ], p[ 1 ], k ); common< double >( q, 1e-11 ); common< float >( q, 2e-5 ); um::Vector< double, 6 > v = v6< double >( q );
			VC_CHECK( ug::IsConicHyperbola< double >()( v ) && !ug::IsConicEllipse< double >()( v ) && !ug::IsConicParabola< double >()( v ) && !ug::IsConicCircle< double >()( v ), "kind", "hyperbola not recognised" );
			um::Vector< double, 2 > c = ug::ConicCenter< double >()( v ); VC_NEAR( std::hypot( c( 0 ) - p[ 0 ], c( 1 ) - p[ 1 ] ), 0.0, 1e-9, "centre", "centre of a hyperbola" );
			double t1 = std::fabs( s1 ) > 0 ? 1 + ( 1 / -s2 ) / ( 1 / s1 ) : 0; VC_NEAR( std::pow( ug::ConicEccentricity< double >()( v ), 2 ), t1, 1e-8 * t1, "eccentricity", "hyperbola" );
		}
		VC_OUT( "h %g %g %d %g", s1, s2, i, k );
	}
	for( int ax = 0; ax < 2; ax++ ) for( double k : { 1.0, -2.0, 5.0 } ) for( int j = 0; j < 3; j++ )
	{
		if( !vc::next( "parabola along axis %d, factor %g, form %d", ax, k, j ) ) continue;
		for( auto& p : pts )
		{
			Con q = { 0, 0, 0, 0, 0, 0 }; double f = j == 0 ? 1 : j == 1 ? -2 : 0.5;   // (y-p1)^2 = f (x-p0), exactly representable
			if( ax == 0 ) { q.c = 1; q.e = -2 * p[ 1 ]; q.d = -f; q.f = p[ 1 ] * p[ 1 ] + f * p[ 0 ]; } else { q.a = 1; q.d = -2 * p[ 0 ]; q.e = -f; q.f = p[ 0 ] * p[ 0 ] + f * p[ 1 ]; }
			q.a *= k; q.c *= k; q.d *= k; q.e *= k; q.f *= k; common< double >( q, 1e-11 ); um::Vector< double, 6 > v = v6< double >( q );
			VC_CHECK( ug::IsConicParabola< double >()( v ) && !ug::IsConicEllipse< double >()( v ) && !ug::IsConicHyperbola< double >()( v ) && !ug::IsConicDegenerate< double >()( v ), "kind", "parabola not recognised" );
			bool threw = false; try { ug::ConicCenter< double >()( v ); } catch( const Ubitrack::Util::Exception& ) { threw = true; }
			VC_CHECK( threw, "no-centre", "a parabola has no centre, but one is returned" );
		}
		VC_OUT( "p %d %g %d", ax, k, j );
	}
	if( vc::next( "pairs of lines" ) )
	{
		for( int i = -2; i <= 2; i++ ) for( int j = -2; j <= 2; j++ ) for( int m = 0; m < 2; m++ ) { double l1[ 3 ] = { 1, (double)i, (double)j }, l2[ 3 ] = { (double)j, 1, m ? -1.0 : 2.0 }; Con q = { l1[ 0 ] * l2[ 0 ], l1[ 0 ] * l2[ 1 ] + l1[ 1 ] * l2[ 0 ], l1[ 1 ] * l2[ 1 ], l1[ 0 ] * l2[ 2 ] + l1[ 2 ] * l2[ 0 ], l1[ 1 ] * l2[ 2 ] + l1[ 2 ] * l2[ 1 ], l1[ 2 ] * l2[ 2 ] }; common< double >( q, 1e-11 ); VC_CHECK( ug::IsConicDegenerate< double >()( v6< double >( q ) ), "kind", "two lines %d %d %d are not degenerate", i, j, m ); }
		VC_OUT( "lines" );
	}
}
// ray test: does the line through the camera centre and the pixel meet the ellipsoid { |A(x-c)|^2 <= 1 }?  > 0 yes
static double meets( const D& A, const V3& c, const V3& cam, const V3& dir )
{
	V3 o = sub( cam, c ), u, w; for( int i = 0; i < 3; i++ ) { u[ i ] = w[ i ] = 0; for( int j = 0; j < 3; j++ ) { u[ i ] += A( i, j ) * dir[ j ]; w[ i ] += A( i, j ) * o[ j ]; } }
	double a = dot( u, u ), b = dot( u, w ), k = dot( w, w ) - 1; return ( b * b - a * k ) / ( a * dot( w, w ) );
}
static void projections()
{
	std::vector< Rot > cams = rotLattice( vc::pick( 0, 1 ) ); std::vector< Rot > objs = rotLattice( 0 ); if( !vc::thorough() ) { std::vector< Rot > o; for( size_t i = 0; i < objs.size(); i += 9 ) o.push_back( objs[ i ] ); objs = o; }
	static const double axs[][ 3 ] = { { 1, 1, 1 }, { 0.5, 1, 2 }, { 2, 0.3, 0.7 }, { 1, 1, 0.2 } }; static const double K[][ 5 ] = { { 1, 1, 0, 0, 0 }, { 500, 480, 0, 320, 240 }, { 800, 700, 12, 300, 200 } };
	for( size_t ci = 0; ci < cams.size(); ci += vc::pick( 3, 1 ) ) for( int ki = 0; ki < 3; ki++ )
	{
		if( !vc::next( "camera %s, intrinsics %d", str( cams[ ci ] ).c_str(), ki ) ) continue;
		for( auto& ax : axs ) for( size_t oi = 0; oi < objs.size(); oi++ ) for( int pi = 0; pi < 3; pi++ ) for( double f : { 1.0, -0.5 } )
		{
			static const double off[][ 3 ] = { { 0, 0, 6 }, { 1.5, -1, 8 }, { -2, 0.5, 5 } }; const M3& R = cams[ ci ].R; V3 c = v3( 0.5 * pi, -1, 2 ), t = sub( v3( off[ pi ][ 0 ], off[ pi ][ 1 ], off[ pi ][ 2 ] ), mul( R, c ) ), cam = mulS( mul( trans( R ), t ), -1 );
			const double* k = K[ ki ]; double KK[ 3 ][ 3 ] = { { k[ 0 ], k[ 2 ], k[ 3 ] }, { 0, k[ 1 ], k[ 4 ] }, { 0, 0, 1 } }; um::Matrix< double, 3, 4 > P;
			for( int i = 0; i < 3; i++ ) for( int j = 0; j < 4; j++ ) { double s = 0; for( int m = 0; m < 3; m++ ) s += KK[ i ][ m ] * ( j < 3 ? R.m[ m ][ j ] : t[ m ] ); P( i, j ) = s * f; }
			// dual quadric H diag(1,1,1,-1) H^T with H = [B c; 0 1], B = O diag(axes)
			M3 O = objs[ oi ].R; D B( 3, 3 ), A( 3, 3 ); for( int i = 0; i < 3; i++ ) for( int j = 0; j < 3; j++ ) { B( i, j ) = O.m[ i ][ j ] * ax[ j ]; A( j, i ) = O.m[ i ][ j ] / ax[ j ]; }
			D Qd = mul( B, trans( B ) ); um::Vector< double, 10 > q;
			for( int i = 0; i < 3; i++ ) for( int j = 0; j < 3; j++ ) Qd( i, j ) -= c[ i ] * c[ j ];
			q( 0 ) = Qd( 0, 0 ); q( 1 ) = Qd( 1, 1 ); q( 2 ) = Qd( 2, 2 ); q( 3 ) = Qd( 0, 1 ); q( 4 ) = Qd( 0, 2 ); q( 5 ) = Qd( 1, 2 ); q( 6 ) = -c[ 0 ]; q( 7 ) = -c[ 1 ]; q( 8 ) = -c[ 2 ]; q( 9 ) = -1;
			std::vector< um::Vector< double, 6 > > res; std::vector< const char* > how; res.push_back( ug::ProjectQuadric< double >()( P, q ) ); how.push_back( "quadric" );
			if( oi == 0 )
			{
				um::Vector< double, 6 > e; for( int i = 0; i < 3; i++ ) { e( i ) = ax[ i ]; e( 3 + i ) = c[ i ]; }
				um::Vector< double, 10 > eq = ug::Ellipsoid2Quadric< double >()( e ); for( int i = 0; i < 10; i++ ) VC_NEAR( eq( i ), q( i ), 1e-12, "ellipsoid-quadric", "entry %d", i );
				res.push_back( ug::ProjectEllipsoid< double >()( P, e ) ); how.push_back( "ellipsoid" );
			}
			// directions around the object: camera frame offset of the centre plus multiples of the silhouette
			V3 zc = add( mul( R, c ), t ); vc::state(); vc::step();
			for( size_t r = 0; r < res.size(); r++ )
			{
				const um::Vector< double, 6 >& v = res[ r ]; int in = 0, out = 0; double vc0 = 0;
				for( int i = -9; i <= 9; i++ ) for( int j = -9; j <= 9; j++ )
				{
					V3 d = v3( zc[ 0 ] + 0.33 * i, zc[ 1 ] + 0.33 * j, zc[ 2 ] ), w = mul( trans( R ), d ); double m = meets( A, c, cam, w ); if( std::fabs( m ) < 1e-7 ) continue;
					double px = KK[ 0 ][ 0 ] * d[ 0 ] / d[ 2 ] + KK[ 0 ][ 1 ] * d[ 1 ] / d[ 2 ] + KK[ 0 ][ 2 ], py = KK[ 1 ][ 1 ] * d[ 1 ] / d[ 2 ] + KK[ 1 ][ 2 ];
					double x = ug::ConicPixel< double >()( v, um::Vector< double, 2 >( px, py ) ); if( i == 0 && j == 0 ) vc0 = x; ( m > 0 ? in : out )++;
					VC_CHECK( ( x < 0 ) == ( m > 0 ), "silhouette", "%s axes %g,%g,%g turned %s: pixel %g,%g has value %g, its ray %s", how[ r ], ax[ 0 ], ax[ 1 ], ax[ 2 ], str( objs[ oi ] ).c_str(), px, py, x, m > 0 ? "meets the body" : "misses it" );
				}
				VC_CHECK( in > 0 && out > 0, "oracle", "no pixel inside or outside" );
				// contour points: polar of the camera centre, in the frame where the body is the unit sphere
				V3 o; for( int i = 0; i < 3; i++ ) { o[ i ] = 0; for( int j = 0; j < 3; j++ ) o[ i ] += A( i, j ) * ( cam[ j ] - c[ j ] ); }
				double n = norm( o ), rad = std::sqrt( 1 - 1 / ( n * n ) ); V3 n0 = unit( o ), e1 = unit( cross( n0, std::fabs( n0[ 0 ] ) < 0.8 ? v3( 1, 0, 0 ) : v3( 0, 1, 0 ) ) ), e2 = cross( n0, e1 );
				for( int i = 0; i < 12; i++ )
				{
					double p = 2 * PI * i / 12; V3 s = add( mulS( n0, 1 / n ), add( mulS( e1, rad * std::cos( p ) ), mulS( e2, rad * std::sin( p ) ) ) ), w; for( int a = 0; a < 3; a++ ) { w[ a ] = c[ a ]; for( int b = 0; b < 3; b++ ) w[ a ] += B( a, b ) * s[ b ]; }
					V3 d = add( mul( R, w ), t ); double px = KK[ 0 ][ 0 ] * d[ 0 ] / d[ 2 ] + KK[ 0 ][ 1 ] * d[ 1 ] / d[ 2 ] + KK[ 0 ][ 2 ], py = KK[ 1 ][ 1 ] * d[ 1 ] / d[ 2 ] + KK[ 1 ][ 2 ];
					VC_NEAR( ug::ConicPixel< double >()( v, um::Vector< double, 2 >( px, py ) ) / std::fabs( vc0 ), 0.0, 1e-6, "contour", "%s: contour point %d", how[ r ], i );
				}
			}
			// a spheroid standing on the ground plane: axes (a, a, c), centre (x, y, c)
			if( oi == 0 && ax[ 0 ] == ax[ 1 ] )
			{
				um::Vector< double, 4 > s( ax[ 0 ], ax[ 2 ], 0.25 * pi, -0.5 ); um::Vector< double, 6 > e; e( 0 ) = e( 1 ) = ax[ 0 ]; e( 2 ) = e( 5 ) = ax[ 2 ]; e( 3 ) = 0.25 * pi; e( 4 ) = -0.5;
				um::Vector< double, 6 > a = ug::ProjectSpheroid< double >()( P, s ), b = ug::ProjectEllipsoid< double >()( P, e ); for( int i = 0; i < 6; i++ ) VC_NEAR( a( i ), b( i ), 1e-9 * ( 1 + std::fabs( b( i ) ) ), "spheroid", "entry %d", i );
			}
		}
		VC_OUT( "cam %zu %d", ci, ki );
	}
}
static void body()
{
	int n = vc::pick( 16, 72 );
	static const double ax[][ 2 ] = { { 1, 1 }, { 3, 3 }, { 2, 1 }, { 3, 2.5 }, { 5, 0.5 }, { 0.2, 0.1 }, { 40, 30 }, { 1.01, 1 } };
	for( auto& a : ax ) for( int i = 0; i < n; i++ )
	{
		if( a[ 0 ] == a[ 1 ] && i ) continue;
		if( !vc::next( "ellipses with semi-axes %g,%g turned by %d/%d of a half turn", a[ 0 ], a[ 1 ], i, n ) ) continue;
		for( double x : { 0.0, 1.0, -3.0, 0.3 } ) for( double y : { 0.0, -1.0, 2.0, 0.7 } ) for( double k : { 1.0, 0.1, 7.0, -1.0, -0.3 } )
		{
			if( k < 0 && a[ 0 ] == a[ 1 ] && false ) continue;
			ellipse< double >( a[ 0 ], a[ 1 ], PI * i / n, x, y, k, 1e-12 ); if( a[ 0 ] / a[ 1 ] < 2.5 && a[ 0 ] > 0.5 && a[ 0 ] != 1.01 && i % 2 == 0 ) ellipse< float >( a[ 0 ], a[ 1 ], PI * i / n, x, y, k, 2e-5 );
		}
	}
	// a conic does not depend on the factor of its coefficients
	for( auto& a : ax ) for( int i = 0; i < n; i += 3 )
	{
		if( a[ 0 ] == a[ 1 ] && i ) continue; if( !vc::next( "ellipses with semi-axes %g,%g turned by %d/%d of a half turn, tiny and huge factors", a[ 0 ], a[ 1 ], i, n ) ) continue;
		for( double x : { 0.0, -3.0 } ) for( double y : { 2.0, 0.7 } ) for( double k : { 1e-4, -1e-6, 1e-8, 3e-12, 1e5, -1e9, 2e12 } ) ellipse< double >( a[ 0 ], a[ 1 ], PI * i / n, x, y, k, 1e-12 );
	}
	// coefficients with a == c exactly: the major axis lies on a diagonal
	for( double b : { 1.0, -1.0, 0.5, -0.5, 0.125, 0.0 } ) for( double k : { 1.0, 4.0 } )
	{
		if( !vc::next( "ellipse x^2 + %g xy + y^2 = 1, factor %g", b, k ) ) continue;
		for( auto& p : pts ) { double s1 = 1 - std::fabs( b ) / 2, s2 = 1 + std::fabs( b ) / 2, th = b > 0 ? -PI / 4 : PI / 4; ellipse< double >( 1 / std::sqrt( s1 ), 1 / std::sqrt( s2 ), th, p[ 0 ], p[ 1 ], k, 1e-12 ); Con q = { k, b * k, k, 0, 0, -k }; double an = ug::ConicAngle< double >()( v6< double >( q ) ); VC_CHECK( an == an, "angle", "not a number" ); um::Vector< double, 2 > s = ug::ConicSemiAxes< double >()( v6< double >( q ) ); VC_NEAR( s( 0 ), 1 / std::sqrt( s1 ), 1e-9, "axes", "major" ); VC_NEAR( s( 1 ), 1 / std::sqrt( s2 ), 1e-9, "axes", "minor" ); if( b != 0 ) VC_NEAR( modDist( an, th, PI ), 0.0, 1e-9, "angle", "angle %g", an ); }
	}
	open(); projections();
}
VC_MAIN( body() )
