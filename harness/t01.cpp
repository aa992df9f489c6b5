// T01: the pose filter follows its measurement history and predicts consistently.
#include "ut.hpp"
#include "kf.hpp"
#include <memory>
#include <utTracking/PoseKalmanFilter.h>
#include <utMath/RotationVelocity.h>
using namespace ut;
namespace um = Ubitrack::Math; namespace me = Ubitrack::Measurement; namespace tr = Ubitrack::Tracking;
static const double MS = 1e6; // a millisecond in time stamps
struct Model { int po, ro; bool in; const char* name; };
static X predict( const Model& m, const X& x, double dt )
{
	size_t rs = 3 + 3 * m.po; X y = x; X q = part( x, rs, 4 ), w = m.ro ? part( x, rs + 4, 3 ) : X( 3, 0.0 );
	if( m.in ) { X u = qexp( qrot( q, w ), dt ), p = qrot( u, part( x, 0, 3 ) ); for( int k = 0; k < 3; k++ ) y[ k ] = p[ k ] + ( m.po ? dt * x[ 3 + k ] : 0 ); if( m.po ) { X v = qrot( u, part( x, 3, 3 ) ); for( int k = 0; k < 3; k++ ) y[ 3 + k ] = v[ k ]; } }
	else for( int i = 0; i <= m.po; i++ ) for( int k = 0; k < 3; k++ ) { double f = 1; y[ 3 * i + k ] = 0; for( int j = i; j <= m.po; j++ ) { y[ 3 * i + k ] += f * x[ 3 * j + k ]; f *= dt / ( j - i + 1 ); } }
	if( m.ro ) { X r = qmul( q, qexp( w, dt ) ); for( int k = 0; k < 4; k++ ) y[ rs + k ] = r[ k ]; } return y;
}
// exact derivative, or the small-angle form of the rotation rows
static D jac( const Model& m, const X& x, double dt, bool small )
{
	size_t n = x.size(), rs = 3 + 3 * m.po; D J( n, n ); for( size_t k = 0; k < n; k++ ) { X a = x, b = x; double h = 1e-5; a[ k ] += h; b[ k ] -= h; X fa = predict( m, a, dt ), fb = predict( m, b, dt ); for( size_t i = 0; i < n; i++ ) J( i, k ) = ( fa[ i ] - fb[ i ] ) / ( 2 * h ); }
	if( small && m.ro ) { X q = part( x, rs, 4 ); for( int i = 0; i < 4; i++ ) for( int k = 0; k < 4; k++ ) J( rs + i, rs + k ) = i == k; for( int k = 0; k < 3; k++ ) { X e( 4, 0.0 ); e[ k ] = dt / 2; X d = qmul( q, e ); for( int i = 0; i < 4; i++ ) J( rs + i, rs + 4 + k ) = d[ i ]; } }
	if( small && m.in ) for( int v = 0; v <= m.po; v++ ) // the position turns with the integrated velocity
	{
		X q = part( x, rs, 4 ), w = part( x, rs + 4, 3 ), p = part( x, 3 * v, 3 ), u = qrot( q, w ), z = qexp( u, dt ); D A( 3, 4 ), B( 4, 3 ), C( 3, 7 ); for( int k = 0; k < 4; k++ ) { X a = z, b = z; a[ k ] += 1e-5; b[ k ] -= 1e-5; X fa = qrot( a, p ), fb = qrot( b, p ); for( int i = 0; i < 3; i++ ) A( i, k ) = ( fa[ i ] - fb[ i ] ) / 2e-5; }
		for( int k = 0; k < 3; k++ ) { B( k, k ) = dt / 2; B( 3, k ) = -dt * dt / 4 * u[ k ]; } for( int k = 0; k < 7; k++ ) { X a = part( x, rs, 7 ), b = a; a[ k ] += 1e-5; b[ k ] -= 1e-5; X fa = qrot( part( a, 0, 4 ), part( a, 4, 3 ) ), fb = qrot( part( b, 0, 4 ), part( b, 4, 3 ) ); for( int i = 0; i < 3; i++ ) C( i, k ) = ( fa[ i ] - fb[ i ] ) / 2e-5; } D T = mul( mul( A, B ), C ); for( int i = 0; i < 3; i++ ) for( int k = 0; k < 7; k++ ) J( 3 * v + i, rs + k ) = T( i, k );
	}
	return J;
}
struct Ref
{
	Model m; bool small; X noise, x; D P; double t = 0; bool lost = false;
	size_t rs() const { return 3 + 3 * m.po; }
	void time( double to ) { if( t && to != t ) { double dt = ( to - t ) * 1e-9; D J = jac( m, x, dt, small ); P = mul( mul( J, P ), trans( J ) ); for( size_t i = 0; i < x.size(); i++ ) P( i, i ) += std::fabs( dt ) * noise[ i ]; x = predict( m, x, dt ); } t = to; }
	void update( const D& H, const X& innov, const D& R )
	{
		D PH = mul( P, trans( H ) ), S = add( mul( H, PH ), R ), I( S.r, S.r ); if( !inv( S, I ) ) { lost = true; return; } D K = mul( PH, I ); for( size_t i = 0; i < x.size(); i++ ) for( size_t j = 0; j < innov.size(); j++ ) x[ i ] += K( i, j ) * innov[ j ]; P = sub( P, mul( K, trans( PH ) ) );
		// normalise the rotation
		X q = part( x, rs(), 4 ); double n = 0; for( double v : q ) n += v * v; n = std::sqrt( n ); D J = eye( x.size() ); for( int i = 0; i < 4; i++ ) for( int k = 0; k < 4; k++ ) J( rs() + i, rs() + k ) = ( ( i == k ) - q[ i ] * q[ k ] / ( n * n ) ) / n; for( int i = 0; i < 4; i++ ) x[ rs() + i ] = q[ i ] / n; P = mul( mul( J, P ), trans( J ) );
		if( m.ro ) { double w = 0; for( int k = 0; k < 3; k++ ) w += x[ rs() + 4 + k ] * x[ rs() + 4 + k ]; if( w > 81 ) lost = true; }
	}
};
struct Op { char kind; int v; double dt; };
static const double QS[ 5 ][ 4 ] = { { 0, 0, 0, 1 }, { 0.05, -0.02, 0.03, 0.998 }, { 0.4, 0.5, -0.3, 0.7 }, { -0.05, 0.02, -0.03, -0.998 }, { 0.7, -0.1, 0.2, -0.1 } };
static const double TS[ 3 ][ 3 ] = { { 0.1, -0.2, 1.5 }, { 0.12, -0.21, 1.45 }, { -3, 2, 8 } };
static const double WS[ 3 ][ 3 ] = { { 0, 0, 0 }, { 0.3, -0.2, 0.5 }, { -1.5, 2, 1 } };
static Q quat( int i ) { const double* q = QS[ i ]; double n = std::sqrt( q[ 0 ] * q[ 0 ] + q[ 1 ] * q[ 1 ] + q[ 2 ] * q[ 2 ] + q[ 3 ] * q[ 3 ] ); return Q( q[ 0 ] / n, q[ 1 ] / n, q[ 2 ] / n, q[ 3 ] / n ); }
static um::Matrix< double, 6, 6 > cov( int i ) { um::Matrix< double, 6, 6 > c; for( int a = 0; a < 6; a++ ) for( int b = 0; b < 6; b++ ) c( a, b ) = 0; double s = i == 2 ? 1e-8 : i == 1 ? 1e-2 : 1e-4; for( int a = 0; a < 6; a++ ) c( a, a ) = s * ( 1 + 0.3 * a ); if( i == 1 ) { c( 0, 1 ) = c( 1, 0 ) = 0.4 * s; c( 3, 4 ) = c( 4, 3 ) = -0.5 * s; c( 2, 5 ) = c( 5, 2 ) = 0.6 * s; } return c; }
static X toX( const um::Vector< double >& v ) { X x; for( size_t i = 0; i < v.size(); i++ ) x.push_back( v( i ) ); return x; }
struct Node { tr::PoseKalmanFilter f; Ref a, b; double t; };
static std::string show( const std::vector< Op >& h ) { std::string s; for( auto& o : h ) s += vc::fmt( "%c%d+%gms ", o.kind, o.v, o.dt ); return s; }
static double sep( const Ref& a, const Ref& b ) { double d = 0; for( size_t i = 0; i < a.x.size(); i++ ) d = std::max( d, std::fabs( a.x[ i ] - b.x[ i ] ) ); return std::max( d, maxDiff( a.P, b.P ) ); }
static void prediction( const Node& n, const Model& m, const std::vector< Op >& h )
{
	if( m.po < 0 ) return; tr::PoseKalmanFilter& f = const_cast< tr::PoseKalmanFilter& >( n.f ); X x = toX( f.getState() ); D P = dense( f.getCovariance() ); size_t rs = 3 + 3 * m.po;
	for( double d : { 0.0, 10.0, 400.0, -30.0 } )
	{
		unsigned long long t = (unsigned long long)( n.t + d * MS ); auto p = f.predictPose( t ); vc::step(); X y = predict( m, x, d * 1e-3 ), q = part( y, rs, 4 ); double e = 0; for( int k = 0; k < 3; k++ ) e = std::max( e, std::fabs( p->translation()( k ) - y[ k ] ) );
		double eq = std::fabs( p->rotation().x() - q[ 0 ] ) + std::fabs( p->rotation().y() - q[ 1 ] ) + std::fabs( p->rotation().z() - q[ 2 ] ) + std::fabs( p->rotation().w() - q[ 3 ] ), big = 1; for( double v : x ) big = std::max( big, std::fabs( v ) );
		VC_CHECK( p.time() == t, "predict-time", "%s: %llu", show( h ).c_str(), (unsigned long long)p.time() ); if( m.ro < 2 ) VC_CHECK( e < 1e-10 * big && eq < 1e-9, "predict", "%s by %g ms: off by %g and %g", show( h ).c_str(), d, e, eq ); VC_NEAR( qnorm( p->rotation() ), 1.0, 1e-9, "predict-unit", "%s", show( h ).c_str() );
		D C = dense( p->covariance() ); double s = 0; for( int i = 0; i < 6; i++ ) s = std::max( s, C( i, i ) ); VC_CHECK( std::isfinite( s ) && maxDiff( C, trans( C ) ) <= 1e-5 * s + 1e-6, "predict-symmetric", "%s by %g", show( h ).c_str(), d ); auto ev = eigSym( C ); VC_CHECK( ev.back() > -1e-5 * s - 1e-6 && ev.front() > -1e-5 * s - 1e-6, "predict-definite", "%s by %g: %g %g", show( h ).c_str(), d, ev.front(), ev.back() );
		if( m.ro < 2 )
		{
			D w[ 2 ]; for( int k = 0; k < 2; k++ ) { D J = jac( m, x, d * 1e-3, k ); D N = mul( mul( J, P ), trans( J ) ); const X& no = n.a.noise; for( size_t i = 0; i < x.size(); i++ ) N( i, i ) += std::fabs( d ) * 1e-3 * no[ i ]; D A( 6, x.size() ); for( int i = 0; i < 3; i++ ) A( i, i ) = 1; for( int c = 0; c < 4; c++ ) { X u( 4, 0.0 ); u[ c ] = 1; X g = qmul( conj( q ), u ); for( int i = 0; i < 3; i++ ) A( 3 + i, rs + c ) = g[ i ]; } w[ k ] = mul( mul( A, N ), trans( A ) ); }
			double tol = 1.5 * maxDiff( w[ 0 ], w[ 1 ] ) + 1e-5 * maxAbs( w[ 0 ] ) + 1e-8; VC_CHECK( maxDiff( C, w[ 0 ] ) < tol, "predict-covariance", "%s by %g ms: off by %g of %g", show( h ).c_str(), d, maxDiff( C, w[ 0 ] ), tol );
		}
	}
	X z = toX( f.getState() ); VC_CHECK( z == x && maxDiff( dense( f.getCovariance() ), P ) == 0, "predict-changes", "%s", show( h ).c_str() );
}
static void valid( const Node& n, const Model& m, const std::vector< Op >& h )
{
	X x = toX( n.f.getState() ); D P = dense( n.f.getCovariance() ); size_t rs = 3 + 3 * m.po; bool fin = true; for( double v : x ) fin = fin && std::isfinite( v ); double s = 0; for( size_t i = 0; i < x.size(); i++ ) for( size_t j = 0; j < x.size(); j++ ) { fin = fin && std::isfinite( P( i, j ) ); s = std::max( s, std::fabs( P( i, j ) ) ); }
	VC_CHECK( fin, "finite", "%s", show( h ).c_str() ); if( !fin ) return; double q = 0; for( int i = 0; i < 4; i++ ) q += x[ rs + i ] * x[ rs + i ]; VC_CHECK( std::fabs( q - 1 ) < 1e-9, "unit", "%s: squared length %g", show( h ).c_str(), q ); VC_CHECK( maxDiff( P, trans( P ) ) <= 1e-5 * s + 1e-6, "symmetric", "%s: %g of %g", show( h ).c_str(), maxDiff( P, trans( P ) ), s );
	auto ev = eigSym( P ); VC_CHECK( ev.front() > -1e-5 * s - 1e-6 && ev.back() > -1e-5 * s - 1e-6, "definite", "%s: %g .. %g", show( h ).c_str(), ev.front(), ev.back() );
	if( n.a.lost || n.b.lost || m.ro > 1 ) return; int vs = 0; for( auto& o : h ) vs += o.kind == 'V' || o.kind == 'I'; double eps = vs > 1 || m.in || n.a.noise[ 0 ] == 0 ? 1e-3 : 1e-4, sp = sep( n.a, n.b ), d = 0, big = 1; // repeated nearly exact velocities are ill-conditioned
	 for( double v : n.a.x ) big = std::max( big, std::fabs( v ) ); for( size_t i = 0; i < x.size(); i++ ) d = std::max( d, std::fabs( x[ i ] - n.a.x[ i ] ) );
	VC_CHECK( d <= 1.5 * sp + eps * big, "state", "%s: off by %g of %g", show( h ).c_str(), d, sp ); VC_CHECK( maxDiff( P, n.a.P ) <= 1.5 * sp + eps * std::max( 1.0, maxAbs( n.a.P ) ), "covariance", "%s: off by %g of %g", show( h ).c_str(), maxDiff( P, n.a.P ), sp ); vc::outcome( vc::fmt( "agreement 1e%d", (int)std::floor( std::log10( d + 1e-16 ) ) ) );
}
static void apply( Node& n, const Model& m, const Op& o )
{
	n.t += o.dt * MS; unsigned long long t = (unsigned long long)n.t; size_t rs = 3 + 3 * m.po, N = n.a.x.size(); vc::step();
	if( o.kind == 'P' )
	{
		int v = o.v; um::ErrorPose ep( quat( v ), um::Vector< double, 3 >( TS[ v % 3 ][ 0 ], TS[ v % 3 ][ 1 ], TS[ v % 3 ][ 2 ] ), cov( v % 3 ) ); n.f.addPoseMeasurement( me::ErrorPose( t, ep ) ); um::ErrorVector< double, 7 > e; ep.toAdditiveErrorVector( e ); D R = dense( e.covariance ), H( 7, N ); for( int i = 0; i < 3; i++ ) H( i, i ) = 1; for( int i = 0; i < 4; i++ ) H( 3 + i, rs + i ) = 1;
		for( Ref* r : { &n.a, &n.b } ) { if( !r->t ) { for( int i = 0; i < 3; i++ ) r->x[ i ] = TS[ v % 3 ][ i ]; for( int i = 0; i < 4; i++ ) r->x[ rs + i ] = e.value( 3 + i ); } r->time( n.t ); double ip = 0; for( int i = 0; i < 4; i++ ) ip += r->x[ rs + i ] * e.value( 3 + i ); X in; for( int i = 0; i < 3; i++ ) in.push_back( TS[ v % 3 ][ i ] - r->x[ i ] ); for( int i = 0; i < 4; i++ ) in.push_back( ( ip < 0 ? -1 : 1 ) * e.value( 3 + i ) - r->x[ rs + i ] ); D S( R ); if( ip < 0 ) for( int i = 0; i < 3; i++ ) for( int j = 3; j < 7; j++ ) { S( i, j ) = -R( i, j ); S( j, i ) = -R( j, i ); } r->update( H, in, S ); }
		if( v % 3 == 2 && n.a.noise[ 0 ] > 0.1 ) { double d = 0; for( int i = 0; i < 3; i++ ) d = std::max( d, std::fabs( n.f.getState()( i ) - TS[ 2 ][ i ] ) ); VC_CHECK( d < 1e-2, "pull-position", "%g", d ); }
	}
	if( o.kind == 'R' )
	{
		Q q = quat( o.v ); n.f.addRotationMeasurement( me::Rotation( t, q ) ); double c[ 4 ] = { q.x(), q.y(), q.z(), q.w() }; D R = scale( eye( 4 ), 0.004 ), H( 4, N ); for( int i = 0; i < 4; i++ ) H( i, rs + i ) = 1;
		for( Ref* r : { &n.a, &n.b } ) { if( !r->t ) for( int i = 0; i < 4; i++ ) r->x[ rs + i ] = c[ i ]; r->time( n.t ); double ip = 0; for( int i = 0; i < 4; i++ ) ip += r->x[ rs + i ] * c[ i ]; X in; for( int i = 0; i < 4; i++ ) in.push_back( ( ip < 0 ? -1 : 1 ) * c[ i ] - r->x[ rs + i ] ); r->update( H, in, R ); }
	}
	if( o.kind == 'V' || o.kind == 'I' )
	{
		const double* w = WS[ o.v ]; um::RotationVelocity rv( w[ 0 ], w[ 1 ], w[ 2 ] ); if( o.kind == 'V' ) n.f.addRotationVelocityMeasurement( me::RotationVelocity( t, rv ) ); else n.f.addInverseRotationVelocityMeasurement( me::RotationVelocity( t, rv ) );
		if( !n.a.t ) return; D R = scale( eye( 3 ), 1e-11 );
		for( Ref* r : { &n.a, &n.b } ) { r->time( n.t ); auto meas = [&]( const X& x ) { X v = part( x, rs + 4, 3 ); if( o.kind == 'I' ) { v = qrot( part( x, rs, 4 ), v ); for( double& k : v ) k = -k; } return v; }; D H( 3, N ); for( size_t k = 0; k < N; k++ ) { X a = r->x, b = r->x; a[ k ] += 1e-5; b[ k ] -= 1e-5; X fa = meas( a ), fb = meas( b ); for( int i = 0; i < 3; i++ ) H( i, k ) = ( fa[ i ] - fb[ i ] ) / 2e-5; } X z = meas( r->x ); r->update( H, { w[ 0 ] - z[ 0 ], w[ 1 ] - z[ 1 ], w[ 2 ] - z[ 2 ] }, R ); }
		if( o.kind == 'V' && n.a.noise[ rs + 4 ] > 0 && o.dt ) for( int k = 0; k < 3; k++ ) VC_NEAR( n.f.getState()( rs + 4 + k ), w[ k ], 1e-3, "pull-velocity", "%d", k );
	}
}
// one velocity sensor only: two nearly exact ones at the same time are beyond double precision
static bool mixed( const std::vector< Op >& h, const Op& o ) { for( auto& p : h ) if( ( p.kind == 'I' && o.kind == 'I' && o.dt == 0 ) || ( p.kind == 'V' && o.kind == 'I' ) || ( p.kind == 'I' && o.kind == 'V' ) ) return true; return false; }
static void explore( const Node& n, const Model& m, const std::vector< Op >& ops, std::vector< Op >& h, int depth )
{
	vc::state(); bool any = n.a.t != 0; if( !h.empty() && any ) { valid( n, m, h ); if( m.ro >= 0 && m.po >= 0 && ( depth == 0 || h.size() < 3 ) ) prediction( n, m, h ); } if( depth == 0 ) return;
	for( auto& o : ops ) { if( ( o.kind == 'V' || o.kind == 'I' ) && m.ro < 1 ) continue; if( o.kind == 'P' && m.po < 0 ) continue; if( mixed( h, o ) ) continue; Node c( n ); apply( c, m, o ); h.push_back( o ); explore( c, m, ops, h, depth - 1 ); h.pop_back(); }
}
static tr::LinearPoseMotionModel motion( const Model& m, int noise, X& ns )
{
	tr::LinearPoseMotionModel mm( m.po, m.ro ); ns = X( mm.stateSize(), 0.0 ); VC_CHECK( (int)mm.stateSize() == 3 + 3 * m.po + ( m.ro >= 0 ? 4 + 3 * m.ro : 0 ) && mm.posOrder() == m.po && mm.oriOrder() == m.ro, "model", "%zu", mm.stateSize() );
	if( noise ) { for( int i = 0; i <= m.po; i++ ) { double v = ( noise == 1 ? 0.05 : 1.0 ) * ( i + 1 ); mm.setPosPN( i, v ); for( int k = 0; k < 3; k++ ) ns[ 3 * i + k ] = v * v; } for( int i = 0; i <= m.ro; i++ ) { double v = ( noise == 1 ? 0.02 : 0.7 ) * ( i + 2 ); mm.setOriPN( i, v ); size_t s = 3 + 3 * m.po + ( i ? 1 + 3 * i : 0 ); for( int k = 0; k < ( i ? 3 : 4 ); k++ ) ns[ s + k ] = v * v; } }
	return mm;
}
static void body()
{
	std::vector< Model > ms = { { 0, 0, false, "position 0 rotation 0" }, { 1, 0, false, "position 1 rotation 0" }, { 1, 1, false, "position 1 rotation 1" }, { 2, 1, false, "position 2 rotation 1" }, { 0, 1, false, "position 0 rotation 1" }, { -1, 1, false, "rotation 1 only" }, { 3, 0, false, "position 3 rotation 0" }, { 0, 1, true, "inside-out, position 0" }, { 1, 1, true, "inside-out, position 1" }, { 1, 2, false, "rotation 2" } };
	for( int pass = 0; pass < vc::pick( 1, 2 ); pass++ )
	{
	std::vector< Op > ops; for( double dt : pass ? std::vector< double >{ 0, 30 } : vc::thorough() ? std::vector< double >{ 0, 1, 20, 300 } : std::vector< double >{ 0, 20, 300 } ) { for( int v = 0; v < 5; v++ ) ops.push_back( { 'P', v, dt } ); for( int v : { 1, 2, 4 } ) ops.push_back( { 'R', v, dt } ); for( int v : { 1, 2 } ) ops.push_back( { 'V', v, dt } ); ops.push_back( { 'I', 1, dt } ); }
	int depth = pass ? 4 : 3;
	for( auto& m : ms ) for( int noise = 0; noise < 3; noise++ ) for( auto& first : ops )
	{
		if( ( first.kind == 'V' || first.kind == 'I' ) && m.ro < 1 ) continue; if( first.kind == 'P' && m.po < 0 ) continue; if( first.dt || ( ( m.in || pass ) && noise == 0 ) ) continue;
		if( !vc::next( "depth %d, %s, noise %d, first %c%d", depth, m.name, noise, first.kind, first.v ) ) continue;
		X ns; auto mm = motion( m, noise, ns ); Node n = { tr::PoseKalmanFilter( mm, m.in ), Ref(), Ref(), 1000 * MS }; if( m.po >= 0 ) { bool thrown = false; try { n.f.predictPose( 5 ); } catch( const std::exception& ) { thrown = true; } VC_CHECK( thrown, "predict-uninitialised", "%s", m.name ); }
		n.a.m = m; n.a.small = false; n.a.noise = ns; n.a.x = toX( n.f.getState() ); n.a.P = dense( n.f.getCovariance() ); n.b = n.a; n.b.small = true; X q = part( n.a.x, 3 + 3 * m.po, 4 ); VC_CHECK( q == X( { 0, 0, 0, 1 } ), "initial-rotation", "%s", m.name );
		std::vector< Op > h; Node c( n ); apply( c, m, first ); h.push_back( first ); explore( c, m, ops, h, depth - 1 ); VC_OUT( "%d %s %d %c%d", depth, m.name, noise, first.kind, first.v );
	}
	}
	// only rotation after the second derivative or position in inside-out mode are refused
	if( vc::next( "inside-out restrictions" ) ) for( int po = -1; po < 4; po++ ) for( int ro = 0; ro < 3; ro++ ) { bool thrown = false; try { tr::PoseKalmanFilter f( tr::LinearPoseMotionModel( po, ro ), true ); } catch( const std::exception& ) { thrown = true; } vc::step(); if( po >= 0 ) VC_CHECK( thrown == ( po > 1 || ro != 1 ), "inside-out", "%d %d", po, ro ); }
}
VC_MAIN( body() )
