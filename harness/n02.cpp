// N02: covariance propagation and Kalman measurement updates equal the textbook formulas.
#include "ut.hpp"
#include <utMath/ErrorVector.h>
#include <utMath/Stochastic/CovarianceTransform.h>
#include <utMath/Stochastic/Kalman.h>
#include <utMath/Stochastic/BackwardPropagation.h>
using namespace ut;
namespace um = Ubitrack::Math; namespace us = Ubitrack::Math::Stochastic;
typedef std::vector< double > VD;
static std::string s( const D& d ) { std::string r = "["; for( size_t i = 0; i < d.r; i++ ) { for( size_t j = 0; j < d.c; j++ ) r += vc::fmt( "%g ", d( i, j ) ); r += ";"; } return r + "]"; }
template< class M > static M toU( const D& d ) { M m; for( size_t i = 0; i < d.r; i++ ) for( size_t j = 0; j < d.c; j++ ) m( i, j ) = d( i, j ); return m; }
template< class V > static V toV( const D& d ) { V v( d.r ); for( size_t i = 0; i < d.r; i++ ) v( i ) = d( i, 0 ); return v; }
template< class V > static D col( const V& v ) { D d( v.size(), 1 ); for( size_t i = 0; i < v.size(); i++ ) d( i, 0 ) = v( i ); return d; }
static D sub( const D& d, size_t r0, size_t r1, size_t c0, size_t c1 ) { D x( r1 - r0, c1 - c0 ); for( size_t i = r0; i < r1; i++ ) for( size_t j = c0; j < c1; j++ ) x( i - r0, j - c0 ) = d( i, j ); return x; }
// y = A x + B q(x) + b with q( x )_i = x_i * x_{i+1}
struct Fn
{
	D A, B, b;
	template< class R, class I > void evaluate( R& r, const I& x ) const { for( size_t i = 0; i < A.r; i++ ) { double v = b( i, 0 ); for( size_t j = 0; j < A.c; j++ ) v += A( i, j ) * x( j ) + B( i, j ) * x( j ) * x( ( j + 1 ) % A.c ); r( i ) = v; } }
	template< class I, class J > void jacobian( const I& x, J& m ) const { for( size_t i = 0; i < A.r; i++ ) { for( size_t j = 0; j < A.c; j++ ) m( i, j ) = A( i, j ); for( size_t j = 0; j < A.c; j++ ) { size_t k = ( j + 1 ) % A.c; m( i, j ) += B( i, j ) * x( k ); m( i, k ) += B( i, j ) * x( j ); } } }
	template< class R, class I, class J > void evaluateWithJacobian( R& r, const I& x, J& m ) const { evaluate( r, x ); jacobian( x, m ); }
	D val( const D& x ) const { D r( A.r, 1 ); struct X { const D& d; double operator()( size_t i ) const { return d( i, 0 ); } }; struct R { D& d; double& operator()( size_t i ) { return d( i, 0 ); } }; R rr = { r }; X xx = { x }; evaluate( rr, xx ); return r; }
	D jac( const D& x ) const { D m( A.r, A.c ); struct X { const D& d; double operator()( size_t i ) const { return d( i, 0 ); } }; X xx = { x }; jacobian( xx, m ); return m; }
	size_t size() const { return A.r; }
};
static std::vector< D > covs( size_t n )
{
	std::vector< D > r; r.push_back( eye( n ) );
	{ D d( n, n ); for( size_t i = 0; i < n; i++ ) d( i, i ) = 0.25 + 2 * i; r.push_back( d ); }
	for( int k = 1; k <= 2; k++ ) { D a( n, n ); for( size_t i = 0; i < n; i++ ) for( size_t j = 0; j < n; j++ ) a( i, j ) = ( (int)( ( i * 7 + j * 3 * k + i * j + k ) % 11 ) - 5 ) / 3.0; r.push_back( add( mul( a, trans( a ) ), scale( eye( n ), 0.125 ) ) ); }
	{ D v( n, 1 ); for( size_t i = 0; i < n; i++ ) v( i, 0 ) = ( i % 2 ? -1.0 : 1.0 ) * ( 1 + i ); r.push_back( mul( v, trans( v ) ) ); }   // singular
	return r;
}
static std::vector< D > models( size_t r, size_t c )
{
	std::vector< D > v; for( size_t i = 0; i < r; i++ ) for( size_t j = 0; j < c; j++ ) { D d( r, c ); d( i, j ) = 2; v.push_back( d ); }
	for( int k = 0; k < 3; k++ ) { D d( r, c ); for( size_t i = 0; i < r; i++ ) for( size_t j = 0; j < c; j++ ) d( i, j ) = (double)( (int)( ( i * 5 + j * 3 + i * j + k * 4 + 1 ) % 7 ) - 3 ); v.push_back( d ); }
	{ D d( r, c ); for( size_t i = 0; i < r && i < c; i++ ) d( i, i ) = 1; v.push_back( d ); }
	return v;
}
static D vec( size_t n, int k ) { D d( n, 1 ); for( size_t i = 0; i < n; i++ ) d( i, 0 ) = (double)( (int)( ( i * 3 + k * 2 + 1 ) % 7 ) - 3 ) * 0.5; return d; }
static double tol( const D& e ) { return 1e-9 * ( 1 + maxAbs( e ) ); }
static void kf( const D& x, const D& P, const D& H, const D& pred, const D& z, const D& R, D& x2, D& P2 )
{ D S = add( mul( mul( H, P ), trans( H ) ), R ), Si; inv( S, Si ); D K = mul( mul( P, trans( H ) ), Si ); x2 = add( x, mul( K, lin::sub( z, pred ) ) ); P2 = lin::sub( P, mul( mul( K, H ), P ) ); }
static D embed( const D& H, size_t n, size_t b ) { D d( H.r, n ); for( size_t i = 0; i < H.r; i++ ) for( size_t j = 0; j < H.c; j++ ) d( i, b + j ) = H( i, j ); return d; }
static double condS( const D& H, const D& P, const D& R ) { return std::fabs( eigSym( add( mul( mul( H, P ), trans( H ) ), R ) )[ 0 ] ); }

template< size_t N, size_t M > static void forward()
{
	std::vector< D > As = models( M, N ), Cs = covs( N );
	for( size_t a = 0; a < As.size(); a++ ) for( int nl = 0; nl < 3; nl++ )
	{
		if( !vc::next( "forward propagation %d -> %d, model %s%s", (int)N, (int)M, s( As[ a ] ).c_str(), nl ? " plus quadratic terms" : "" ) ) continue;
		Fn f = { As[ a ], nl ? scale( As[ ( a + nl ) % As.size() ], 0.5 ) : D( M, N ), vec( M, a ) };
		for( auto& C : Cs ) for( int k = 0; k < 4; k++ )
		{
			D x = vec( N, k ), J = f.jac( x ), ev = f.val( x ), ec = mul( mul( J, C ), trans( J ) ); vc::state(); vc::step();
			um::Vector< double, M > rv; um::Matrix< double, M, M > rc; us::transformWithCovariance( f, rv, rc, toV< um::Vector< double, N > >( x ), toU< um::Matrix< double, N, N > >( C ) );
			VC_CHECK( maxDiff( col( rv ), ev ) < tol( ev ), "forward-mean", "x %s gives %s expected %s", s( x ).c_str(), s( col( rv ) ).c_str(), s( ev ).c_str() );
			VC_CHECK( maxDiff( dense( rc ), ec ) < tol( ec ), "forward-covariance", "x %s C %s gives %s expected %s", s( x ).c_str(), s( C ).c_str(), s( dense( rc ) ).c_str(), s( ec ).c_str() );
			vc::outcome( s( ec ) );
		}
	}
}
struct Fn2 { Fn f, g; template< class R, class I, class K, class J1, class J2 > void evaluateWithJacobian( R& r, const I& x, const K& y, J1& a, J2& b ) const { um::Vector< double > p( f.size() ), q( f.size() ); f.evaluate( p, x ); g.evaluate( q, y ); r = p + q; f.jacobian( x, a ); g.jacobian( y, b ); } };
template< size_t N, size_t K, size_t M > static void binary()
{
	if( !vc::next( "binary forward propagation (%d, %d) -> %d", (int)N, (int)K, (int)M ) ) return;
	for( auto& A : models( M, N ) ) for( auto& B : models( M, K ) ) for( auto& C : covs( N ) ) for( auto& E : covs( K ) )
	{
		Fn2 f = { { A, scale( A, 0.5 ), vec( M, 1 ) }, { B, scale( B, -0.25 ), vec( M, 2 ) } }; D x = vec( N, 1 ), y = vec( K, 2 ); vc::state(); vc::step();
		D ev = add( f.f.val( x ), f.g.val( y ) ), J1 = f.f.jac( x ), J2 = f.g.jac( y ), ec = add( mul( mul( J1, C ), trans( J1 ) ), mul( mul( J2, E ), trans( J2 ) ) );
		um::Vector< double, M > rv; um::Matrix< double, M, M > rc; us::binarytransformWithCovariance( f, rv, rc, toV< um::Vector< double, N > >( x ), toU< um::Matrix< double, N, N > >( C ), toV< um::Vector< double, K > >( y ), toU< um::Matrix< double, K, K > >( E ) );
		VC_CHECK( maxDiff( col( rv ), ev ) < tol( ev ) && maxDiff( dense( rc ), ec ) < tol( ec ), "binary-forward", "C %s E %s gives %s expected %s", s( C ).c_str(), s( E ).c_str(), s( dense( rc ) ).c_str(), s( ec ).c_str() );
	}
}
template< size_t N > static void ranges()
{
	for( size_t ob = 0; ob < N; ob++ ) for( size_t oe = ob + 1; oe <= N; oe++ ) for( size_t ib = 0; ib < N; ib++ ) for( size_t ie = ib + 1; ie <= N; ie++ )
	{
		if( !vc::next( "in-place transform of a %d-vector: elements %d..%d from %d..%d", (int)N, (int)ob, (int)oe, (int)ib, (int)ie ) ) continue;
		for( auto& A : models( oe - ob, ie - ib ) ) for( int nl = 0; nl < 2; nl++ ) for( auto& C : covs( N ) )
		{
			Fn f = { A, nl ? scale( A, 0.5 ) : D( A.r, A.c ), vec( A.r, 2 ) }; D x = vec( N, 3 ), xi = sub( x, ib, ie, 0, 1 ); vc::state(); vc::step();
			D F = eye( N ), J = f.jac( xi ); for( size_t i = ob; i < oe; i++ ) { for( size_t j = 0; j < N; j++ ) F( i, j ) = 0; for( size_t j = ib; j < ie; j++ ) F( i, j ) = J( i - ob, j - ib ); }
			D ev = x, v = f.val( xi ); for( size_t i = ob; i < oe; i++ ) ev( i, 0 ) = v( i - ob, 0 ); D ec = mul( mul( F, C ), trans( F ) );
			um::ErrorVector< double, N > e( toV< um::Vector< double, N > >( x ), toU< um::Matrix< double, N, N > >( C ) ); us::transformRangeInternalWithCovariance< N >( f, e, ob, oe, ib, ie );
			VC_CHECK( maxDiff( col( e.value ), ev ) < tol( ev ), "in-place-mean", "gives %s expected %s", s( col( e.value ) ).c_str(), s( ev ).c_str() );
			VC_CHECK( maxDiff( dense( e.covariance ), ec ) < tol( ec ), "in-place-covariance", "model %s C %s gives %s expected %s", s( A ).c_str(), s( C ).c_str(), s( dense( e.covariance ) ).c_str(), s( ec ).c_str() );
			um::Vector< double > dvx = toV< um::Vector< double > >( x ); um::Matrix< double > dcx( N, N ); for( size_t i = 0; i < N; i++ ) for( size_t j = 0; j < N; j++ ) dcx( i, j ) = C( i, j );
			us::transformRangeInternalWithCovariance( f, dvx, dcx, ob, oe, ib, ie ); VC_CHECK( maxDiff( col( dvx ), ev ) < tol( ev ) && maxDiff( dense( dcx ), ec ) < tol( ec ), "in-place-dynamic", "model %s", s( A ).c_str() );
			vc::outcome( s( ec ) );
		}
	}
}
static void post( const D& P, const D& P2, const char* what )
{
	double t = 1e-8 * ( 1 + maxAbs( P ) );
	VC_CHECK( maxDiff( P2, trans( P2 ) ) < t, "posterior-symmetric", "%s: %s", what, s( P2 ).c_str() );
	VC_CHECK( eigSym( scale( add( P2, trans( P2 ) ), 0.5 ) )[ 0 ] > -t, "posterior-semidefinite", "%s: %s", what, s( P2 ).c_str() );
	D d = lin::sub( P, P2 ); VC_CHECK( eigSym( scale( add( d, trans( d ) ), 0.5 ) )[ 0 ] > -t, "posterior-smaller", "%s: prior %s posterior %s", what, s( P ).c_str(), s( P2 ).c_str() );
}
template< size_t N, size_t M > static void measure()
{
	for( size_t ib = 0; ib < N; ib++ ) for( size_t ie = ib + 1; ie <= N; ie++ )
	{
		std::vector< D > Hs = models( M, ie - ib );
		for( size_t h = 0; h < Hs.size(); h++ )
		{
			if( !vc::next( "Kalman update of %d states by %d measurements of states %d..%d, model %s", (int)N, (int)M, (int)ib, (int)ie, s( Hs[ h ] ).c_str() ) ) continue;
			std::vector< D > Rs = covs( M ); Rs.push_back( D( M, M ) );
			for( int nl = 0; nl < 2; nl++ ) for( auto& P : covs( N ) ) for( auto& R : Rs ) for( int k = 0; k < 3; k++ )
			{
				Fn f = { Hs[ h ], nl ? scale( Hs[ h ], 0.5 ) : D( M, ie - ib ), vec( M, h ) }; D x = vec( N, k ), xi = sub( x, ib, ie, 0, 1 ), H = embed( f.jac( xi ), N, ib ), z = vec( M, k + 1 ), e1, e2;
				if( condS( H, P, R ) < 1e-3 ) continue;    // no information: the gain is not defined
				kf( x, P, H, f.val( xi ), z, R, e1, e2 ); vc::state(); vc::step();
				um::ErrorVector< double, N > st( toV< um::Vector< double, N > >( x ), toU< um::Matrix< double, N, N > >( P ) ); um::ErrorVector< double, M > me( toV< um::Vector< double, M > >( z ), toU< um::Matrix< double, M, M > >( R ) );
				if( ib == 0 && ie == N ) us::kalmanMeasurementUpdate( st, f, me ); else us::kalmanMeasurementUpdate( st, f, me, ib, ie );
				VC_CHECK( maxDiff( col( st.value ), e1 ) < 1e-7 * ( 1 + maxAbs( e1 ) ), "kalman-mean", "P %s R %s gives %s expected %s", s( P ).c_str(), s( R ).c_str(), s( col( st.value ) ).c_str(), s( e1 ).c_str() );
				VC_CHECK( maxDiff( dense( st.covariance ), e2 ) < 1e-7 * ( 1 + maxAbs( P ) ), "kalman-covariance", "P %s R %s gives %s expected %s", s( P ).c_str(), s( R ).c_str(), s( dense( st.covariance ) ).c_str(), s( e2 ).c_str() );
				post( P, dense( st.covariance ), "update" );
				// the same update with state and measurement in other units (powers of two: the scaling itself is exact)
				static const int units[ 5 ][ 2 ] = { { -20, -20 }, { 20, 20 }, { -24, 0 }, { 0, -24 }, { -30, -12 } };
				for( auto& uv : units )
				{
					double u = ldexp( 1.0, uv[ 0 ] ), v = ldexp( 1.0, uv[ 1 ] ); vc::step();
					Fn g = { scale( f.A, v / u ), scale( f.B, v / u / u ), scale( f.b, v ) };
					um::ErrorVector< double, N > su( toV< um::Vector< double, N > >( scale( x, u ) ), toU< um::Matrix< double, N, N > >( scale( P, u * u ) ) ); um::ErrorVector< double, M > mu( toV< um::Vector< double, M > >( scale( z, v ) ), toU< um::Matrix< double, M, M > >( scale( R, v * v ) ) );
					if( ib == 0 && ie == N ) us::kalmanMeasurementUpdate( su, g, mu ); else us::kalmanMeasurementUpdate( su, g, mu, ib, ie );
					VC_CHECK( maxDiff( scale( col( su.value ), 1 / u ), e1 ) < 1e-7 * ( 1 + maxAbs( e1 ) ), "kalman-mean-units", "state unit 2^%d measurement unit 2^%d P %s R %s gives %s expected %s", uv[ 0 ], uv[ 1 ], s( P ).c_str(), s( R ).c_str(), s( scale( col( su.value ), 1 / u ) ).c_str(), s( e1 ).c_str() );
					VC_CHECK( maxDiff( scale( dense( su.covariance ), 1 / u / u ), e2 ) < 1e-7 * ( 1 + maxAbs( P ) ), "kalman-covariance-units", "state unit 2^%d measurement unit 2^%d P %s R %s", uv[ 0 ], uv[ 1 ], s( P ).c_str(), s( R ).c_str() );
				}
				vc::outcome( s( e2 ) );
			}
		}
	}
}
template< size_t N, size_t M > static void identity()
{
	for( size_t ib = 0; ib + M <= N; ib++ )
	{
		if( !vc::next( "Kalman identity update of %d states, states %d..%d measured", (int)N, (int)ib, (int)( ib + M ) ) ) continue;
		for( auto& P : covs( N ) ) for( auto& R : covs( M ) ) for( int k = 0; k < 5; k++ )
		{
			D x = vec( N, k ), H = embed( eye( M ), N, ib ), z = vec( M, k + 1 ), e1, e2; if( condS( H, P, R ) < 1e-3 ) continue;
			kf( x, P, H, mul( H, x ), z, R, e1, e2 ); vc::state(); vc::step();
			um::ErrorVector< double, N > st( toV< um::Vector< double, N > >( x ), toU< um::Matrix< double, N, N > >( P ) ); um::ErrorVector< double, M > me( toV< um::Vector< double, M > >( z ), toU< um::Matrix< double, M, M > >( R ) );
			us::kalmanMeasurementUpdateIdentity( st, me, ib, ib + M );
			VC_CHECK( maxDiff( col( st.value ), e1 ) < 1e-7 * ( 1 + maxAbs( e1 ) ) && maxDiff( dense( st.covariance ), e2 ) < 1e-7 * ( 1 + maxAbs( P ) ), "kalman-identity", "P %s R %s gives %s %s expected %s %s", s( P ).c_str(), s( R ).c_str(), s( col( st.value ) ).c_str(), s( dense( st.covariance ) ).c_str(), s( e1 ).c_str(), s( e2 ).c_str() );
			post( P, dense( st.covariance ), "identity update" );
			Fn f = { eye( M ), D( M, M ), D( M, 1 ) }; um::ErrorVector< double, N > s2( toV< um::Vector< double, N > >( x ), toU< um::Matrix< double, N, N > >( P ) ); us::kalmanMeasurementUpdate( s2, f, me, ib, ib + M );
			VC_CHECK( maxDiff( col( s2.value ), col( st.value ) ) < 1e-7 * ( 1 + maxAbs( e1 ) ) && maxDiff( dense( s2.covariance ), dense( st.covariance ) ) < 1e-7 * ( 1 + maxAbs( P ) ), "kalman-identity-agrees", "differs from the general update" );
		}
	}
}
template< size_t N > static void orders()
{
	std::vector< D > Hs = models( 1, N ), H2 = models( 2, N );
	for( size_t a = 0; a < Hs.size(); a++ ) for( size_t b = 0; b < Hs.size(); b++ ) for( size_t c = 0; c < H2.size(); c++ )
	{
		if( !vc::next( "%d states, three measurements %s %s %s in all orders", (int)N, s( Hs[ a ] ).c_str(), s( Hs[ b ] ).c_str(), s( H2[ c ] ).c_str() ) ) continue;
		for( auto& P : covs( N ) )
		{
			Fn f[ 3 ] = { { Hs[ a ], D( 1, N ), D( 1, 1 ) }, { Hs[ b ], D( 1, N ), D( 1, 1 ) }, { H2[ c ], D( 2, N ), D( 2, 1 ) } }; D R2 = covs( 2 )[ 2 ];
			D first, firstP; int p[ 3 ] = { 0, 1, 2 }; bool have = false;
			do
			{
				um::ErrorVector< double, N > st( toV< um::Vector< double, N > >( vec( N, 1 ) ), toU< um::Matrix< double, N, N > >( P ) );
				for( int k : p )
				{
					if( k < 2 ) { D R( 1, 1 ); R( 0, 0 ) = 0.5 + k; um::ErrorVector< double, 1 > m( toV< um::Vector< double, 1 > >( vec( 1, k + 1 ) ), toU< um::Matrix< double, 1, 1 > >( R ) ); us::kalmanMeasurementUpdate( st, f[ k ], m ); }
					else { um::ErrorVector< double, 2 > m( toV< um::Vector< double, 2 > >( vec( 2, 4 ) ), toU< um::Matrix< double, 2, 2 > >( R2 ) ); us::kalmanMeasurementUpdate( st, f[ k ], m ); }
					vc::step();
				}
				vc::state();
				if( !have ) { first = col( st.value ); firstP = dense( st.covariance ); have = true; }
				VC_CHECK( maxDiff( first, col( st.value ) ) < 1e-6 * ( 1 + maxAbs( first ) ) && maxDiff( firstP, dense( st.covariance ) ) < 1e-6 * ( 1 + maxAbs( P ) ), "order-independent", "prior %s, order %d%d%d", s( P ).c_str(), p[ 0 ], p[ 1 ], p[ 2 ] );
				post( P, dense( st.covariance ), "three updates" );
			} while( std::next_permutation( p, p + 3 ) );
			vc::outcome( s( firstP ) );
		}
	}
}
template< size_t N > static void backward( size_t M )
{
	if( !vc::next( "backward propagation of %d measurements to %d parameters", (int)M, (int)N ) ) return;
	for( int k = 0; k < 40; k++ ) for( double sc : { 0.25, 1.0, 4.0, 100.0 } )
	{
		D J( M, N ); for( size_t i = 0; i < M; i++ ) for( size_t j = 0; j < N; j++ ) J( i, j ) = (double)( (int)( ( i * i * 3 + j * 5 + i * j * ( k + 1 ) + k ) % 11 ) - 5 ) / 2; for( size_t i = 0; i < N; i++ ) J( i, i ) += 4;
		D g = mul( trans( J ), J ), gi; if( eigSym( g )[ 0 ] < 1e-3 ) continue; inv( g, gi ); D e = scale( gi, sc ); vc::state(); vc::step();
		um::Matrix< double > uj( M, N ); for( size_t i = 0; i < M; i++ ) for( size_t j = 0; j < N; j++ ) uj( i, j ) = J( i, j );
		um::Matrix< double, N, N > r; us::backwardPropagationIdentity( r, sc, uj ); VC_CHECK( maxDiff( dense( r ), e ) < 1e-7 * ( 1 + maxAbs( e ) ), "backward", "jacobian %s, variance %g gives %s expected %s", s( J ).c_str(), sc, s( dense( r ) ).c_str(), s( e ).c_str() );
		Fn f = { J, D( M, N ), D( M, 1 ) }; um::Matrix< double, N, N > r2; us::backwardPropagationIdentity( r2, sc, f, toV< um::Vector< double, N > >( vec( N, k ) ) ); VC_CHECK( maxDiff( dense( r2 ), e ) < 1e-7 * ( 1 + maxAbs( e ) ), "backward-function", "jacobian %s", s( J ).c_str() );
		if( M == N ) { D fw = mul( mul( J, dense( r ) ), trans( J ) ); VC_CHECK( maxDiff( fw, scale( eye( N ), sc ) ) < 1e-6 * ( 1 + sc ), "backward-inverts-forward", "jacobian %s", s( J ).c_str() ); }
		// the same parameters in other units
		for( int w = 0; w < 4; w++ )
		{
			auto unit = [&]( size_t j ) { return w == 0 ? ( j + 1 == N ? 1e-4 : 1.0 ) : w == 1 ? ( j % 2 ? 1e2 : 1e-3 ) : w == 2 ? 1e-6 : 1e5; }; D Ju = J, eu = e; for( size_t j = 0; j < N; j++ ) { for( size_t i = 0; i < M; i++ ) { Ju( i, j ) *= unit( j ); uj( i, j ) = Ju( i, j ); } for( size_t i = 0; i < N; i++ ) eu( i, j ) /= unit( i ) * unit( j ); }
			um::Matrix< double, N, N > ru; us::backwardPropagationIdentity( ru, sc, uj ); VC_CHECK( maxDiff( dense( ru ), eu ) < 1e-6 * maxAbs( eu ), "backward-units", "jacobian %s, variance %g gives %s expected %s", s( Ju ).c_str(), sc, s( dense( ru ) ).c_str(), s( eu ).c_str() ); vc::step();
		}
		vc::outcome( s( e ) );
	}
}
static void body()
{
	forward< 1, 1 >(); forward< 1, 3 >(); forward< 2, 1 >(); forward< 2, 2 >(); forward< 3, 2 >(); forward< 3, 3 >(); forward< 2, 4 >(); forward< 4, 3 >();
	binary< 1, 1, 1 >(); binary< 2, 3, 2 >(); binary< 3, 2, 4 >(); binary< 3, 3, 1 >();
	ranges< 2 >(); ranges< 3 >(); ranges< 4 >(); if( vc::thorough() ) ranges< 5 >();
	measure< 1, 1 >(); measure< 2, 1 >(); measure< 2, 2 >(); measure< 3, 1 >(); measure< 3, 2 >(); measure< 3, 3 >(); measure< 4, 2 >(); if( vc::thorough() ) { measure< 5, 3 >(); measure< 6, 2 >(); }
	identity< 1, 1 >(); identity< 3, 1 >(); identity< 3, 2 >(); identity< 4, 2 >(); identity< 4, 4 >(); identity< 7, 3 >();
	orders< 2 >(); orders< 3 >();
	backward< 1 >( 1 ); backward< 1 >( 4 ); backward< 2 >( 2 ); backward< 2 >( 5 ); backward< 3 >( 3 ); backward< 3 >( 8 ); backward< 6 >( 6 ); backward< 6 >( 13 );
}
VC_MAIN( body() )
