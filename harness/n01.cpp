// N01: linear-algebra building blocks equal their textbook definition for every shape.
#include <iterator>
#include <list>
#include <deque>
#include "ut.hpp"
#include <utMath/Blas1.h>
#include <utMath/Blas2.h>
#include <utMath/Blas3.h>
#include <utMath/VectorFunctions.h>
#include <utMath/MatrixOperations.h>
#include <utMath/Functors/MatrixFunctors.h>
using namespace ut;
namespace um = Ubitrack::Math;
typedef std::vector< double > VD;

template< class V > static VD fl( const V& v ) { VD r; for( size_t i = 0; i < v.size(); i++ ) r.push_back( v[ i ] ); return r; }
static D mk( size_t r, size_t c, int seed ) { D m( r, c ); for( size_t i = 0; i < r; i++ ) for( size_t j = 0; j < c; j++ ) m( i, j ) = (double)( (int)( ( i * 31 + j * 17 + i * j * 5 + seed * 13 + seed * seed * ( i + 2 * j ) ) % 19 ) - 9 ); return m; }
// all unit matrices and a few full asymmetric ones: settles every bilinear function
static std::vector< D > mats( size_t r, size_t c )
{
	std::vector< D > v; for( size_t i = 0; i < r; i++ ) for( size_t j = 0; j < c; j++ ) { D d( r, c ); d( i, j ) = 1 + i + 2 * j; v.push_back( d ); }
	for( int s = 0; s < 4; s++ ) v.push_back( mk( r, c, s ) ); v.push_back( D( r, c ) ); return v;
}
template< class T, size_t R, size_t C > static um::Matrix< T, R, C > um_( const D& d ) { um::Matrix< T, R, C > m; for( size_t i = 0; i < R; i++ ) for( size_t j = 0; j < C; j++ ) m( i, j ) = (T)d( i, j ); return m; }
template< class T, size_t N > static um::Vector< T, N > uv( const VD& d ) { um::Vector< T, N > v; for( size_t i = 0; i < N; i++ ) v( i ) = (T)d[ i ]; return v; }
template< class T > static um::Vector< T > dv( const VD& d ) { um::Vector< T > v( d.size() ); for( size_t i = 0; i < d.size(); i++ ) v( i ) = (T)d[ i ]; return v; }
static um::Matrix< double > dm( const D& d ) { um::Matrix< double > m( d.r, d.c ); for( size_t i = 0; i < d.r; i++ ) for( size_t j = 0; j < d.c; j++ ) m( i, j ) = d( i, j ); return m; }
static std::string s( const VD& v ) { std::string r = "("; for( double d : v ) r += vc::fmt( "%g ", d ); return r + ")"; }
static std::string s( const D& d ) { std::string r = "["; for( size_t i = 0; i < d.r; i++ ) { for( size_t j = 0; j < d.c; j++ ) r += vc::fmt( "%g ", d( i, j ) ); r += ";"; } return r + "]"; }
static bool near( double a, double b, double tol ) { return vc::close( a, b, tol ); }

static std::vector< VD > allVecs( size_t n, const VD& alpha ) { std::vector< VD > r( 1 ); for( size_t k = 0; k < n; k++ ) { std::vector< VD > q; for( auto& v : r ) for( double a : alpha ) { VD w = v; w.push_back( a ); q.push_back( w ); } r.swap( q ); } return r; }

template< class T, class V > static void vecPair( const VD& a, const VD& b, const V& x, const V& y, double tol, const char* kind )
{
	double dot = 0, n1 = 0, sq = 0, dd = 0; for( size_t i = 0; i < a.size(); i++ ) { dot += a[ i ] * b[ i ]; n1 += std::fabs( a[ i ] ); sq += a[ i ] * a[ i ]; dd += ( a[ i ] - b[ i ] ) * ( a[ i ] - b[ i ] ); }
	VC_CHECK( near( um::inner_product( x, y ), dot, tol ) && near( um::InnerProduct()( x, y ), dot, tol ), "inner-product", "%s %s.%s gives %g", kind, s( a ).c_str(), s( b ).c_str(), (double)um::inner_product( x, y ) );
	VC_CHECK( near( um::InnerProduct()( x ), sq, tol ), "squared-norm", "%s %s", kind, s( a ).c_str() );
	VC_CHECK( near( um::norm_1( x ), n1, tol ), "norm-1", "%s %s gives %g", kind, s( a ).c_str(), (double)um::norm_1( x ) );
	VC_CHECK( near( um::norm_2( x ), std::sqrt( sq ), tol ), "norm-2", "%s %s gives %g", kind, s( a ).c_str(), (double)um::norm_2( x ) );
	VC_CHECK( near( um::distance( x, y ), std::sqrt( dd ), tol ) && near( um::Distance< V >()( x ), std::sqrt( sq ), tol ), "distance", "%s %s %s gives %g", kind, s( a ).c_str(), s( b ).c_str(), (double)um::distance( x, y ) );
	VC_CHECK( near( um::squared_distance( x, y ), dd, tol ) && near( um::SquaredDistance< V >()( x ), sq, tol ), "squared-distance", "%s %s %s", kind, s( a ).c_str(), s( b ).c_str() );
	if( sq > 0 ) { VD r = fl( um::normalize( x ) ); bool ok = r.size() == a.size(); for( size_t i = 0; ok && i < r.size(); i++ ) ok = near( r[ i ], a[ i ] / std::sqrt( sq ), tol ); VC_CHECK( ok, "normalize", "%s %s gives %s", kind, s( a ).c_str(), s( r ).c_str() ); }
	// the same vectors in another unit
	for( int e : { -40, 40 } )
	{
		T u = (T)std::ldexp( 1.0, e ); V xu( x ), yu( y ); for( size_t i = 0; i < a.size(); i++ ) { xu( i ) = x( i ) * u; yu( i ) = y( i ) * u; }
		VC_CHECK( near( um::norm_2( xu ) / u, std::sqrt( sq ), tol ) && near( um::norm_1( xu ) / u, n1, tol ) && near( um::distance( xu, yu ) / u, std::sqrt( dd ), tol ) && near( um::squared_distance( xu, yu ) / u / u, dd, tol ) && near( um::inner_product( xu, yu ) / u / u, dot, tol ), "units", "%s %s %s times 2^%d", kind, s( a ).c_str(), s( b ).c_str(), e );
		if( sq > 0 ) { VD r = fl( um::normalize( xu ) ); bool ok = r.size() == a.size(); for( size_t i = 0; ok && i < r.size(); i++ ) ok = near( r[ i ], a[ i ] / std::sqrt( sq ), tol ); VC_CHECK( ok, "normalize-units", "%s %s times 2^%d gives %s", kind, s( a ).c_str(), e, s( r ).c_str() ); }
	}
	// equality and order
	bool eq = a == b; bool r1 = x == y; VC_CHECK( r1 == eq, "vector-equality", "%s %s == %s gives %d", kind, s( a ).c_str(), s( b ).c_str(), (int)r1 );
}
template< size_t N > static void vectors( const VD& alpha )
{
	std::vector< VD > all = allVecs( N, alpha );
	size_t bStep = N == 4 && !vc::thorough() ? 3 : 1;
	for( size_t i = 0; i < all.size(); i++ )
	{
		if( !vc::next( "vectors of size %d: %s with every second vector over the alphabet", (int)N, s( all[ i ] ).c_str() ) ) continue;
		const VD& a = all[ i ]; um::Vector< double, N > xd = uv< double, N >( a ); um::Vector< float, N > xf = uv< float, N >( a ); um::Vector< double > xy = dv< double >( a ); um::Vector< float > xg = dv< float >( a );
		VC_CHECK( fl( xd ) == a && fl( xy ) == a && xd.size() == N, "vector-storage", "elements differ" );
		std::ostringstream os; os << xd; std::ostringstream od; od << xy; std::ostringstream oe; oe << "[ "; for( double d : a ) oe << d << " "; oe << "]"; VC_CHECK( os.str() == oe.str() && od.str() == oe.str(), "vector-print", "%s", os.str().c_str() );
		um::Vector< double, N > pv( &a[ 0 ] ); VC_CHECK( fl( pv ) == a, "vector-from-array", "elements differ" );
		for( size_t j = i % bStep; j < all.size(); j += bStep )
		{
			const VD& b = all[ j ]; vc::state(); vc::step( 4 );
			um::Vector< double, N > yd = uv< double, N >( b );
			vecPair< double >( a, b, xd, yd, 1e-12, "fixed double" );
			if( ( i + j ) % 3 == 0 ) { vecPair< float >( a, b, xf, uv< float, N >( b ), 2e-6, "fixed float" ); vecPair< double >( a, b, xy, dv< double >( b ), 1e-12, "dynamic double" ); vecPair< float >( a, b, xg, dv< float >( b ), 2e-6, "dynamic float" ); }
			const um::Vector< double, N > &cx = xd, &cy = yd; VC_CHECK( ( cx < cy ) == ( a < b ), "vector-order", "%s < %s", s( a ).c_str(), s( b ).c_str() );
			for( int t = 0; t <= 4; t++ ) { VD r = fl( linearInterpolate( xd, yd, t / 4.0 ) ); bool ok = true; for( size_t k = 0; k < N; k++ ) ok = ok && near( r[ k ], a[ k ] + ( b[ k ] - a[ k ] ) * t / 4.0, 1e-12 ); VC_CHECK( ok, "vector-interpolate", "%s %s at %g gives %s", s( a ).c_str(), s( b ).c_str(), t / 4.0, s( r ).c_str() ); }
			if( N == 3 ) { V3 e = cross( v3( a[ 0 ], a[ 1 ], a[ 2 ] ), v3( b[ 0 ], b[ 1 ], b[ 2 ] ) ); um::Vector< double, 3 > c = um::cross_product( xd, yd ); VC_CHECK( c( 0 ) == e[ 0 ] && c( 1 ) == e[ 1 ] && c( 2 ) == e[ 2 ], "cross-product", "%s x %s", s( a ).c_str(), s( b ).c_str() ); }
		}
		vc::outcome( s( a ) );
	}
}
// equality of dynamic vectors of different size
static void dynSizes()
{
	if( vc::next( "dynamic vectors and matrices of different sizes" ) )
	{
		for( size_t n = 0; n <= 4; n++ ) for( size_t m = 0; m <= 4; m++ ) { um::Vector< double > a( n ), b( m ); for( size_t i = 0; i < n; i++ ) a( i ) = 1; for( size_t i = 0; i < m; i++ ) b( i ) = 1; bool e = a == b; vc::state(); VC_CHECK( e == ( n == m ), "vector-equality-size", "sizes %d and %d compare %d", (int)n, (int)m, (int)e ); }
		for( size_t n = 1; n <= 3; n++ ) for( size_t m = 1; m <= 3; m++ ) for( size_t k = 1; k <= 3; k++ ) for( size_t l = 1; l <= 3; l++ ) { um::Matrix< double > a = um::Matrix< double >::scalar( n, m, 1 ), b = um::Matrix< double >::scalar( k, l, 1 ); bool e = a == b; vc::state(); VC_CHECK( e == ( n == k && m == l ), "matrix-equality-size", "%dx%d and %dx%d compare %d", (int)n, (int)m, (int)k, (int)l, (int)e ); }
		for( size_t n = 0; n <= 5; n++ ) { um::Vector< double > z = um::Vector< double >::zeros( n ); bool ok = z.size() == n; for( size_t i = 0; i < z.size(); i++ ) ok = ok && z( i ) == 0; VC_CHECK( ok, "zeros", "size %d", (int)n );
			um::Matrix< double > I = um::Matrix< double >::identity( n ), Z = um::Matrix< double >::zeros( n, 6 - n ), S = um::Matrix< double >::scalar( n, 6 - n, 2.5 ); VC_CHECK( maxDiff( dense( I ), eye( n ) ) == 0 && maxDiff( dense( Z ), D( n, 6 - n ) ) == 0, "identity-zeros", "size %d", (int)n ); ok = S.size1() == n && S.size2() == 6 - n; for( size_t i = 0; ok && i < n; i++ ) for( size_t j = 0; j < 6 - n; j++ ) ok = ok && S( i, j ) == 2.5; VC_CHECK( ok, "scalar-matrix", "size %d", (int)n ); }
	}
	if( vc::next( "change of handedness of a 4x4 matrix" ) )
		for( auto& d : mats( 4, 4 ) ) { um::Matrix< double, 4, 4 > m = um_< double, 4, 4 >( d ); leftHandToRightHandMatrix( m ); D S = eye( 4 ); S( 2, 2 ) = -1; D e = mul( mul( S, d ), S ); vc::state(); VC_CHECK( maxDiff( dense( m ), e ) == 0, "handedness", "%s", s( d ).c_str() ); }
}
template< size_t R, size_t C > static void matOne()
{
	if( !vc::next( "%dx%d matrices: storage, equality, products with vectors, outer products", (int)R, (int)C ) ) return;
	std::vector< D > ms = mats( R, C ); std::vector< D > vs = mats( C, 1 ), ws = mats( R, 1 );
	um::Matrix< double, R, C > z = um::Matrix< double, R, C >::zeros(); VC_CHECK( maxDiff( dense( z ), D( R, C ) ) == 0, "zeros-fixed", "not zero" );
	if( R == C ) { um::Matrix< double, R, R > i = um::Matrix< double, R, R >::identity(); VC_CHECK( maxDiff( dense( i ), eye( R ) ) == 0, "identity-fixed", "not the identity" ); }
	for( auto& d : ms )
	{
		um::Matrix< double, R, C > m = um_< double, R, C >( d ); um::Matrix< float, R, C > f = um_< float, R, C >( d );
		VC_CHECK( maxDiff( dense( m ), d ) == 0 && m.size1() == R && m.size2() == C && m.size() == R * C, "matrix-storage", "elements differ" );
		um::Matrix< double, R, C > pm( &d.v[ 0 ] ); VC_CHECK( maxDiff( dense( pm ), d ) == 0, "matrix-from-array", "row-major array not honoured" );
		std::ostringstream os, od, oe; os << m; od << dm( d ); for( size_t i = 0; i < R; i++ ) { oe << "[ "; for( size_t j = 0; j < C; j++ ) oe << d( i, j ) << " "; oe << "]\n"; } VC_CHECK( os.str() == oe.str() && od.str() == oe.str(), "matrix-print", "%s", os.str().c_str() );
		for( auto& e : ms ) { bool eq = d.v == e.v; bool r1 = m == um_< double, R, C >( e ), r2 = dm( d ) == dm( e ); vc::state(); VC_CHECK( r1 == eq, "matrix-equality", "%s == %s gives %d", s( d ).c_str(), s( e ).c_str(), (int)r1 ); VC_CHECK( r2 == eq, "matrix-equality-dynamic", "%s == %s gives %d", s( d ).c_str(), s( e ).c_str(), (int)r2 ); }
		for( size_t k = 0; k < R * C; k++ ) { D e = d; e.v[ k ] += 1; VC_CHECK( !( m == um_< double, R, C >( e ) ), "matrix-equality-element", "element %d ignored", (int)k ); }
		for( auto& v : vs )
		{
			D e = mul( d, v ); um::Vector< double, C > x = uv< double, C >( v.v ); um::Vector< double, R > r; for( size_t i = 0; i < R; i++ ) r( i ) = 77; um::product( m, x, r ); vc::step(); vc::state();
			VC_CHECK( fl( r ) == e.v, "matrix-vector-product", "%s * %s gives %s", s( d ).c_str(), s( v.v ).c_str(), s( fl( r ) ).c_str() );
			um::Vector< double, R > r2 = um::Product< um::Matrix< double, R, C >, um::Vector< double, C >, um::Vector< double, R > >()( m, x ); VC_CHECK( fl( r2 ) == e.v, "matrix-vector-functor", "%s", s( d ).c_str() );
			um::Vector< float, R > rf; um::product( f, uv< float, C >( v.v ), rf ); VC_CHECK( fl( rf ) == e.v, "matrix-vector-float", "%s", s( d ).c_str() );
			vc::outcome( s( e ) );
		}
	}
	for( auto& w : ws ) for( auto& v : vs )
	{
		D e = mul( w, trans( v ) ); um::Vector< double, R > a = uv< double, R >( w.v ); um::Vector< double, C > b = uv< double, C >( v.v ); vc::step(); vc::state();
		um::Matrix< double, R, C > r = um::outer_product( a, b ), r2 = um::Matrix< double, R, C >::zeros(); um::outer_product( a, b, r2 );
		VC_CHECK( maxDiff( dense( r ), e ) == 0 && maxDiff( dense( r2 ), e ) == 0, "outer-product", "%s x %s gives %s", s( w.v ).c_str(), s( v.v ).c_str(), s( dense( r ) ).c_str() );
	}
	// ranges keep order and length
	for( size_t n = 0; n <= 5; n++ )
	{
		std::vector< um::Matrix< double, R, C > > M; std::list< um::Vector< double, C > > X; std::deque< um::Vector< double, R > > W; std::vector< um::Vector< double, C > > Xv; std::vector< D > e, o;
		for( size_t i = 0; i < n; i++ ) { D m = mk( R, C, i + 3 ), x = mk( C, 1, i + 5 ), w = mk( R, 1, i + 9 ); M.push_back( um_< double, R, C >( m ) ); X.push_back( uv< double, C >( x.v ) ); Xv.push_back( uv< double, C >( x.v ) ); W.push_back( uv< double, R >( w.v ) ); e.push_back( mul( m, x ) ); o.push_back( mul( w, trans( x ) ) ); }
		std::vector< um::Vector< double, R > > r; um::product( M.begin(), M.end(), X.begin(), std::back_inserter( r ) ); bool ok = r.size() == n; for( size_t i = 0; ok && i < n; i++ ) ok = fl( r[ i ] ) == e[ i ].v; VC_CHECK( ok, "product-range", "%d elements", (int)n );
		std::vector< um::Matrix< double, R, C > > q; um::outer_product( W.begin(), W.end(), X.begin(), std::back_inserter( q ) ); ok = q.size() == n; for( size_t i = 0; ok && i < n; i++ ) ok = maxDiff( dense( q[ i ] ), o[ i ] ) == 0; VC_CHECK( ok, "outer-range", "%d elements", (int)n );
		std::vector< double > d1, d2, d3, d4; um::distance( X.begin(), X.end(), std::back_inserter( d1 ) ); um::squared_distance( X.begin(), X.end(), std::back_inserter( d2 ) );
		std::list< um::Vector< double, C > > Y( X.rbegin(), X.rend() ); um::distance( X.begin(), X.end(), Y.begin(), std::back_inserter( d3 ) ); um::squared_distance( X.begin(), X.end(), Y.begin(), std::back_inserter( d4 ) );
		ok = d1.size() == n && d2.size() == n && d3.size() == n && d4.size() == n; for( size_t i = 0; ok && i < n; i++ ) { double a = 0, b = 0; for( size_t k = 0; k < C; k++ ) { a += Xv[ i ]( k ) * Xv[ i ]( k ); double t = Xv[ i ]( k ) - Xv[ n - 1 - i ]( k ); b += t * t; } ok = near( d2[ i ], a, 1e-12 ) && near( d1[ i ], std::sqrt( a ), 1e-12 ) && near( d4[ i ], b, 1e-12 ) && near( d3[ i ], std::sqrt( b ), 1e-12 ); } VC_CHECK( ok, "distance-range", "%d elements", (int)n );
		std::vector< um::Vector< double, C > > N1( Xv ); for( auto& v : N1 ) v( 0 ) += 20; std::vector< um::Vector< double, C > > N2( n ), N3( N1 ); um::normalize( N1.begin(), N1.end(), N2.begin() ); um::normalize( N3.begin(), N3.end(), N3.begin() ); ok = true; for( size_t i = 0; i < n; i++ ) { double a = 0; for( size_t k = 0; k < C; k++ ) a += N1[ i ]( k ) * N1[ i ]( k ); for( size_t k = 0; k < C; k++ ) ok = ok && near( N2[ i ]( k ), N1[ i ]( k ) / std::sqrt( a ), 1e-12 ) && N2[ i ]( k ) == N3[ i ]( k ); } VC_CHECK( ok, "normalize-range", "%d elements", (int)n );
		vc::state( 4 ); vc::step( 4 );
	}
}
template< size_t R, size_t K, size_t C > static void matMul()
{
	if( !vc::next( "product of %dx%d and %dx%d matrices", (int)R, (int)K, (int)K, (int)C ) ) return;
	std::vector< D > as = mats( R, K ), bs = mats( K, C );
	for( auto& a : as ) for( auto& b : bs )
	{
		D e = mul( a, b ); um::Matrix< double, R, C > r = um_< double, R, C >( mk( R, C, 2 ) ); um::product( um_< double, R, K >( a ), um_< double, K, C >( b ), r ); vc::step(); vc::state();
		VC_CHECK( maxDiff( dense( r ), e ) == 0, "matrix-product", "%s * %s gives %s", s( a ).c_str(), s( b ).c_str(), s( dense( r ) ).c_str() );
		um::Matrix< float, R, C > f; um::product( um_< float, R, K >( a ), um_< float, K, C >( b ), f ); VC_CHECK( maxDiff( dense( f ), e ) == 0, "matrix-product-float", "%s * %s", s( a ).c_str(), s( b ).c_str() );
	}
	for( size_t n = 0; n <= 4; n++ )
	{
		std::vector< um::Matrix< double, R, K > > A; std::list< um::Matrix< double, K, C > > B; std::vector< D > e; for( size_t i = 0; i < n; i++ ) { D a = mk( R, K, i + 1 ), b = mk( K, C, i + 4 ); A.push_back( um_< double, R, K >( a ) ); B.push_back( um_< double, K, C >( b ) ); e.push_back( mul( a, b ) ); }
		std::vector< um::Matrix< double, R, C > > r; um::product( A.begin(), A.end(), B.begin(), std::back_inserter( r ) ); bool ok = r.size() == n; for( size_t i = 0; ok && i < n; i++ ) ok = maxDiff( dense( r[ i ] ), e[ i ] ) == 0; VC_CHECK( ok, "matrix-product-range", "%d elements", (int)n );
	}
}
static double detOf( const D& a ) { D t; double d; if( a.r == 1 ) return a( 0, 0 ); double r = 0; for( size_t j = 0; j < a.c; j++ ) { D m( a.r - 1, a.c - 1 ); for( size_t i = 1; i < a.r; i++ ) { size_t q = 0; for( size_t k = 0; k < a.c; k++ ) if( k != j ) m( i - 1, q++ ) = a( i, k ); } r += ( j % 2 ? -1 : 1 ) * a( 0, j ) * detOf( m ); } (void)t; (void)d; return r; }
template< class M > static void checkInv( const M& inv, const D& d, const char* key, double tol ) { D p = mul( d, dense( inv ) ), q = mul( dense( inv ), d ); VC_CHECK( maxDiff( p, eye( d.r ) ) < tol && maxDiff( q, eye( d.r ) ) < tol, key, "inverse of %s gives %s", s( d ).c_str(), s( dense( inv ) ).c_str() ); }
template< size_t N > static void square( const std::vector< D >& ms )
{
	for( size_t k = 0; k < ms.size(); k += 64 )
	{
		if( !vc::next( "determinants and inverses of %dx%d matrices %d.. starting with %s", (int)N, (int)N, (int)k, s( ms[ k ] ).c_str() ) ) continue;
		for( size_t i = k; i < k + 64 && i < ms.size(); i++ )
		{
			const D& d = ms[ i ]; double e = detOf( d ); um::Matrix< double, N, N > m = um_< double, N, N >( d ); um::Matrix< float, N, N > f = um_< float, N, N >( d ); vc::state(); vc::step( 3 );
			D before = dense( m );
			VC_CHECK( near( um::determinant( m ), e, 1e-9 ), "determinant", "%s gives %g expected %g", s( d ).c_str(), um::determinant( m ), e );
			VC_CHECK( near( um::determinant( dm( d ) ), e, 1e-9 ), "determinant-dynamic", "%s gives %g", s( d ).c_str(), um::determinant( dm( d ) ) );
			VC_CHECK( near( um::Functors::matrix_determinant()( m ), e, 1e-9 ) && near( um::Functors::matrix_determinant()( f ), e, 1e-3 ), "determinant-functor", "%s", s( d ).c_str() );
			if( std::fabs( e ) > 0.5 )
			{
				checkInv( um::invert_matrix( m ), d, "inverse", 1e-8 ); checkInv( um::invert_matrix( dm( d ) ), d, "inverse-dynamic", 1e-8 ); checkInv( um::Functors::matrix_inverse()( m ), d, "inverse-functor", 1e-8 ); checkInv( um::Functors::matrix_inverse()( f ), d, "inverse-functor-float", 1e-2 ); checkInv( um::pseudoInvert_matrix( m ), d, "pseudo-inverse-square", 1e-8 );
			}
			// in other units: the whole matrix, and every row in a unit of its own
			for( int w = 0; w < 3; w++ )
			{
				auto unit = [&]( size_t r ) { return std::ldexp( 1.0, w == 0 ? -30 : w == 1 ? 30 : ( r * 7 % 5 ) * 12 - 24 ); }; D du = d; double pu = 1; for( size_t r = 0; r < N; r++ ) { pu *= unit( r ); for( size_t c = 0; c < N; c++ ) du( r, c ) *= unit( r ); } um::Matrix< double, N, N > mu = um_< double, N, N >( du ); vc::step();
				VC_CHECK( near( um::determinant( mu ) / pu, e, 1e-9 ) && near( um::determinant( dm( du ) ) / pu, e, 1e-9 ), "determinant-units", "%s, unit %d", s( d ).c_str(), w );
				if( std::fabs( e ) > 0.5 ) for( int v = 0; v < 4; v++ ) { if( w == 2 && v == 2 ) continue; D r = v == 0 ? dense( um::invert_matrix( mu ) ) : v == 1 ? dense( um::invert_matrix( dm( du ) ) ) : v == 2 ? dense( um::pseudoInvert_matrix( mu ) ) : dense( um::Functors::matrix_inverse()( mu ) ); for( size_t i = 0; i < N; i++ ) for( size_t j = 0; j < N; j++ ) r( i, j ) *= unit( j ); checkInv( dm( r ), d, v == 2 ? "pseudo-inverse-units" : "inverse-units", 1e-7 ); }
			}
			VC_CHECK( maxDiff( before, dense( m ) ) == 0, "argument-modified", "%s", s( d ).c_str() );
			vc::outcome( vc::fmt( "%d %g", (int)N, e ) );
		}
	}
}
template< size_t R, size_t C > static void pinv( const std::vector< D >& ms )
{
	for( size_t k = 0; k < ms.size(); k += 64 )
	{
		if( !vc::next( "pseudo-inverses of %dx%d matrices %d..", (int)R, (int)C, (int)k ) ) continue;
		for( size_t i = k; i < k + 64 && i < ms.size(); i++ )
		{
			const D& d = ms[ i ]; D g = R < C ? mul( d, trans( d ) ) : mul( trans( d ), d ); if( std::fabs( detOf( g ) ) < 0.5 ) continue;   // full rank only
			D gi; inv( g, gi ); D e = R < C ? mul( trans( d ), gi ) : mul( gi, trans( d ) ); vc::state(); vc::step();
			um::Matrix< double, C, R > p = um::pseudoInvert_matrix( um_< double, R, C >( d ) ); VC_CHECK( maxDiff( dense( p ), e ) < 1e-8, "pseudo-inverse", "%s gives %s expected %s", s( d ).c_str(), s( dense( p ) ).c_str(), s( e ).c_str() );
			um::Matrix< double > q = um::pseudoInvert_matrix( dm( d ) ); VC_CHECK( maxDiff( dense( q ), e ) < 1e-8, "pseudo-inverse-dynamic", "%s gives %s", s( d ).c_str(), s( dense( q ) ).c_str() );
			for( double u : { std::ldexp( 1.0, -30 ), std::ldexp( 1.0, 30 ) } ) { D du = d; for( double& x : du.v ) x *= u; D r = dense( um::pseudoInvert_matrix( um_< double, R, C >( du ) ) ); for( double& x : r.v ) x *= u; VC_CHECK( maxDiff( r, e ) < 1e-8, "pseudo-inverse-units", "%s times %g", s( d ).c_str(), u ); vc::step(); }
			vc::outcome( s( e ) );
		}
	}
}
static std::vector< D > allMats( size_t r, size_t c, const VD& alpha, size_t stride = 1 )
{
	size_t n = 1; for( size_t i = 0; i < r * c; i++ ) n *= alpha.size(); std::vector< D > v;
	for( size_t k = 0; k < n; k += stride ) { D d( r, c ); size_t q = k; for( size_t i = 0; i < r * c; i++ ) { d.v[ i ] = alpha[ q % alpha.size() ]; q /= alpha.size(); } v.push_back( d ); }
	return v;
}
template< size_t R, size_t K > static void mulRow() { matMul< R, K, 1 >(); matMul< R, K, 2 >(); matMul< R, K, 3 >(); matMul< R, K, 4 >(); }
template< size_t R > static void rows() { matOne< R, 1 >(); matOne< R, 2 >(); matOne< R, 3 >(); matOne< R, 4 >(); matOne< R, 5 >(); mulRow< R, 1 >(); mulRow< R, 2 >(); mulRow< R, 3 >(); mulRow< R, 4 >(); }
static void body()
{
	dynSizes();
	VD al = { -2, -1, 0, 1, 3 };
	vectors< 1 >( { -3, -2, -1, -0.5, 0, 0.5, 1, 2, 7 } ); vectors< 2 >( al ); vectors< 3 >( al ); vectors< 4 >( { -2, 0, 1, 3 } );
	rows< 1 >(); rows< 2 >(); rows< 3 >(); rows< 4 >(); matOne< 5, 3 >(); matOne< 6, 7 >(); matMul< 5, 3, 6 >(); matMul< 2, 6, 5 >();
	square< 1 >( allMats( 1, 1, { -3, -2, -1, 0, 1, 2, 5 } ) );
	square< 2 >( allMats( 2, 2, { -3, -1, 0, 1, 2 } ) );
	square< 3 >( allMats( 3, 3, { -1, 0, 2 } ) );
	square< 4 >( allMats( 4, 4, { -1, 0, 2 }, vc::thorough() ? 211 : 4999 ) );
	{ std::vector< D > v; std::vector< int > p = { 0, 1, 2, 3, 4 }; do { D d( 5, 5 ); for( int i = 0; i < 5; i++ ) d( i, p[ i ] ) = 1 + i; v.push_back( d ); D e = d; for( int i = 0; i < 4; i++ ) e( i, i + 1 ) += 0.5; v.push_back( e ); } while( std::next_permutation( p.begin(), p.end() ) ); square< 5 >( v ); }
	pinv< 1, 3 >( allMats( 1, 3, { -1, 0, 2 } ) ); pinv< 3, 1 >( allMats( 3, 1, { -1, 0, 2 } ) ); pinv< 2, 3 >( allMats( 2, 3, { -1, 0, 2 } ) ); pinv< 3, 2 >( allMats( 3, 2, { -1, 0, 2 } ) );
	pinv< 2, 4 >( allMats( 2, 4, { -1, 0, 2 }, 5 ) ); pinv< 4, 2 >( allMats( 4, 2, { -1, 0, 2 }, 5 ) ); pinv< 3, 4 >( allMats( 3, 4, { -1, 0, 2 }, 431 ) ); pinv< 4, 3 >( allMats( 4, 3, { -1, 0, 2 }, 431 ) );
}
VC_MAIN( body() )
