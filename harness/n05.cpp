// N05: Levenberg-Marquardt and Gauss-Newton on every problem, start, iteration limit, solver and weighting of a finite family.
#include "ut.hpp"
#include <utMath/Vector.h>
#include <utMath/Matrix.h>
#include <utMath/Optimization/LevenbergMarquardt.h>
#include <utMath/Optimization/GaussNewton.h>
#include <utMath/Optimization/TukeyWeightFunction.h>
using namespace ut;
namespace um = Ubitrack::Math; namespace uo = Ubitrack::Math::Optimization;
typedef std::vector< double > VD;
static std::string sd( const VD& v ) { std::string r; for( double d : v ) r += vc::fmt( "%g ", d ); return r; }
// ---- problems: value and derivative written out on plain arrays
struct Problem
{
	std::string name; size_t m, n; mutable long evals; VD meas;
	Problem( const char* nm, size_t m_, size_t n_ ) : name( nm ), m( m_ ), n( n_ ), evals( 0 ), meas( m_, 0 ) {}
	virtual ~Problem() {}
	virtual void f( const VD& x, VD& y, D& J ) const = 0;
	void at( const VD& x, VD& y, D& J ) const { y.assign( m, 0 ); J = D( m, n ); f( x, y, J ); }
	size_t size() const { return m; }
	template< class R, class X, class M > void evaluateWithJacobian( R& r, const X& p, M& j ) const
	{ ++evals; VD x( n ), y; D J; for( size_t i = 0; i < n; i++ ) x[ i ] = p( i ); at( x, y, J ); for( size_t i = 0; i < m; i++ ) { r( i ) = y[ i ]; for( size_t k = 0; k < n; k++ ) j( i, k ) = J( i, k ); } }
};
struct Linear : Problem { D A; VD b; Linear( const D& a, const VD& c ) : Problem( "linear", a.r, a.c ), A( a ), b( c ) {} void f( const VD& x, VD& y, D& J ) const { J = A; for( size_t i = 0; i < m; i++ ) { y[ i ] = b[ i ]; for( size_t k = 0; k < n; k++ ) y[ i ] += A( i, k ) * x[ k ]; } } };
struct Rosen : Problem { Rosen() : Problem( "rosenbrock", 2, 2 ) { meas[ 1 ] = 1; } void f( const VD& x, VD& y, D& J ) const { y[ 0 ] = 10 * ( x[ 1 ] - x[ 0 ] * x[ 0 ] ); y[ 1 ] = x[ 0 ]; J( 0, 0 ) = -20 * x[ 0 ]; J( 0, 1 ) = 10; J( 1, 0 ) = 1; } };
struct Ranges : Problem { Ranges() : Problem( "ranges", 4, 2 ) { meas[ 0 ] = 1.5; meas[ 1 ] = 2; meas[ 2 ] = 2.25; meas[ 3 ] = 1; } void f( const VD& x, VD& y, D& J ) const { static const double B[ 4 ][ 2 ] = { { 0, 0 }, { 3, 0 }, { 0, 3.1 }, { 2, 1.5 } }; for( int i = 0; i < 4; i++ ) { double a = x[ 0 ] - B[ i ][ 0 ], b = x[ 1 ] - B[ i ][ 1 ], d = std::sqrt( a * a + b * b ); y[ i ] = d; J( i, 0 ) = d > 0 ? a / d : 0; J( i, 1 ) = d > 0 ? b / d : 0; } } };
struct Expo : Problem { Expo() : Problem( "exponential", 5, 2 ) { double v[] = { 2, 1.2, 0.75, 0.44, 0.27 }; meas.assign( v, v + 5 ); } void f( const VD& x, VD& y, D& J ) const { for( int i = 0; i < 5; i++ ) { double e = std::exp( x[ 1 ] * i ); y[ i ] = x[ 0 ] * e; J( i, 0 ) = e; J( i, 1 ) = x[ 0 ] * i * e; } } };
struct Atan : Problem { Atan() : Problem( "arctangent", 1, 1 ) {} void f( const VD& x, VD& y, D& J ) const { y[ 0 ] = std::atan( x[ 0 ] ); J( 0, 0 ) = 1 / ( 1 + x[ 0 ] * x[ 0 ] ); } };
struct Sqrt : Problem { Sqrt() : Problem( "square root (undefined below zero)", 2, 1 ) { meas[ 0 ] = 0.5; meas[ 1 ] = 0.25; } void f( const VD& x, VD& y, D& J ) const { y[ 0 ] = std::sqrt( x[ 0 ] ); J( 0, 0 ) = 0.5 / std::sqrt( x[ 0 ] ); y[ 1 ] = x[ 0 ]; J( 1, 0 ) = 1; } };
struct Flat : Problem { Flat() : Problem( "redundant parameters", 2, 3 ) { meas[ 0 ] = 1; meas[ 1 ] = 2; } void f( const VD& x, VD& y, D& J ) const { y[ 0 ] = x[ 0 ] + x[ 1 ]; J( 0, 0 ) = J( 0, 1 ) = 1; y[ 1 ] = x[ 0 ] * x[ 2 ]; J( 1, 0 ) = x[ 2 ]; J( 1, 2 ) = x[ 0 ]; } };
struct Wave : Problem { Wave() : Problem( "many local minima", 2, 1 ) { meas[ 0 ] = 0.3; } void f( const VD& x, VD& y, D& J ) const { y[ 0 ] = std::sin( 3 * x[ 0 ] ); J( 0, 0 ) = 3 * std::cos( 3 * x[ 0 ] ); y[ 1 ] = 0.2 * x[ 0 ]; J( 1, 0 ) = 0.2; } };
struct Dir : Problem { Dir() : Problem( "direction", 3, 3 ) { meas[ 0 ] = 0.5; meas[ 1 ] = -0.25; meas[ 2 ] = 2; } void f( const VD& x, VD& y, D& J ) const { double A[ 3 ][ 3 ] = { { 2, 1, 0 }, { 0, 1, -1 }, { 1, 0, 3 } }; for( int i = 0; i < 3; i++ ) for( int k = 0; k < 3; k++ ) { y[ i ] += A[ i ][ k ] * x[ k ]; J( i, k ) = A[ i ][ k ]; } } };
// ---- weightings
struct Fixed { VD w; bool none; bool noWeights() const { return none; } template< class X, class Y > void computeWeights( const X& e, Y& o ) const { for( size_t i = 0; i < o.size(); i++ ) o( i ) = w[ i ]; } };
struct Robust { bool noWeights() const { return false; } template< class X, class Y > void computeWeights( const X& e, Y& o ) const { for( size_t i = 0; i < o.size(); i++ ) o( i ) = 1 / ( 1 + std::fabs( e( i ) ) ); } };
struct Unit { template< class X, class Y > void evaluate( X& r, const Y& v ) const { double s = 0; for( size_t i = 0; i < v.size(); i++ ) s += v( i ) * v( i ); s = std::sqrt( s ); for( size_t i = 0; i < v.size(); i++ ) r( i ) = v( i ) / s; } };
template< class W > static double residual( const Problem& p, const VD& x, const W& wf ) { VD y; D J; p.at( x, y, J ); um::Vector< double > e( p.m ), w( p.m ); for( size_t i = 0; i < p.m; i++ ) { e( i ) = p.meas[ i ] - y[ i ]; w( i ) = 1; } if( !wf.noWeights() ) wf.computeWeights( e, w ); double s = 0; for( size_t i = 0; i < p.m; i++ ) s += w( i ) * e( i ) * e( i ); return s; }
template< class W > static VD gradient( const Problem& p, const VD& x, const W& wf ) { VD y; D J; p.at( x, y, J ); um::Vector< double > e( p.m ), w( p.m ); for( size_t i = 0; i < p.m; i++ ) { e( i ) = p.meas[ i ] - y[ i ]; w( i ) = 1; } if( !wf.noWeights() ) wf.computeWeights( e, w ); VD g( p.n, 0 ); for( size_t i = 0; i < p.m; i++ ) for( size_t k = 0; k < p.n; k++ ) g[ k ] += w( i ) * J( i, k ) * e( i ); return g; }
template< class N, class W > static double runLM( const Problem& p, VD& x, const uo::OptTerminate& t, const N& norm, const W& wf, uo::LmSolverType s, double step, double fac )
{
	um::Vector< double > px( p.n ), me( p.m ); for( size_t i = 0; i < p.n; i++ ) px( i ) = x[ i ]; for( size_t i = 0; i < p.m; i++ ) me( i ) = p.meas[ i ]; p.evals = 0;
	double r = uo::weightedLevenbergMarquardt( const_cast< Problem& >( p ), px, me, t, norm, wf, s, step, fac ); for( size_t i = 0; i < p.n; i++ ) x[ i ] = px( i ); vc::step( p.evals ); return r;
}
static const uo::LmSolverType SOL[ 3 ] = { uo::lmUseCholesky, uo::lmUseQR, uo::lmUseSVD };
static double nrm( const VD& v ) { double s = 0; for( double d : v ) s += d * d; return std::sqrt( s ); }
// every iteration limit, solver, damping; residual never worse, reported exactly, within the limit, monotone in the limit
template< class N, class W > static void sweep( const Problem& p, const VD& x0, const N& norm, const W& wf, const char* what, int maxIt, bool unit, double convTol )
{
	double r0 = residual( p, x0, wf ); static const double DMP[ 4 ][ 2 ] = { { 1, 10 }, { 1e-3, 10 }, { 100, 2 }, { 1e-8, 3 } };
	for( int s = 0; s < 3; s++ ) for( int d = 0; d < vc::pick( 3, 4 ); d++ )
	{
		double last = r0; VD prev = x0;
		for( int k = 1; k <= maxIt; k = k < 8 ? k + 1 : k * 2 )
		{
			VD x = x0; double r = runLM( p, x, uo::OptTerminate( k ), norm, wf, SOL[ s ], DMP[ d ][ 0 ], DMP[ d ][ 1 ] ); vc::state();
			double rr = residual( p, x, wf ); std::string w = vc::fmt( "%s, start %s, limit %d, solver %d, damping %d", what, sd( x0 ).c_str(), k, s, d );
			VC_CHECK( std::isfinite( r ) && std::isfinite( rr ), "finite", "%s: residual %g at %s", w.c_str(), rr, sd( x ).c_str() );
			VC_CHECK( rr <= r0 * ( 1 + 1e-12 ) + 1e-300, "never-worse", "%s: residual %.12g, started at %.12g", w.c_str(), rr, r0 );
			VC_CHECK( std::fabs( r - rr ) <= 1e-9 * ( std::fabs( rr ) + 1e-12 ), "reported-residual", "%s: reports %.12g, residual of its parameters is %.12g", w.c_str(), r, rr );
			VC_CHECK( p.evals <= k + 1, "iteration-limit", "%s: %ld evaluations", w.c_str(), p.evals );
			VC_CHECK( rr <= last * ( 1 + 1e-12 ) + 1e-300, "monotone", "%s: %.12g, with a smaller limit %.12g", w.c_str(), rr, last ); last = rr;
			if( unit ) VC_NEAR( nrm( x ), 1.0, 1e-12, "normalised", "%s", w.c_str() );
			// an untouched start is returned unchanged, a changed one is better
			if( x != x0 ) VC_CHECK( rr < r0, "strictly-better", "%s", w.c_str() );
		}
		VD x = x0; double r = runLM( p, x, uo::OptTerminate( 2000, 1e-9 ), norm, wf, SOL[ s ], DMP[ d ][ 0 ], DMP[ d ][ 1 ] );
		VC_CHECK( residual( p, x, wf ) <= r0 * ( 1 + 1e-12 ) + 1e-300 && std::isfinite( r ), "never-worse-precision", "%s start %s solver %d: %g", what, sd( x0 ).c_str(), s, r );
		{ VD z = x0; double r = runLM( p, z, uo::OptTerminate( 700 ), norm, wf, SOL[ s ], DMP[ d ][ 0 ], DMP[ d ][ 1 ] ); VC_CHECK( residual( p, z, wf ) <= r0 * ( 1 + 1e-12 ) + 1e-300 && std::isfinite( r ), "never-worse-long", "%s start %s solver %d: %g", what, sd( x0 ).c_str(), s, r ); }
		if( convTol > 0 && p.evals < 2000 ) { x = x0; runLM( p, x, uo::OptTerminate( 400 ), norm, wf, SOL[ s ], DMP[ d ][ 0 ], DMP[ d ][ 1 ] ); double g = nrm( gradient( p, x, wf ) ); VC_CHECK( g < convTol, "stationary", "%s start %s solver %d damping %d: gradient %g at %s", what, sd( x0 ).c_str(), s, d, g, sd( x ).c_str() ); }
	}
}
static std::vector< VD > starts( size_t n, const double* v, int k ) { std::vector< VD > r; std::vector< int > s( n, 0 ); while( true ) { VD x; for( int i : s ) x.push_back( v[ i ] ); r.push_back( x ); size_t i = 0; while( i < n && ++s[ i ] == k ) s[ i++ ] = 0; if( i == n ) break; } return r; }
static void nonlinear( const Problem& p, const std::vector< VD >& st, double conv, int maxIt )
{
	Fixed none; none.none = true;
	for( auto& x0 : st )
	{
		if( !vc::next( "%s from %s", p.name.c_str(), sd( x0 ).c_str() ) ) continue;
		sweep( p, x0, uo::OptNoNormalize(), none, "unweighted", maxIt, false, conv );
		for( int k = 0; k < 3; k++ ) { Fixed w; w.none = false; for( size_t i = 0; i < p.m; i++ ) w.w.push_back( k == 0 ? 1 : k == 1 ? 0.25 + i : ( i % 2 ? 0 : 2 ) ); sweep( p, x0, uo::OptNoNormalize(), w, "fixed weights", maxIt, false, k < 2 ? conv * 4 : 0 );
			if( k == 0 ) { VD a = x0, b = x0; double ra = runLM( p, a, uo::OptTerminate( 20 ), uo::OptNoNormalize(), none, uo::lmUseSVD, 1, 10 ), rb = runLM( p, b, uo::OptTerminate( 20 ), uo::OptNoNormalize(), w, uo::lmUseSVD, 1, 10 ); VC_CHECK( std::fabs( ra - rb ) <= 1e-9 * ( 1 + ra ), "unit-weights", "start %s: %g against %g", sd( x0 ).c_str(), ra, rb ); } }
		sweep( p, x0, uo::OptNoNormalize(), Robust(), "robust weights", maxIt, false, 0 );
		// Tukey's weights of an exactly met measurement are a special case: zero
		sweep( p, x0, uo::OptNoNormalize(), um::TukeyWeightFunction( 1, 2.0 ), "Tukey weights", maxIt, false, 0 );
		VC_OUT( "%s %s", p.name.c_str(), sd( x0 ).c_str() );
	}
}
static void linear( size_t m, size_t n, int K )
{
	std::vector< D > As; for( int k = 0; k < K; k++ ) { D a( m, n ); for( size_t i = 0; i < m; i++ ) for( size_t j = 0; j < n; j++ ) a( i, j ) = (double)( (int)( ( i * 5 + j * 3 + i * j * ( k + 2 ) + k * 4 + ( i * i + k * j ) % 3 ) % 7 ) - 3 ); D g = mul( trans( a ), a ); VD e = eigSym( g ); if( *std::min_element( e.begin(), e.end() ) > 0.05 ) As.push_back( a ); }
	for( size_t a = 0; a < As.size(); a++ )
	{
		if( !vc::next( "linear %zux%zu problem %zu", m, n, a ) ) continue;
		static const double MV[] = { 0, 1, -2.5 }, SV[] = { 0, 10, -3 }; std::vector< VD > ms = starts( m, MV, 3 ), ss = starts( n, SV, 3 );
		for( auto& me : ms ) for( auto& x0 : ss ) for( int wk = 0; wk < 3; wk++ )
		{
			VD b( m ); for( size_t i = 0; i < m; i++ ) b[ i ] = 0.5 * i; Linear p( As[ a ], b ); p.meas = me; Fixed w; w.none = wk == 0; for( size_t i = 0; i < m; i++ ) w.w.push_back( wk == 1 ? 1 + i : wk == 2 ? 4.0 / ( 1 + i ) : 1 );
			D G( n, n ), h( n, 1 ); for( size_t i = 0; i < m; i++ ) for( size_t j = 0; j < n; j++ ) { h( j, 0 ) += w.w[ i ] * As[ a ]( i, j ) * ( me[ i ] - b[ i ] ); for( size_t k = 0; k < n; k++ ) G( j, k ) += w.w[ i ] * As[ a ]( i, j ) * As[ a ]( i, k ); }
			D Gi; inv( G, Gi ); D e = mul( Gi, h ); vc::state();
			for( int s = 0; s < 3; s++ )
			{
				VD x = x0; double r = runLM( p, x, uo::OptTerminate( 40 ), uo::OptNoNormalize(), w, SOL[ s ], 1, 10 ), rr = residual( p, x, w ); double d = 0; for( size_t j = 0; j < n; j++ ) d = std::max( d, std::fabs( x[ j ] - e( j, 0 ) ) );
				VC_CHECK( d < 1e-6, "linear-exact", "measurement %s start %s weights %d solver %d: off by %g", sd( me ).c_str(), sd( x0 ).c_str(), wk, s, d );
				VC_CHECK( std::fabs( r - rr ) < 1e-9 * ( 1 + rr ), "linear-residual", "reports %g, is %g", r, rr );
			}
			if( wk == 0 )
			{
				um::Vector< double > px( n ), um_( m ); for( size_t j = 0; j < n; j++ ) px( j ) = x0[ j ]; for( size_t i = 0; i < m; i++ ) um_( i ) = me[ i ];
				uo::gaussNewton( p, px, um_, 1, uo::OptNoNormalize() ); for( size_t j = 0; j < n; j++ ) VC_NEAR( px( j ), e( j, 0 ), 1e-8, "gauss-newton-linear", "one step, measurement %s start %s", sd( me ).c_str(), sd( x0 ).c_str() );
				p.evals = 0; uo::gaussNewton( p, px, um_, 5, uo::OptNoNormalize() ); VC_CHECK( p.evals <= 6, "gauss-newton-limit", "%ld evaluations for 5 iterations", p.evals ); for( size_t j = 0; j < n; j++ ) VC_NEAR( px( j ), e( j, 0 ), 1e-8, "gauss-newton-fix", "five more steps" );
				um::Vector< double > q( n ); for( size_t j = 0; j < n; j++ ) q( j ) = x0[ j ]; uo::levenbergMarquardt( p, q, um_, uo::OptTerminate( 40 ), uo::OptNoNormalize() ); for( size_t j = 0; j < n; j++ ) VC_NEAR( q( j ), e( j, 0 ), 1e-6, "linear-plain", "unweighted front end" );
			}
			// a measurement of zero weight has no influence
			if( wk == 1 && m > n ) { Fixed z = w; z.w[ m - 1 ] = 0; VD x = x0, y = x0; runLM( p, x, uo::OptTerminate( 10 ), uo::OptNoNormalize(), z, SOL[ 0 ], 1, 10 ); Linear p2 = p; p2.meas[ m - 1 ] += 17; runLM( p2, y, uo::OptTerminate( 10 ), uo::OptNoNormalize(), z, SOL[ 0 ], 1, 10 ); for( size_t j = 0; j < n; j++ ) VC_NEAR( x[ j ], y[ j ], 1e-12 * ( 1 + std::fabs( y[ j ] ) ), "zero-weight", "measurement %s", sd( me ).c_str() ); }
		}
		VC_OUT( "linear %zu %zu %zu", m, n, a );
	}
}
// zero of a residual of equal size: Gauss-Newton converges from nearby
static void gaussNewton( const Problem& p0, const VD& sol, double rad )
{
	static const double O[] = { -1, 0, 1 };
	for( auto& o : starts( p0.n, O, 3 ) )
	{
		if( !vc::next( "Gauss-Newton on %s near its solution, offset %s", p0.name.c_str(), sd( o ).c_str() ) ) continue;
		VD y; D J; p0.at( sol, y, J ); um::Vector< double > x( p0.n ), me( p0.m ); for( size_t i = 0; i < p0.n; i++ ) x( i ) = sol[ i ] + rad * o[ i ]; for( size_t i = 0; i < p0.m; i++ ) me( i ) = y[ i ];
		for( int k = 0; k < 3; k++ ) { um::Vector< double > z( x ); uo::gaussNewton( const_cast< Problem& >( p0 ), z, me, 8 + k, uo::OptNoNormalize() ); vc::state(); vc::step( 8 ); for( size_t i = 0; i < p0.n; i++ ) VC_NEAR( z( i ), sol[ i ], 1e-7, "gauss-newton-converges", "parameter %zu", i ); }
		VC_OUT( "gn %s", sd( o ).c_str() );
	}
}
static void terminate()
{
	if( !vc::next( "termination criterion" ) ) return;
	for( int mx = 0; mx <= 4; mx++ ) for( double pr : { 0.0, 0.1 } ) for( int it = 1; it <= 6; it++ ) for( double a : { 1.0, 1.05, 2.0 } ) for( double b : { 1.0, 1.05, 2.0 } )
	{ vc::state(); bool e = ( mx > 0 && it >= mx ) || ( pr > 0 && std::fabs( a - b ) < pr * b ); VC_CHECK( uo::OptTerminate( mx, pr )( it, a, b ) == e, "criterion", "limit %d precision %g iteration %d residuals %g %g", mx, pr, it, a, b ); }
}
void body()
{
	bool th = vc::thorough(); terminate();
	for( size_t m = 1; m <= 4; m++ ) for( size_t n = 1; n <= std::min( m, (size_t)3 ); n++ ) linear( m, n, th ? 12 : 5 );
	static const double A[] = { -1.5, -0.5, 0, 0.75, 1, 2, 5, -8 }, B[] = { 0.3, -0.2, 1.1, -1.2, 2.5, 0 }, C[] = { 0.04, 0.25, 1, 9, 100, 0.001 }, T[] = { 0.1, -0.7, 1.3, 4, -20, 200, 0 };
	int it = th ? 64 : 16; int nA = th ? 8 : 6;
	nonlinear( Rosen(), starts( 2, A, nA ), 1e-5, it ); nonlinear( Ranges(), starts( 2, A, nA ), 0, it ); nonlinear( Expo(), starts( 2, B, th ? 6 : 5 ), 0, it );
	nonlinear( Atan(), starts( 1, T, 7 ), 1e-7, it ); nonlinear( Sqrt(), starts( 1, C, 6 ), 1e-7, it ); nonlinear( Flat(), starts( 3, B, th ? 4 : 3 ), 0, it ); nonlinear( Wave(), starts( 1, T, 7 ), 1e-7, it );
	Dir dir; static const double U[] = { -1, 0, 1 };
	for( auto& v : starts( 3, U, 3 ) )
	{
		double n = nrm( v ); if( n == 0 ) continue; VD x; for( double d : v ) x.push_back( d / n ); if( !vc::next( "direction of unit length from %s", sd( x ).c_str() ) ) continue;
		Fixed none; none.none = true; sweep( dir, x, Unit(), none, "normalised", it, true, 0 ); Fixed w; w.none = false; w.w = { 3, 0.5, 1 }; sweep( dir, x, Unit(), w, "normalised, weighted", it, true, 0 ); VC_OUT( "dir %s", sd( x ).c_str() );
	}
	// Tukey's weights: the same for all rows of a measurement, positive, never growing with the error, and independent of the other measurements
	for( unsigned rows = 1; rows <= 3; rows++ ) for( double c : { 0.5, 2.0, 10.0 } ) if( vc::next( "Tukey weights of %u rows, threshold %g", rows, c ) )
	{
		std::vector< double > es; for( double f = 1e-3; f < 40; f *= 1.3 ) es.push_back( f * c ); um::TukeyWeightFunction wf( rows, c ); VC_CHECK( !wf.noWeights(), "tukey-off", "" ); double last = 1e300;
		for( size_t i = 0; i < es.size(); i++ ) for( size_t dir = 0; dir < rows; dir++ )
		{
			um::Vector< double > e( 2 * rows ), w( 2 * rows ); for( unsigned k = 0; k < 2 * rows; k++ ) { e( k ) = 0; w( k ) = -7; } e( dir ) = i % 2 ? -es[ i ] : es[ i ]; e( 2 * rows - 1 ) = es[ es.size() - 1 - i ]; wf.computeWeights( e, w );
			um::Vector< double > e1( rows ), w1( rows ); for( unsigned k = 0; k < rows; k++ ) e1( k ) = e( k ); wf.computeWeights( e1, w1 ); vc::state(); vc::step( 2 );
			VC_CHECK( w( 0 ) > 0 && w( 0 ) < 1e300, "tukey-positive", "error %g: %g", es[ i ], w( 0 ) ); for( unsigned k = 1; k < rows; k++ ) VC_CHECK( w( k ) == w( 0 ) && w( rows + k ) == w( rows ), "tukey-rows", "error %g row %u", es[ i ], k );
			VC_CHECK( w1( 0 ) == w( 0 ), "tukey-others", "error %g: %g alone, %g with another measurement", es[ i ], w1( 0 ), w( 0 ) ); VC_CHECK( w( 0 ) <= last * ( 1 + 1e-12 ), "tukey-grows", "error %g: %g after %g", es[ i ], w( 0 ), last ); last = w( 0 );
		}
	}
	VD s1( 2 ); s1[ 0 ] = s1[ 1 ] = 1; gaussNewton( Rosen(), s1, 0.3 ); VD s2( 2 ); s2[ 0 ] = 1; s2[ 1 ] = 0.5; gaussNewton( Ranges(), s2, 0.15 ); VD s3( 2 ); s3[ 0 ] = 2; s3[ 1 ] = -0.5; gaussNewton( Expo(), s3, 0.2 );
}
VC_MAIN( body() )
