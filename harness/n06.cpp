// N06: RANSAC under every sequence of random draws.
#include "rng.hpp"
#include "ut.hpp"
#include <list>
#include <stdexcept>
#include <utMath/Vector.h>
#include <utMath/Optimization/Ransac.h>
using namespace ut;
namespace um = Ubitrack::Math; namespace uo = Ubitrack::Math::Optimization;
typedef um::Vector< double, 2 > P2; typedef std::vector< P2 > PV;
// rand() of the C library is replaced: the k-th draw since the last hypothesis is an enumerated choice
static int g_call = 0, g_n = 1; static bool g_shuffle = true;
extern "C" int rand() noexcept { int m = g_shuffle ? g_call % std::max( 1, g_n - 1 ) + 2 : std::max( 1, g_n - g_call ); ++g_call; return rng::choose( m ); }
struct Line { double a, b; bool operator==( const Line& o ) const { return std::fabs( a - o.a ) < 1e-9 && std::fabs( b - o.b ) < 1e-9; } };
static bool fit( const PV& p, Line& l )
{ double n = p.size(), sx = 0, sy = 0, xx = 0, xy = 0; for( auto& q : p ) { sx += q( 0 ); sy += q( 1 ); xx += q( 0 ) * q( 0 ); xy += q( 0 ) * q( 1 ); } double d = n * xx - sx * sx; if( std::fabs( d ) < 1e-9 ) return false; l.a = ( n * xy - sx * sy ) / d; l.b = ( sy - l.a * sx ) / n; return true; }
static double dist( const Line& l, const P2& p ) { return std::fabs( l.a * p( 0 ) + l.b - p( 1 ) ); }
static int g_set = 2;
static bool fit2( const PV& a, const PV& b, P2& t ) { if( a.empty() || a.size() != b.size() ) return false; t = P2( 0, 0 ); for( size_t i = 0; i < a.size(); i++ ) t += b[ i ] - a[ i ]; t /= a.size(); if( g_set == 2 && a.size() == 2 && a[ 0 ]( 0 ) == a[ 1 ]( 0 ) && a[ 0 ]( 1 ) == a[ 1 ]( 1 ) ) return false; return true; }
static double dist2( const P2& t, const P2& a, const P2& b ) { double x = a( 0 ) + t( 0 ) - b( 0 ), y = a( 1 ) + t( 1 ) - b( 1 ); return std::sqrt( x * x + y * y ); }
// everything the functors are asked
static std::vector< PV > g_sets, g_sets2; static long g_evals = 0;
struct LineModel
{
	struct Estimator { template< class I > bool operator()( Line& l, const I b, const I e ) const { g_sets.push_back( PV( b, e ) ); g_call = 0; return fit( g_sets.back(), l ); } };
	struct Evaluator { double operator()( const Line& l, const P2& p ) const { ++g_evals; return dist( l, p ); } };
};
struct ShiftModel
{
	struct Estimator { template< class I, class J > bool operator()( P2& t, const I b, const I e, const J c, const J f ) const { g_sets.push_back( PV( b, e ) ); g_sets2.push_back( PV( c, f ) ); g_call = 0; return fit2( g_sets.back(), g_sets2.back(), t ); } };
	struct Evaluator { double operator()( const P2& t, const P2& a, const P2& b ) const { ++g_evals; return dist2( t, a, b ); } };
};
struct OldEst { bool shift; void operator()( P2& t, const PV& a, const PV& b ) const { g_sets.push_back( a ); g_sets2.push_back( b ); g_call = 0; if( !fit2( a, b, t ) ) throw std::runtime_error( "singular" ); } };
struct OldEval { double operator()( const P2& t, const P2& a, const P2& b ) const { ++g_evals; return dist2( t, a, b ); } };
static std::string sp( const PV& v ) { std::string r; for( auto& p : v ) r += vc::fmt( "(%g,%g)", p( 0 ), p( 1 ) ); return r; }
static bool same( const PV& a, const PV& b ) { if( a.size() != b.size() ) return false; for( size_t i = 0; i < a.size(); i++ ) if( a[ i ]( 0 ) != b[ i ]( 0 ) || a[ i ]( 1 ) != b[ i ]( 1 ) ) return false; return true; }
// the sample is a set of distinct data
static bool distinctIn( const PV& s, const PV& data ) { std::vector< bool > used( data.size() ); for( auto& p : s ) { bool f = false; for( size_t i = 0; i < data.size() && !f; i++ ) if( !used[ i ] && data[ i ]( 0 ) == p( 0 ) && data[ i ]( 1 ) == p( 1 ) ) used[ i ] = f = true; if( !f ) return false; } return true; }
static std::vector< size_t > inl( const Line& l, const PV& d, double th ) { std::vector< size_t > r; for( size_t i = 0; i < d.size(); i++ ) if( dist( l, d[ i ] ) < th ) r.push_back( i ); return r; }
static std::vector< size_t > inl2( const P2& t, const PV& a, const PV& b, double th ) { std::vector< size_t > r; for( size_t i = 0; i < a.size(); i++ ) if( dist2( t, a[ i ], b[ i ] ) < th ) r.push_back( i ); return r; }
static PV take( const PV& d, const std::vector< size_t >& i ) { PV r; for( size_t k : i ) r.push_back( d[ k ] ); return r; }
static void common( const char* w, size_t ret, size_t tried, size_t runs, size_t best, size_t minIn, size_t minRuns )
{
	VC_CHECK( tried <= runs, "run-limit", "%s: %zu sample sets, limit %zu, draws %s", w, tried, runs, rng::str().c_str() );
	if( ret ) { VC_CHECK( ret == best, "best-supported", "%s: reports %zu inliers, a tried model has %zu, draws %s", w, ret, best, rng::str().c_str() ); VC_CHECK( ret >= minIn, "minimum", "%s: %zu inliers, required %zu", w, ret, minIn ); VC_CHECK( tried >= std::min( minRuns, runs ), "minimum-runs", "%s: %zu sample sets, at least %zu asked", w, tried, minRuns ); }
	else { VC_CHECK( best < minIn, "false-failure", "%s: fails although a tried model has %zu of %zu inliers, draws %s", w, best, minIn, rng::str().c_str() ); VC_CHECK( tried == runs, "gave-up", "%s: fails after %zu of %zu runs", w, tried, runs ); }
}
template< class CONT > static void lineCase( const PV& d, int n, int minIn, int runs, long most )
{
	long paths = 0;
			CONT c( d.begin(), d.end() ); rng::begin(); g_shuffle = true; g_n = n;
			do
			{
				rng::restart(); g_call = 0; g_sets.clear(); g_evals = 0; Line r = { 77, 77 }; vc::state(); vc::step( runs );
				size_t ret = uo::ransac( c.begin(), c.end(), r, LineModel(), uo::RansacParameter< double >( 0.25, (size_t)2, (size_t)minIn, (size_t)runs ) );
				size_t tried = g_sets.size() - ( ret ? 1 : 0 ), best = 0; bool modelOk = false;
				for( size_t i = 0; i < tried; i++ )
				{
					VC_CHECK( g_sets[ i ].size() == 2 && distinctIn( g_sets[ i ], d ), "distinct-samples", "sample set %s", sp( g_sets[ i ] ).c_str() );
					Line h; if( !fit( g_sets[ i ], h ) ) continue; std::vector< size_t > in = inl( h, d, 0.25 ); best = std::max( best, in.size() ); Line e; if( ret && in.size() == ret && fit( take( d, in ), e ) && e == r && same( take( d, in ), g_sets.back() ) ) modelOk = true;
				}
				common( "one list", ret, tried, runs, best, minIn, 1 );
				if( ret ) VC_CHECK( modelOk, "model-of-inliers", "result y = %g x + %g is not the estimate from the inliers of a best tried model, draws %s", r.a, r.b, rng::str().c_str() );
				else VC_CHECK( r.a == 77 && r.b == 77, "result-on-failure", "failure changed the result" );
			} while( rng::advance() && ++paths != most );
}
template< class CONT > static void line( int n, int runs, const double* alpha, int k, int xk )
{
	std::vector< int > s( n, 0 ); static const double X[ 2 ][ 6 ] = { { 0, 1, 2, 3, 4, 5 }, { 0, 1, 1, 2, 2, 4 } };
	while( true )
	{
		PV d; for( int i = 0; i < n; i++ ) d.push_back( P2( X[ xk ][ i ], alpha[ s[ i ] ] ) );
		for( int minIn = 2; minIn <= n; minIn++ )
		{
			if( !vc::next( "line through %s, at least %d inliers, at most %d runs, every draw", sp( d ).c_str(), minIn, runs ) ) continue;
			lineCase< CONT >( d, n, minIn, runs, 0 );
			VC_OUT( "%s %d", sp( d ).c_str(), minIn );
		}
		int i = 0; while( i < n && ++s[ i ] == k ) s[ i++ ] = 0; if( i == n ) break;
	}
}
static void shiftCase( const PV& a, const PV& b, int n, int set, int minIn, int minRuns, int runs, bool old, long most )
{
	long paths = 0;
			rng::begin(); g_n = n; g_shuffle = !old; g_set = set;
			do
			{
				rng::restart(); g_call = 0; g_sets.clear(); g_sets2.clear(); g_evals = 0; P2 r( 77, 77 ); vc::state(); vc::step( runs ); std::vector< bool > flags( 3, true ); const double th = 0.15; size_t ret;
				if( old ) ret = uo::ransac( r, a, b, th, (size_t)set, (size_t)minIn, (size_t)minRuns, (size_t)runs, OldEst(), OldEval(), &flags );
				else ret = uo::ransac( a.begin(), a.end(), b.begin(), b.end(), r, ShiftModel(), uo::RansacParameter< double >( th, (size_t)set, (size_t)minIn, (size_t)runs ) );
				size_t tried = g_sets.size() - ( ret ? 1 : 0 ), best = 0; bool modelOk = false, flagsOk = false;
				for( size_t i = 0; i < tried; i++ )
				{
					bool pairs = g_sets[ i ].size() == (size_t)set && g_sets2[ i ].size() == (size_t)set; std::vector< bool > used( n ); for( int q = 0; pairs && q < set; q++ ) { bool f = false; for( int j = 0; j < n && !f; j++ ) if( !used[ j ] && same( PV( 1, a[ j ] ), PV( 1, g_sets[ i ][ q ] ) ) && same( PV( 1, b[ j ] ), PV( 1, g_sets2[ i ][ q ] ) ) ) used[ j ] = f = true; pairs = f; }
					VC_CHECK( pairs, "distinct-pairs", "sample set %s -> %s, draws %s", sp( g_sets[ i ] ).c_str(), sp( g_sets2[ i ] ).c_str(), rng::str().c_str() );
					P2 h; if( !fit2( g_sets[ i ], g_sets2[ i ], h ) ) continue; std::vector< size_t > in = inl2( h, a, b, th ); best = std::max( best, in.size() );
					P2 e; if( ret && in.size() == ret && fit2( take( a, in ), take( b, in ), e ) && std::fabs( e( 0 ) - r( 0 ) ) < 1e-9 && std::fabs( e( 1 ) - r( 1 ) ) < 1e-9 ) { modelOk = true; std::vector< bool > fl( n ); for( size_t q : in ) fl[ q ] = true; flagsOk = flagsOk || fl == flags; }
				}
				common( old ? "list interface" : "two ranges", ret, tried, runs, best, minIn, minRuns );
				if( ret ) { VC_CHECK( modelOk, "model-of-inliers", "result (%g,%g) is not the estimate from the inliers of a best tried model, draws %s", r( 0 ), r( 1 ), rng::str().c_str() ); if( old ) VC_CHECK( flagsOk, "inlier-flags", "flags do not belong to the returned model, draws %s", rng::str().c_str() ); }
				else VC_CHECK( r( 0 ) == 77 && r( 1 ) == 77, "result-on-failure", "failure changed the result" );
			} while( rng::advance() && ++paths != most );
}
static void shift( int n, int runs, int set, int k, bool old )
{
	static const P2 T[ 4 ] = { P2( 1, 0 ), P2( 1.1, 0 ), P2( -2, 3 ), P2( 1, 0.2 ) }; std::vector< int > s( n, 0 );
	while( true )
	{
		PV a, b; for( int i = 0; i < n; i++ ) { a.push_back( P2( i == 2 ? 0 : i, i == 2 ? 0 : 2 * i ) ); b.push_back( a.back() + T[ s[ i ] ] ); }
		for( int minIn = set; minIn <= n; minIn++ ) for( int minRuns = 1; minRuns <= ( old ? runs : 1 ); minRuns++ )
		{
			if( !vc::next( "%sshift %s -> %s, sets of %d, at least %d inliers, %d to %d runs, every draw", old ? "list interface: " : "", sp( a ).c_str(), sp( b ).c_str(), set, minIn, minRuns, runs ) ) continue;
			shiftCase( a, b, n, set, minIn, minRuns, runs, old, 0 );
			VC_OUT( "%d %s %d", old, sp( b ).c_str(), minIn );
		}
		int i = 0; while( i < n && ++s[ i ] == k ) s[ i++ ] = 0; if( i == n ) break;
	}
}
// more data than can be drawn in every way: a part of the draws
static void many( int n )
{
	PV d, a, b; for( int i = 0; i < n; i++ ) { d.push_back( P2( i, i % 4 == 1 ? 3 + i % 5 : 0.0101 * ( i % 3 ) ) ); a.push_back( P2( i, 2 * i + ( i == 2 ) ) ); b.push_back( a.back() + P2( i % 3 == 1 ? -2 - i % 4 : 1, i % 3 == 1 ? 3 : 0 ) ); }
	for( int minIn : { 2, n / 2, n - ( n + 2 ) / 4, n } ) for( int runs : { 1, 3 } ) { if( minIn < 2 ) continue; lineCase< PV >( d, n, minIn, runs, 40 ); shiftCase( a, b, n, 2, minIn, 1, runs, false, 40 ); shiftCase( a, b, n, 3, minIn, 1, runs, false, 40 ); shiftCase( a, b, n, 2, minIn, runs > 1 ? 2 : 1, runs, true, 40 ); }
	VC_OUT( "many %d", n );
}
static void params()
{
	if( !vc::next( "parameters from expected outliers and success probability" ) ) return;
	for( int set = 1; set <= 6; set++ ) for( int n = set; n <= 40; n += 3 ) for( double o : { 0.05, 0.1, 0.25, 0.4, 0.5, 0.75 } ) for( double su : { 0.5, 0.9, 0.99, 0.999 } )
	{
		uo::RansacParameter< double > p( 0.5, (size_t)set, (size_t)n, o, su ); vc::state();
		double need = std::log( 1 - su ) / std::log( 1 - std::pow( 1 - o, set ) ); VC_CHECK( p.setSize == (size_t)set && p.threshold == 0.5, "parameter-copy", "set %d", set );
		VC_CHECK( p.nMaxIterations >= need - 1e-6 && p.nMaxIterations <= need + 1 + 1e-6, "parameter-runs", "%zu runs, %g needed", p.nMaxIterations, need );
		VC_CHECK( p.nMinInlier <= ( 1 - o ) * n + 1e-9 && p.nMinInlier >= ( 1 - o ) * n - 1 - 1e-9, "parameter-inliers", "%zu of %d with %g outliers", p.nMinInlier, n, o );
	}
}
static void refuse()
{
	for( int n = 0; n < 3; n++ ) { if( !vc::next( "list interface with %d data, sets of 3", n ) ) continue; PV a( n, P2( 1, 2 ) ), b( n, P2( 2, 2 ) ); rng::begin(); g_n = n; g_shuffle = false; g_call = 0; g_sets.clear(); g_sets2.clear(); P2 r( 77, 77 ); vc::state(); size_t ret = uo::ransac( r, a, b, 0.1, (size_t)3, (size_t)3, (size_t)1, (size_t)4, OldEst(), OldEval() ); VC_CHECK( ret == 0 && r( 0 ) == 77, "too-few", "returned %zu", ret ); }
}
void body()
{
	bool th = vc::thorough(); static const double A[] = { 0, 1, 2, 0.1, 5 }; params(); refuse(); for( int n : { 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257 } ) if( ( th || n <= 129 ) && vc::next( "%d data, a part of the draws", n ) ) many( n );
	line< PV >( 3, 2, A, 4, 0 ); line< PV >( 4, 2, A, 3, 0 ); line< PV >( 4, 2, A, 3, 1 ); line< std::list< P2 > >( 4, 1, A, 4, 0 ); line< PV >( 4, 3, A, 2, 1 ); line< PV >( 5, 1, A, th ? 4 : 3, 0 ); if( th ) { line< PV >( 4, 3, A, 3, 0 ); line< PV >( 5, 2, A, 3, 1 ); line< std::list< P2 > >( 5, 1, A, 3, 1 ); }
	shift( 3, 3, 1, 4, false ); shift( 4, 2, 1, 4, false ); shift( 4, 2, 2, 3, false ); shift( 4, 3, 2, 2, false ); if( th ) { shift( 4, 3, 2, 3, false ); shift( 5, 2, 2, 3, false ); }
	shift( 3, 3, 1, 4, true ); shift( 4, 3, 2, 3, true ); shift( 4, 3, 3, 3, true ); shift( 5, 2, 2, 3, true ); if( th ) { shift( 5, 3, 2, 3, true ); shift( 5, 2, 3, 3, true ); shift( 4, 4, 2, 3, true ); }
}
VC_MAIN( body() )
