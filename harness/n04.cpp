// N04: k-means and expectation maximisation, for every start and every random draw.
#include "rng.hpp"
#include "ut.hpp"
#include <algorithm>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <numeric>
#include <list>
#include <utMath/Stochastic/k_means.h>
#include <utMath/Stochastic/expectation_maximization.h>
using namespace ut;
namespace um = Ubitrack::Math; namespace us = Ubitrack::Math::Stochastic;
typedef std::vector< double > VD;
static bool inc( std::vector< int >& s, int k ) { for( size_t i = 0; i < s.size(); i++ ) { if( ++s[ i ] < k ) return true; s[ i ] = 0; } return false; }
// non-decreasing sequences (multisets)
static bool incM( std::vector< int >& s, int k ) { for( int i = (int)s.size() - 1; i >= 0; i-- ) if( s[ i ] < k - 1 ) { int v = s[ i ] + 1; for( size_t j = i; j < s.size(); j++ ) s[ j ] = v; return true; } return false; }
static std::string sv( const std::vector< int >& s ) { std::string r; for( int i : s ) r += vc::fmt( "%d", i ); return r; }
static const double PT[ 12 ][ 3 ] = { { 0, 0, 0 }, { 1, 0, 2 }, { 0, 3, 1 }, { 4, 1, -1 }, { 5, 5, 0 }, { -2, 4, 3 }, { 2, -3, 1 }, { 7, 0, 2 }, { 0.5, 0.5, 0.5 }, { 50, -40, 10 }, { -1, -1, -1 }, { 3, 3, 3 } };
template< size_t N, class T > static um::Vector< T, N > pt( int k ) { um::Vector< T, N > v; for( size_t i = 0; i < N; i++ ) v( i ) = (T)PT[ k ][ i ]; return v; }
template< class V > static double d2( const V& a, const V& b ) { double s = 0; for( size_t i = 0; i < a.size(); i++ ) s += ( (double)a( i ) - b( i ) ) * ( (double)a( i ) - b( i ) ); return s; }
template< class VV > static double sse( const VV& x, const VV& c ) { double t = 0; for( auto& p : x ) { double b = 1e300; for( auto& q : c ) b = std::min( b, d2( p, q ) ); t += b; } return t; }
template< class V, class I > static void fixpoint( const std::vector< V >& x, const std::vector< V >& c, const I& idx, double start, const char* what, double tol )
{
	VC_CHECK( idx.size() == x.size(), "assignment-count", "%s: %zu labels for %zu samples", what, idx.size(), x.size() ); if( idx.size() != x.size() ) return;
	for( auto& q : c ) for( size_t i = 0; i < q.size(); i++ ) VC_CHECK( std::isfinite( q( i ) ), "centre-finite", "%s: centre %g", what, (double)q( i ) );
	std::vector< V > sum( c.size(), V::zeros() ); std::vector< int > cnt( c.size(), 0 );
	for( size_t i = 0; i < x.size(); i++ )
	{
		VC_CHECK( (size_t)idx[ i ] < c.size(), "label-range", "%s: label %zu of %zu", what, (size_t)idx[ i ], c.size() ); if( (size_t)idx[ i ] >= c.size() ) return;
		double d = d2( x[ i ], c[ idx[ i ] ] ); for( auto& q : c ) VC_CHECK( d <= d2( x[ i ], q ) + tol, "nearest", "%s: sample %zu has squared distance %g to its centre, %g to another", what, i, d, d2( x[ i ], q ) );
		sum[ idx[ i ] ] += x[ i ]; cnt[ idx[ i ] ]++;
	}
	for( size_t k = 0; k < c.size(); k++ ) if( cnt[ k ] ) { V m = sum[ k ] / cnt[ k ]; VC_CHECK( d2( m, c[ k ] ) < tol, "centre-is-mean", "%s: centre %zu off by %g", what, k, std::sqrt( d2( m, c[ k ] ) ) ); }
	VC_CHECK( sse( x, c ) <= start + tol, "never-worse", "%s: %g after, %g before", what, sse( x, c ), start );
}
template< size_t N, class T > static void kmeans( int n, int K, int np, int nc, int off )
{
	std::vector< int > s( n, 0 );
	do
	{
		if( !vc::next( "k-means with %d clusters of %d-dimensional samples %s from every start", K, (int)N, sv( s ).c_str() ) ) continue;
		std::vector< um::Vector< T, N > > x; for( int i : s ) x.push_back( pt< N, T >( i ) );
		std::vector< int > cs( K, 0 ); double tol = sizeof( T ) == 4 ? 1e-3 : 1e-9;
		do
		{
			std::vector< um::Vector< T, N > > c; for( int i : cs ) c.push_back( pt< N, T >( i + off ) );
			double st = sse( x, c ); vc::state(); vc::step(); std::vector< std::size_t > idx;
			us::k_means( x.begin(), x.end(), c.begin(), c.end(), std::back_inserter( idx ), um::SquaredDistance< um::Vector< T, N > >() );
			fixpoint( x, c, idx, st, vc::fmt( "start %s", sv( cs ).c_str() ).c_str(), tol );
		} while( inc( cs, nc ) );
		VC_OUT( "%s %d", sv( s ).c_str(), K );
	} while( incM( s, np ) );
}
template< size_t N > static void kmeansRandom( int n, int K, int np )
{
	typedef um::Vector< double, N > V; std::vector< int > s( n, 0 );
	do
	{
		if( !vc::next( "k-means with %d clusters of %d-dimensional samples %s under every random draw", K, (int)N, sv( s ).c_str() ) ) continue;
		std::vector< V > x; for( int i : s ) x.push_back( pt< N, double >( i ) ); std::vector< int > u( s ); std::sort( u.begin(), u.end() ); size_t distinct = std::unique( u.begin(), u.end() ) - u.begin();
		rng::P().levels = n; rng::P().extremes = true; rng::begin();
		do
		{
			rng::restart(); vc::state(); vc::step(); std::vector< V > c; std::vector< std::size_t > idx;
			us::k_means( x.begin(), x.end(), (std::size_t)K, std::back_inserter( c ), std::back_inserter( idx ) );
			VC_CHECK( !c.empty() && c.size() <= (size_t)K && c.size() >= std::min( (size_t)K, distinct ), "centre-count", "%zu centres, draws %s", c.size(), rng::str().c_str() );
			fixpoint( x, c, idx, 1e300, vc::fmt( "draws %s", rng::str().c_str() ).c_str(), 1e-9 );
		} while( rng::advance() );
		rng::P().extremes = false; rng::P().levels = 2 * n; rng::begin();
		do
		{
			rng::restart(); vc::step(); std::vector< V > c( K ); size_t k = us::copy_probability( x.begin(), x.end(), (std::size_t)K, c.begin(), um::Distance< V >() );
			VC_CHECK( k == std::min( (size_t)K, distinct ), "seed-count", "%zu initial centres, draws %s", k, rng::str().c_str() );
			for( size_t i = 0; i < k; i++ ) { bool in = false; for( auto& p : x ) in = in || d2( p, c[ i ] ) == 0; VC_CHECK( in, "seed-sample", "initial centre %zu is no sample", i ); for( size_t j = 0; j < i; j++ ) VC_CHECK( d2( c[ i ], c[ j ] ) > 0, "seed-distinct", "initial centres %zu and %zu coincide, draws %s", i, j, rng::str().c_str() ); }
		} while( rng::advance() );
		std::vector< V > g; us::copy_greedy( x.begin(), x.end(), (std::size_t)K, std::back_inserter( g ) ); VC_CHECK( g.size() == (size_t)K, "greedy-count", "%zu", g.size() );
		for( size_t i = 0; i < g.size(); i++ ) VC_CHECK( d2( g[ i ], x[ i ] ) == 0, "greedy", "element %zu", i );
		VC_OUT( "r %s %d", sv( s ).c_str(), K );
	} while( incM( s, np ) );
}
// reference mixtures
struct G { double w; VD m; D C; };
struct Dens
{
	double i[ 3 ][ 3 ], c; size_t n; const G* g; bool ok;
	Dens( const G& h ) : n( h.m.size() ), g( &h ) { D v; double det = 0; ok = inv( h.C, v, &det ) && std::fabs( det ) >= 1e-6; if( ok ) { for( size_t a = 0; a < n; a++ ) for( size_t b = 0; b < n; b++ ) i[ a ][ b ] = v( a, b ); c = 1 / std::sqrt( std::pow( 2 * M_PI, (double)n ) * std::fabs( det ) ); } }
	double operator()( const VD& x ) const { double q = 0; for( size_t a = 0; a < n; a++ ) for( size_t b = 0; b < n; b++ ) q += ( x[ a ] - g->m[ a ] ) * i[ a ][ b ] * ( x[ b ] - g->m[ b ] ); return c * std::exp( -q / 2 ); }
};
static double ll( const std::vector< G >& g, const std::vector< VD >& x, bool& ok ) { double t = 0; std::vector< Dens > d; for( auto& q : g ) { d.push_back( Dens( q ) ); if( !d.back().ok ) { ok = false; return 0; } } for( auto& p : x ) { double s = 0; for( size_t k = 0; k < g.size(); k++ ) s += g[ k ].w * d[ k ]( p ); t += std::log( s ); } return t / x.size(); }
static bool emStep( std::vector< G >& g, const std::vector< VD >& x )
{
	size_t n = x.size(), d = x[ 0 ].size(); std::vector< VD > r( g.size(), VD( n ) ); VD tot( n, 0 );
	for( size_t k = 0; k < g.size(); k++ ) { Dens f( g[ k ] ); if( !f.ok ) return false; for( size_t i = 0; i < n; i++ ) tot[ i ] += r[ k ][ i ] = g[ k ].w * f( x[ i ] ); }
	for( size_t i = 0; i < n; i++ ) { if( !( tot[ i ] > 1e-200 ) ) return false; for( size_t k = 0; k < g.size(); k++ ) r[ k ][ i ] /= tot[ i ]; }
	for( size_t k = 0; k < g.size(); k++ )
	{
		double t = 0; for( double v : r[ k ] ) t += v; if( t < 1e-6 ) return false; g[ k ].w = t / n; g[ k ].m.assign( d, 0 ); g[ k ].C = D( d, d );
		for( size_t i = 0; i < n; i++ ) for( size_t a = 0; a < d; a++ ) g[ k ].m[ a ] += r[ k ][ i ] / t * x[ i ][ a ];
		for( size_t i = 0; i < n; i++ ) for( size_t a = 0; a < d; a++ ) for( size_t b = 0; b < d; b++ ) g[ k ].C( a, b ) += r[ k ][ i ] / t * ( x[ i ][ a ] - g[ k ].m[ a ] ) * ( x[ i ][ b ] - g[ k ].m[ b ] );
	}
	return true;
}
template< size_t N > static void em( int n, int K, int np, int nc )
{
	typedef us::Weighted< us::Gaussian< double, N >, double > W; std::vector< int > s( n, 0 );
	do
	{
		if( !vc::next( "mixture of %d over %d-dimensional samples %s", K, (int)N, sv( s ).c_str() ) ) continue;
		std::vector< um::Vector< double, N > > x; std::vector< VD > xr; for( int i : s ) { x.push_back( pt< N, double >( i ) ); xr.push_back( VD( PT[ i ], PT[ i ] + N ) ); }
		std::vector< int > cs( K, 0 );
		do for( int sh = 0; sh < 3; sh++ ) for( int wt = 0; wt < 3; wt++ )
		{
			std::vector< G > g; std::vector< W > u;
			double tw = 0; for( int k = 0; k < K; k++ ) tw += 1 + wt * k * 1.5;
			for( int k = 0; k < K; k++ )
			{
				G a; a.w = ( 1 + wt * k * 1.5 ) / tw; a.m.assign( PT[ cs[ k ] ], PT[ cs[ k ] ] + N ); a.C = D( N, N ); for( size_t i = 0; i < N; i++ ) { a.C( i, i ) = ( sh + 1 ) * 4 + i * 2; if( sh ) for( size_t j = 0; j < i; j++ ) a.C( i, j ) = a.C( j, i ) = ( k % 2 ? -1 : 1 ) * 1.5; }
				W w; w.weight = a.w; w.variance = w.standardDeviation = 0; for( size_t i = 0; i < N; i++ ) { w.mean[ i ] = a.m[ i ]; for( size_t j = 0; j < N; j++ ) w.covariance[ i * N + j ] = a.C( i, j ); } g.push_back( a ); u.push_back( w );
			}
			bool ok = true; double l0 = ll( g, xr, ok ), lu = us::log_likelihood< double >( u.begin(), u.end(), x.begin(), x.end() ); vc::state(); vc::step();
			VC_NEAR( lu, l0, 1e-5 * ( 1 + std::fabs( l0 ) ), "log-likelihood", "start %s", sv( cs ).c_str() );
			// iterates of the reference; outside once a component collapses
			std::vector< std::vector< G > > it( 1, g ); VD L( 1, l0 ); for( int i = 0; i < 101 && ok; i++ ) { std::vector< G > h = it.back(); if( !emStep( h, xr ) ) { ok = false; break; } L.push_back( ll( h, xr, ok ) ); it.push_back( h ); if( std::fabs( L[ i + 1 ] - L[ i ] ) < 0.2e-5 * std::fabs( L[ i ] ) && i > 3 && std::fabs( L[ i + 1 ] - L[ i - 1 ] ) < 0.3e-5 * std::fabs( L[ i ] ) ) break; }
			if( !ok ) continue;
			std::vector< W > start = u;
			double lr = us::expectation_maximization( x.begin(), x.end(), u.begin(), u.end() ); vc::step();
			double sw = 0; for( auto& w : u ) sw += w.weight; VC_NEAR( sw, 1.0, 1e-9, "weights-sum", "start %s shape %d", sv( cs ).c_str(), sh );
			std::vector< G > r; for( auto& w : u ) { G a; a.w = w.weight; a.m.assign( w.mean, w.mean + N ); a.C = D( N, N ); for( size_t i = 0; i < N; i++ ) for( size_t j = 0; j < N; j++ ) a.C( i, j ) = w.covariance[ i * N + j ]; r.push_back( a ); VC_CHECK( w.weight >= 0 && w.weight <= 1 + 1e-12, "weight-range", "%g", w.weight ); }
			bool fin = true; double l1 = ll( r, xr, fin ); if( !fin ) continue;
			VC_CHECK( l1 >= l0 - 1e-9 * ( 1 + std::fabs( l0 ) ), "likelihood-decreased", "start %s shape %d weights %d: from %g to %g", sv( cs ).c_str(), sh, wt, l0, l1 );
			VC_NEAR( lr, l1, 1e-5 * ( 1 + std::fabs( l1 ) ), "reported-likelihood", "start %s shape %d", sv( cs ).c_str(), sh );
			// the result is an iterate of expectation maximisation at which progress has become small
			int hit = -1; for( size_t i = 0; i < it.size(); i++ ) { double e = 0; for( int k = 0; k < K; k++ ) { e = std::max( e, std::fabs( it[ i ][ k ].w - r[ k ].w ) ); for( size_t a = 0; a < N; a++ ) e = std::max( e, std::fabs( it[ i ][ k ].m[ a ] - r[ k ].m[ a ] ) ); e = std::max( e, maxDiff( it[ i ][ k ].C, r[ k ].C ) ); } if( e < 1e-5 ) hit = (int)i; }
			VC_CHECK( hit >= 1, "not-an-iterate", "start %s shape %d weights %d: final mixture (mean %g, weight %g) is no iterate", sv( cs ).c_str(), sh, wt, r[ 0 ].m[ 0 ], r[ 0 ].w );
			if( hit >= 1 ) VC_CHECK( hit >= 99 || L[ hit ] - L[ hit - 1 ] < 2e-4 * ( std::fabs( L[ hit ] ) + 0.01 ), "stopped-early", "start %s shape %d: last gain %g at %g", sv( cs ).c_str(), sh, L[ hit ] - L[ hit - 1 ], L[ hit ] );
			// the same samples in other units (powers of two): the iterates are the same, only the number of them may differ
			if( sh == 0 ) for( int e2 : { -10, -30, 12 } )
			{
				double f = ldexp( 1.0, e2 ); std::vector< um::Vector< double, N > > xs = x; for( auto& p : xs ) p *= f; std::vector< W > q = start; vc::step();
				for( auto& w : q ) { for( size_t i = 0; i < N; i++ ) w.mean[ i ] *= f; for( size_t i = 0; i < N * N; i++ ) w.covariance[ i ] *= f * f; }
				double lq = us::expectation_maximization( xs.begin(), xs.end(), q.begin(), q.end() ), sq = 0; for( auto& w : q ) sq += w.weight;
				VC_NEAR( sq, 1.0, 1e-9, "weights-sum-units", "start %s, unit 2^%d", sv( cs ).c_str(), e2 );
				double best = 1e9; size_t at = 0; for( size_t i = 1; i < it.size(); i++ ) { double e = 0; for( int k = 0; k < K; k++ ) { e = std::max( e, std::fabs( it[ i ][ k ].w - q[ k ].weight ) ); for( size_t a = 0; a < N; a++ ) e = std::max( e, std::fabs( it[ i ][ k ].m[ a ] - q[ k ].mean[ a ] / f ) ); for( size_t a = 0; a < N * N; a++ ) e = std::max( e, std::fabs( it[ i ][ k ].C( a / N, a % N ) - q[ k ].covariance[ a ] / f / f ) ); } if( e < best ) best = e, at = i; }
				VC_CHECK( best < 1e-4, "not-an-iterate-units", "start %s weights %d unit 2^%d: differs by %g from every iterate", sv( cs ).c_str(), wt, e2, best );
				VC_NEAR( lq + N * std::log( f ), L[ at ], 1e-3 * ( 1 + std::fabs( L[ at ] ) ), "reported-likelihood-units", "start %s unit 2^%d", sv( cs ).c_str(), e2 );
			}
		} while( inc( cs, nc ) );
		VC_OUT( "em %s", sv( s ).c_str() );
	} while( incM( s, np ) );
}
// every number of samples, in up to 9 clusters, from starts spread over the samples
template< class T > static void manySamples( size_t n, double tol )
{
	typedef um::Vector< T, 3 > V; std::vector< V > x; for( size_t i = 0; i < n; i++ ) { V3 p = ut::spreadPoint( i ); V v; for( int k = 0; k < 3; k++ ) v( k ) = (T)( p[ k ] + 3 * (int)( i % 4 ) * ( k == (int)( i % 3 ) ) ); x.push_back( v ); }
	for( size_t K = 1; K <= std::min< size_t >( n, 9 ); K++ ) for( int st = 0; st < 3; st++ )
	{
		std::vector< V > c; for( size_t k = 0; k < K; k++ ) c.push_back( x[ ( st == 0 ? k : st == 1 ? k * n / K : n - 1 - k ) % n ] ); double s0 = sse( x, c ); std::vector< std::size_t > idx; us::k_means( x.begin(), x.end(), c.begin(), c.end(), std::back_inserter( idx ), um::SquaredDistance< V >() ); vc::state(); vc::step( n ); fixpoint( x, c, idx, s0, vc::fmt( "%zu samples, %zu clusters, start %d", n, K, st ).c_str(), tol );
		if( st ) continue; rng::begin(); rng::P().levels = 2; rng::P().extremes = false; rng::restart(); std::vector< V > rc; std::vector< std::size_t > ri; us::k_means( x.begin(), x.end(), K, std::back_inserter( rc ), std::back_inserter( ri ) ); VC_CHECK( rc.size() == K, "centre-count", "%zu of %zu centres for %zu samples", rc.size(), K, n ); fixpoint( x, rc, ri, 1e300, vc::fmt( "%zu samples, %zu clusters", n, K ).c_str(), tol );
	}
	VC_OUT( "many %zu", n );
}
void body()
{
	bool th = vc::thorough(); std::cout.rdbuf( 0 );
	for( size_t n : ut::sizes( 1, 130, th ? 2050 : 520 ) ) if( vc::next( "%zu samples spread out", n ) ) { manySamples< double >( n, n > 520 ? 1e-3 : 1e-9 ); /* with very many samples one sample moves a centre by less than the stopping tolerance */ manySamples< float >( n, 1e-3 ); }
	kmeans< 2, double >( 3, 2, 8, 12, 0 ); kmeans< 2, double >( 4, 2, 8, 12, 0 ); kmeans< 2, double >( 5, 3, th ? 7 : 6, 10, 2 ); kmeans< 2, double >( 4, 1, 6, 12, 0 ); kmeans< 3, double >( 4, 3, 7, 12, 0 ); kmeans< 2, double >( 6, 2, 6, 12, 0 );
	kmeans< 2, float >( 4, 2, 6, 12, 0 ); if( th ) { kmeans< 3, double >( 6, 3, 7, 12, 0 ); kmeans< 2, double >( 6, 4, 6, 9, 0 ); }
	kmeansRandom< 2 >( 2, 1, 6 ); kmeansRandom< 2 >( 4, 2, 7 ); kmeansRandom< 3 >( 4, 3, 7 ); kmeansRandom< 2 >( 5, 3, 6 ); if( th ) { kmeansRandom< 2 >( 6, 3, 7 ); kmeansRandom< 3 >( 6, 4, 6 ); }
	em< 2 >( 5, 2, 6, 6 ); em< 2 >( 6, 1, 6, 6 ); em< 3 >( 6, 2, 6, 5 ); if( th ) { em< 2 >( 7, 2, 7, 7 ); em< 2 >( 8, 3, 6, 5 ); em< 3 >( 8, 2, 6, 5 ); }
}
VC_MAIN( body() )
