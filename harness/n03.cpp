// N03: averages, Gaussians, Mahalanobis distances and correlations summarise exactly their samples.
#include "ut.hpp"
#include <algorithm>
#include <iomanip>
#include <iostream>
#include <list>
#include <cmath>
#include <utMath/Scalar.h>
#include <utMath/ErrorVector.h>
#include <utMath/ErrorPose.h>
#include <utMath/Stochastic/Average.h>
#include <utMath/Stochastic/Gaussian.h>
#include <utMath/Stochastic/MahalanobisDistance.h>
#include <utMath/Stochastic/Correlation.h>
#include <utAlgorithm/Correlation.h>
using namespace ut;
namespace um = Ubitrack::Math; namespace us = Ubitrack::Math::Stochastic;
typedef std::vector< double > VD;
static std::string ds( const D& d ) { std::string r = "["; for( size_t i = 0; i < d.r; i++ ) { for( size_t j = 0; j < d.c; j++ ) r += vc::fmt( "%g ", d( i, j ) ); r += ";"; } return r + "]"; }
// all multisets-with-order: sequences of length n over k symbols
static bool inc( std::vector< int >& s, int k ) { for( size_t i = 0; i < s.size(); i++ ) { if( ++s[ i ] < k ) return true; s[ i ] = 0; } return false; }
static std::string sv( const std::vector< int >& s ) { std::string r; for( int i : s ) r += vc::fmt( "%d", i ); return r; }
static const double A[] = { 0, 1, -2, 0.5, 3, -7.25, 1000 };
static const int NA = 7;

static void scalars( int maxN )
{
	for( int n = 1; n <= maxN; n++ )
	{
		std::vector< int > s( n, 0 );
		do
		{
			if( !vc::next( "average of scalars, symbols %s", sv( s ).c_str() ) ) continue;
			double m = 0; for( int i : s ) m += A[ i ]; m /= n; vc::state(); vc::step( n );
			us::Average< double > a; for( int i : s ) a( A[ i ] );
			VC_NEAR( a.getAverage(), m, 1e-12 * ( 1 + std::fabs( m ) ), "scalar-mean", "double" );
			us::Average< double > one; for( int i : s ) { one( A[ i ] ); one.getAverage(); }
			VC_NEAR( one.getAverage(), m, 1e-12 * ( 1 + std::fabs( m ) ), "scalar-online", "asking in between changed the average" );
			us::Average< float > f; for( int i : s ) f( (float)A[ i ] );
			VC_NEAR( f.getAverage(), m, 1e-5 * ( 1 + std::fabs( m ) ) * 100, "scalar-float", "float" );
			us::Average< um::Scalar< double > > sc; for( int i : s ) sc( um::Scalar< double >( A[ i ] ) );
			VC_NEAR( (double)sc.getAverage(), m, 1e-12 * ( 1 + std::fabs( m ) ), "scalar-type", "Scalar" );
			std::list< double > l; for( int i : s ) l.push_back( A[ i ] );
			VC_NEAR( std::for_each( l.begin(), l.end(), us::Average< double >() ).getAverage(), m, 1e-12 * ( 1 + std::fabs( m ) ), "scalar-foreach", "for_each" );
			VC_OUT( "%.6g", m );
		} while( inc( s, NA ) );
	}
}
// Reference mean and population covariance
template< size_t N > static void ref( const std::vector< VD >& x, const VD& w, VD& m, D& C )
{
	m.assign( N, 0 ); C = D( N, N ); for( size_t k = 0; k < x.size(); k++ ) for( size_t i = 0; i < N; i++ ) m[ i ] += w[ k ] * x[ k ][ i ];
	for( size_t k = 0; k < x.size(); k++ ) for( size_t i = 0; i < N; i++ ) for( size_t j = 0; j < N; j++ ) C( i, j ) += w[ k ] * ( x[ k ][ i ] - m[ i ] ) * ( x[ k ][ j ] - m[ j ] );
}
template< size_t N > static VD sym( int k ) { VD v( N ); for( size_t i = 0; i < N; i++ ) v[ i ] = A[ ( k * ( 2 * i + 1 ) + i * i ) % 6 ] + 0.25 * ( ( k * k + i ) % 5 ); return v; }
template< size_t N > static um::Vector< double, N > uv( const VD& x ) { um::Vector< double, N > v; for( size_t i = 0; i < N; i++ ) v( i ) = x[ i ]; return v; }
static double tl( const D& d ) { return 1e-10 * ( 1 + maxAbs( d ) ); }
template< size_t N > static void cmpG( const us::Gaussian< double, N >& g, const VD& m, const D& C, const char* what )
{
	double tr = 0;
	for( size_t i = 0; i < N; i++ )
	{
		VC_NEAR( g.mean[ i ], m[ i ], 1e-10 * ( 1 + std::fabs( m[ i ] ) ), "gauss-mean", "%s", what ); tr += C( i, i );
		for( size_t j = 0; j < N; j++ ) VC_NEAR( g.covariance[ i * N + j ], C( i, j ), tl( C ), "gauss-cov", "%s entry %d %d", what, (int)i, (int)j );
	}
	VC_NEAR( g.variance, tr, tl( C ) * N, "gauss-variance", "%s", what ); VC_NEAR( g.standardDeviation, std::sqrt( tr ), 1e-9 * ( 1 + std::sqrt( tr ) ), "gauss-stddev", "%s", what );
}
template< size_t N > static void vectors( int maxN, int K )
{
	for( int n = 1; n <= maxN; n++ )
	{
		std::vector< int > s( n, 0 );
		do
		{
			if( !vc::next( "samples of %d-vectors, symbols %s", (int)N, sv( s ).c_str() ) ) continue;
			std::vector< VD > x; std::vector< um::Vector< double, N > > u; for( int i : s ) { x.push_back( sym< N >( i ) ); u.push_back( uv< N >( x.back() ) ); }
			VD m, w( n, 1.0 / n ); D C; ref< N >( x, w, m, C ); vc::state(); vc::step( n );
			us::Average< um::Vector< double, N > > a; for( auto& e : u ) a( e );
			auto r = a.getAverage(); for( size_t i = 0; i < N; i++ ) VC_NEAR( r( i ), m[ i ], 1e-10 * ( 1 + std::fabs( m[ i ] ) ), "vector-mean", "component %d", (int)i );
			us::Average< um::ErrorVector< double, N > > e; for( auto& v : u ) e( v );
			auto er = e.getAverage(); for( size_t i = 0; i < N; i++ ) VC_NEAR( er.value( i ), m[ i ], 1e-10 * ( 1 + std::fabs( m[ i ] ) ), "errorvector-mean", "component %d", (int)i );
			VC_CHECK( maxDiff( dense( er.covariance ), C ) < 1e-9 * ( 1 + maxAbs( C ) ) * 10, "errorvector-covariance", "%s", ds( dense( er.covariance ) ).c_str() );
			us::Gaussian< double, N > g; VC_CHECK( us::estimate_gaussian( u.begin(), u.end(), g ), "gauss-ok", "refused %d samples", n ); cmpG< N >( g, m, C, "unweighted" );
			// all weightings from three unnormalised levels
			if( n <= 3 )
			{
				std::vector< int > ws( n, 0 );
				do
				{
					VD ww; double t = 0; for( int i : ws ) { ww.push_back( i == 0 ? 0 : i == 1 ? 1 : i == 2 ? 2.5 : 0.002 ); t += ww.back(); } if( t == 0 ) continue; for( double& q : ww ) q /= t;
					VD wm; D wC; ref< N >( x, ww, wm, wC ); us::Gaussian< double, N > gw; VC_CHECK( us::estimate_gaussian( u.begin(), u.end(), ww.begin(), gw ), "gaussw-ok", "refused" ); cmpG< N >( gw, wm, wC, "weighted" ); vc::step();
				} while( inc( ws, 4 ) );
			}
			// every labelling of the samples with two labels, estimating each label
			for( int mask = 0; mask < ( 1 << n ); mask++ ) for( int lab = 0; lab < 2; lab++ )
			{
				std::vector< VD > xs; std::vector< std::size_t > idx; for( int i = 0; i < n; i++ ) { idx.push_back( ( mask >> i ) & 1 ); if( idx.back() == (size_t)lab ) xs.push_back( x[ i ] ); }
				if( xs.empty() ) continue; VD lm; D lC; ref< N >( xs, VD( xs.size(), 1.0 / xs.size() ), lm, lC );
				us::Gaussian< double, N > gi; VC_CHECK( us::estimate_gaussian_index( u.begin(), u.end(), idx.begin(), (size_t)lab, gi ), "gaussi-ok", "refused" ); cmpG< N >( gi, lm, lC, "labelled" ); vc::step();
			}
			// Mahalanobis distances of every symbol
			VD ev = eigSym( C ); double lo = *std::min_element( ev.begin(), ev.end() ), hi = *std::max_element( ev.begin(), ev.end() );
			if( lo > 1e-6 * ( 1 + hi ) )
			{
				D Ci; inv( C, Ci ); us::MahalanobisDistance< us::Gaussian< double, N > > md( g );
				for( int k = 0; k < 6; k++ )
				{
					VD p = sym< N >( k ); double q = 0; for( size_t i = 0; i < N; i++ ) for( size_t j = 0; j < N; j++ ) q += ( p[ i ] - m[ i ] ) * Ci( i, j ) * ( p[ j ] - m[ j ] );
					VC_NEAR( md( uv< N >( p ) ), std::sqrt( q ), 1e-6 * ( 1 + std::sqrt( q ) ), "mahalanobis", "point %d", k ); vc::step();
				}
				double t = 0; for( auto& q : u ) { double d = md( q ); t += d * d; }
				VC_NEAR( t / n, (double)N, 1e-5, "mahalanobis-trace", "mean squared distance of the samples themselves" );
			}
			else if( maxAbs( C ) == 0 )
			{
				bool thrown = false; try { us::MahalanobisDistance< us::Gaussian< double, N > > md( g ); } catch( ... ) { thrown = true; }
				VC_CHECK( thrown, "mahalanobis-singular", "zero covariance accepted" );
			}
			VC_OUT( "%d %.5g %.5g", (int)N, m[ 0 ], maxAbs( C ) );
		} while( inc( s, K ) );
	}
	if( vc::next( "Gaussian of no samples, dimension %d", (int)N ) ) { std::vector< um::Vector< double, N > > u; us::Gaussian< double, N > g; VC_CHECK( !us::estimate_gaussian( u.begin(), u.end(), g ), "gauss-empty", "accepted" ); VC_CHECK( !us::estimate_gaussian( u.begin(), u.end(), VD().begin(), g ), "gaussw-empty", "accepted" ); vc::state(); }
}
struct Q4 { double v[ 4 ]; };
static Q4 q4( const Q& q ) { Q4 r = { { q.x(), q.y(), q.z(), q.w() } }; return r; }
static void rotations( int lvl, int n )
{
	std::vector< Rot > base = rotLattice( lvl );
	static const double pert[][ 3 ] = { { 0, 0, 0 }, { 0.2, 0, 0 }, { -0.2, 0, 0 }, { 0, 0.3, 0 }, { 0, 0, -0.25 }, { 0.1, -0.2, 0.15 }, { 1e-3, 0, 0 } }; const int P = 7;
	for( size_t b = 0; b < base.size(); b++ )
	{
		std::vector< int > s( n, 0 );
		if( !vc::next( "rotations and poses scattered around %s", str( base[ b ] ).c_str() ) ) continue;
		do
		{
			Q mid = qOf( base[ b ] ); std::vector< Q > qs; std::vector< um::Pose > ps; std::vector< VD > ts;
			for( int i = 0; i < n; i++ )
			{
				const double* p = pert[ s[ i ] ]; double a = std::sqrt( p[ 0 ] * p[ 0 ] + p[ 1 ] * p[ 1 ] + p[ 2 ] * p[ 2 ] );
				Q d( 0, 0, 0, 1 ); if( a > 0 ) { double f = std::sin( a / 2 ) / a; d = Q( p[ 0 ] * f, p[ 1 ] * f, p[ 2 ] * f, std::cos( a / 2 ) ); }
				qs.push_back( mid * d ); VD t = sym< 3 >( s[ i ] + i ); ts.push_back( t ); ps.push_back( um::Pose( qs.back(), uv< 3 >( t ) ) );
			}
			// reference: mean of the quaternions aligned to the middle, normalised
			double m[ 4 ] = { 0, 0, 0, 0 }, nn = 0; Q4 c = q4( mid ); VD tm( 3, 0 );
			for( int i = 0; i < n; i++ ) { Q4 e = q4( qs[ i ] ); double d = 0; for( int k = 0; k < 4; k++ ) d += e.v[ k ] * c.v[ k ]; for( int k = 0; k < 4; k++ ) m[ k ] += ( d < 0 ? -1 : 1 ) * e.v[ k ]; for( int k = 0; k < 3; k++ ) tm[ k ] += ts[ i ][ k ] / n; }
			for( int k = 0; k < 4; k++ ) nn += m[ k ] * m[ k ]; nn = std::sqrt( nn ); Q er( m[ 0 ] / nn, m[ 1 ] / nn, m[ 2 ] / nn, m[ 3 ] / nn );
			// reference covariance of ( t, imaginary part of ~mean * sample )
			D C( 6, 6 ); for( int i = 0; i < n; i++ )
			{
				Q r = ~er * qs[ i ]; double sg = r.w() < 0 ? -1 : 1; double v[ 6 ] = { ts[ i ][ 0 ] - tm[ 0 ], ts[ i ][ 1 ] - tm[ 1 ], ts[ i ][ 2 ] - tm[ 2 ], sg * r.x(), sg * r.y(), sg * r.z() };
				for( int j = 0; j < 6; j++ ) for( int k = 0; k < 6; k++ ) C( j, k ) += v[ j ] * v[ k ] / n;
			}
			// every choice of signs
			for( int mask = 0; mask < ( 1 << n ); mask++ )
			{
				us::Average< Q > aq; us::Average< um::Pose > ap; us::Average< um::ErrorPose > ae; vc::state(); vc::step( n );
				for( int i = 0; i < n; i++ ) { Q q = qs[ i ]; if( mask >> i & 1 ) q = Q( -q.x(), -q.y(), -q.z(), -q.w() ); aq( q ); um::Pose p( q, uv< 3 >( ts[ i ] ) ); ap( p ); ae( p ); }
				Q r = aq.getAverage(); double d = std::fabs( r.x() * er.x() + r.y() * er.y() + r.z() * er.z() + r.w() * er.w() );
				VC_CHECK( std::fabs( d - 1 ) < 1e-9, "rotation-mean", "samples %s signs %d give (%g %g %g %g), expected (%g %g %g %g)", sv( s ).c_str(), mask, r.x(), r.y(), r.z(), r.w(), er.x(), er.y(), er.z(), er.w() );
				VC_NEAR( std::sqrt( r.x() * r.x() + r.y() * r.y() + r.z() * r.z() + r.w() * r.w() ), 1.0, 1e-12, "rotation-unit", "mean is not a unit quaternion" );
				um::Pose pr = ap.getAverage(); const Q& p = pr.rotation(); d = std::fabs( p.x() * er.x() + p.y() * er.y() + p.z() * er.z() + p.w() * er.w() );
				VC_CHECK( std::fabs( d - 1 ) < 1e-9, "pose-mean-rotation", "samples %s signs %d", sv( s ).c_str(), mask );
				for( int k = 0; k < 3; k++ ) VC_NEAR( pr.translation()( k ), tm[ k ], 1e-10 * ( 1 + std::fabs( tm[ k ] ) ), "pose-mean-translation", "samples %s", sv( s ).c_str() );
				um::ErrorPose e = ae.getAverage(); VC_CHECK( poseDist( e, matOf( pr.rotation() ), fromU( pr.translation() ) ) < 1e-9, "errorpose-mean", "samples %s signs %d", sv( s ).c_str(), mask );
				VC_CHECK( maxDiff( dense( e.covariance() ), C ) < 1e-9 * ( 1 + maxAbs( C ) ) * 10, "errorpose-covariance", "samples %s signs %d: %s", sv( s ).c_str(), mask, ds( dense( e.covariance() ) ).c_str() );
			}
		} while( inc( s, P ) );
		VC_OUT( "rot %zu", b );
	}
}
static double corr( const VD& a, const VD& b )
{ size_t n = std::min( a.size(), b.size() ); double m1 = 0, m2 = 0, x = 0, y = 0, z = 0; for( size_t i = 0; i < n; i++ ) { m1 += a[ i ] / n; m2 += b[ i ] / n; } for( size_t i = 0; i < n; i++ ) { x += ( a[ i ] - m1 ) * ( b[ i ] - m2 ); y += ( a[ i ] - m1 ) * ( a[ i ] - m1 ); z += ( b[ i ] - m2 ) * ( b[ i ] - m2 ); } return x / std::sqrt( y ) / std::sqrt( z ); }
static void correlations( int maxN, int K )
{
	if( vc::next( "correlation of two empty sequences" ) ) { VC_CHECK( Ubitrack::Algorithm::computeCorrelation( VD(), VD() ) == 1, "corr-empty", "not 1" ); vc::state(); }
	for( int n = 2; n <= maxN; n++ ) for( int n2 = 2; n2 <= maxN; n2++ )
	{
		std::vector< int > s( n, 0 );
		do
		{
			VD a; for( int i : s ) a.push_back( A[ i ] );
			if( !vc::next( "correlation of %s with every sequence of length %d", sv( s ).c_str(), n2 ) ) continue;
			std::vector< int > t( n2, 0 );
			do
			{
				VD b; for( int i : t ) b.push_back( A[ i ] ); size_t k = std::min( n, n2 ); bool c1 = true, c2 = true; for( size_t i = 1; i < k; i++ ) { c1 = c1 && s[ i ] == s[ 0 ]; c2 = c2 && t[ i ] == t[ 0 ]; }
				if( c1 || c2 ) continue;
				double e = corr( a, b ), r = Ubitrack::Algorithm::computeCorrelation( a, b ); vc::state(); vc::step();
				VC_NEAR( r, e, 1e-9, "correlation", "with %s", sv( t ).c_str() ); VC_CHECK( r <= 1 + 1e-9 && r >= -1 - 1e-9, "corr-range", "%g", r );
				std::list< double > la( a.begin(), a.end() ), lb( b.begin(), b.end() ); VC_NEAR( us::correlation( la.begin(), la.end(), lb.begin(), lb.end() ), e, 1e-9, "corr-list", "with %s", sv( t ).c_str() );
				VC_NEAR( Ubitrack::Algorithm::computeCorrelation( b, a ), e, 1e-9, "corr-symmetric", "with %s", sv( t ).c_str() );
			} while( inc( t, K ) );
			VC_OUT( "corr %s", sv( s ).c_str() );
		} while( inc( s, K ) );
	}
}
// long sequences: every length, and lengths around powers of two
static void many( size_t n )
{
	us::Average< double > a; us::Average< um::Scalar< double > > as; us::Average< um::Vector< double, 3 > > av; us::Average< um::ErrorVector< double, 3 > > ae; us::Average< Q > aq; us::Average< um::Pose > ap; us::Average< um::ErrorPose > aep; std::vector< um::Vector< double, 3 > > u; std::vector< std::size_t > lab; VD w; std::vector< VD > x, odd; VD c1, c2; double m = 0, qm[ 4 ] = { 0, 0, 0, 0 }; std::vector< Q > qs;
	for( size_t i = 0; i < n; i++ )
	{
		V3 p = spreadPoint( i ), p2 = spreadPoint( i + 3 ); VD t = { 3 + p[ 0 ] + 0.001 * i, -p[ 1 ], 2 * p[ 2 ] + p[ 0 ] }; x.push_back( t ); if( i % 3 == 1 ) odd.push_back( t ); lab.push_back( i % 3 ); w.push_back( 1 + i % 4 ); a( t[ 0 ] ); as( um::Scalar< double >( t[ 0 ] ) ); m += t[ 0 ]; av( uv< 3 >( t ) ); ae( uv< 3 >( t ) ); u.push_back( uv< 3 >( t ) ); c1.push_back( t[ 0 ] ); c2.push_back( t[ 2 ] - 0.3 * t[ 0 ] );
		M3 R = mul( rodrigues( v3( 1, 2, -0.5 ), 1.9 ), rodrigues( p2, 0.3 ) ); Q q( um3( R ) ), q0( um3( rodrigues( v3( 1, 2, -0.5 ), 1.9 ) ) ); double d = q.x() * q0.x() + q.y() * q0.y() + q.z() * q0.z() + q.w() * q0.w(); double sg = d < 0 ? -1 : 1; qm[ 0 ] += sg * q.x(); qm[ 1 ] += sg * q.y(); qm[ 2 ] += sg * q.z(); qm[ 3 ] += sg * q.w(); if( i % 5 < 2 ) q = Q( -q.x(), -q.y(), -q.z(), -q.w() ); qs.push_back( q ); aq( q ); ap( um::Pose( q, uv< 3 >( t ) ) ); aep( um::Pose( q, uv< 3 >( t ) ) );
	}
	vc::state(); vc::step( n ); VC_NEAR( a.getAverage(), m / n, 1e-9, "many-scalar", "" ); VC_NEAR( (double)as.getAverage(), m / n, 1e-9, "many-scalar-type", "" ); VD rm; D C; ref< 3 >( x, VD( n, 1.0 / n ), rm, C ); auto v = av.getAverage(); auto e = ae.getAverage(); for( int k = 0; k < 3; k++ ) { VC_NEAR( v( k ), rm[ k ], 1e-9, "many-vector", "component %d", k ); VC_NEAR( e.value( k ), rm[ k ], 1e-9, "many-errorvector", "component %d", k ); } VC_CHECK( maxDiff( dense( e.covariance ), C ) < 1e-7, "many-errorvector-covariance", "off by %g", maxDiff( dense( e.covariance ), C ) );
	us::Gaussian< double, 3 > g, gw, gi; VC_CHECK( us::estimate_gaussian( u.begin(), u.end(), g ), "many-gauss", "refused" ); cmpG< 3 >( g, rm, C, "many" ); double sw = 0; for( double q : w ) sw += q; for( double& q : w ) q /= sw; VD wm; D wC; ref< 3 >( x, w, wm, wC ); VC_CHECK( us::estimate_gaussian( u.begin(), u.end(), w.begin(), gw ), "many-gaussw", "refused" ); cmpG< 3 >( gw, wm, wC, "many weighted" );
	if( !odd.empty() ) { VD om; D oC; ref< 3 >( odd, VD( odd.size(), 1.0 / odd.size() ), om, oC ); VC_CHECK( us::estimate_gaussian_index( u.begin(), u.end(), lab.begin(), (size_t)1, gi ), "many-gaussi", "refused" ); cmpG< 3 >( gi, om, oC, "many labelled" ); }
	double qn = std::sqrt( qm[ 0 ] * qm[ 0 ] + qm[ 1 ] * qm[ 1 ] + qm[ 2 ] * qm[ 2 ] + qm[ 3 ] * qm[ 3 ] ); Q er( qm[ 0 ] / qn, qm[ 1 ] / qn, qm[ 2 ] / qn, qm[ 3 ] / qn ); auto same = [&]( const Q& r ) { return std::fabs( std::fabs( r.x() * er.x() + r.y() * er.y() + r.z() * er.z() + r.w() * er.w() ) - 1 ) < 1e-9; }; VC_CHECK( same( aq.getAverage() ), "many-rotation", "" ); um::Pose pr = ap.getAverage(); VC_CHECK( same( pr.rotation() ), "many-pose", "" ); for( int k = 0; k < 3; k++ ) VC_NEAR( pr.translation()( k ), rm[ k ], 1e-9, "many-pose-translation", "" ); um::ErrorPose ep = aep.getAverage(); VC_CHECK( same( ep.rotation() ), "many-errorpose", "" );
	D P( 6, 6 ); for( size_t i = 0; i < n; i++ ) { Q r = ~er * qs[ i ]; double sg = r.w() < 0 ? -1 : 1, d[ 6 ] = { x[ i ][ 0 ] - rm[ 0 ], x[ i ][ 1 ] - rm[ 1 ], x[ i ][ 2 ] - rm[ 2 ], sg * r.x(), sg * r.y(), sg * r.z() }; for( int j = 0; j < 6; j++ ) for( int k = 0; k < 6; k++ ) P( j, k ) += d[ j ] * d[ k ] / n; } VC_CHECK( maxDiff( dense( ep.covariance() ), P ) < 1e-7, "many-errorpose-covariance", "off by %g", maxDiff( dense( ep.covariance() ), P ) );
	if( n > 2 ) { VC_NEAR( Ubitrack::Algorithm::computeCorrelation( c1, c2 ), corr( c1, c2 ), 1e-9, "many-correlation", "" ); c2.resize( n - n / 4 ); if( c2.size() > 2 ) VC_NEAR( us::correlation( c1.begin(), c1.end(), c2.begin(), c2.end() ), corr( c1, c2 ), 1e-9, "many-correlation-shorter", "" ); }
	VC_OUT( "many %zu", n );
}
void body()
{
	bool th = vc::thorough(); std::cout.rdbuf( 0 );   // the Gaussian estimators print progress

	scalars( th ? 6 : 5 );
	vectors< 2 >( th ? 6 : 5, 6 ); vectors< 3 >( th ? 6 : 5, 6 ); vectors< 4 >( 5, 6 ); vectors< 7 >( 4, 6 );
	for( size_t n : sizes( 1, 130, th ? 70000 : 4100 ) ) if( vc::next( "%zu samples", n ) ) many( n );
	rotations( th ? 2 : 1, 3 ); if( th ) rotations( 1, 4 );
	correlations( th ? 5 : 4, th ? 6 : 5 );
}
VC_MAIN( body() )
