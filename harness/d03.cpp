// D03: clock synchronisation under every event history of a bounded family: reference filter, exact clocks, jitter,
// outliers, jumps, repeated and late events, shift invariance.
#include "vc.hpp"
#include <utMeasurement/TimestampSync.h>
#include <cmath>
#include <iostream>
#include <utMeasurement/TimestampSyncLS.h>
#include <memory>
using namespace Ubitrack::Measurement;
typedef long double LD; typedef long long ll;

// textbook two-state Kalman filter (time, rate) with the documented noise levels, in long double and matrix form
struct Ref
{
	LD x[ 2 ], P[ 2 ][ 2 ], Q[ 2 ], R, last, avg; unsigned n = 0; int budget = -100; bool tie = false;
	Ref( LD nf, LD lf )
	{
		x[ 1 ] = lf / nf; Q[ 0 ] = powl( 1e-3L * lf, 2 ); Q[ 1 ] = powl( 1e-4L * x[ 1 ], 2 ); R = powl( 3e-2L * lf, 2 );
		P[ 0 ][ 0 ] = lf * lf; P[ 0 ][ 1 ] = P[ 1 ][ 0 ] = 0; P[ 1 ][ 1 ] = powl( 10 * x[ 1 ], 2 ); avg = powl( 1e-3L * lf, 2 );
	}
	LD event( LD native, LD local )   // local relative to a common origin
	{
		if( !n ) { last = native; x[ 0 ] = local; }
		LD dn = native - last;
		// P = F P F' + Q with F = [1 dn; 0 1]
		x[ 0 ] += truncl( dn * x[ 1 ] );
		LD a = P[ 0 ][ 0 ] + dn * P[ 1 ][ 0 ], b = P[ 0 ][ 1 ] + dn * P[ 1 ][ 1 ];
		P[ 0 ][ 0 ] = a + b * dn + Q[ 0 ]; P[ 0 ][ 1 ] = P[ 1 ][ 0 ] = b; P[ 1 ][ 1 ] += Q[ 1 ];
		LD y = local - x[ 0 ], dev = y * y, thr = 9 * avg;
		if( budget >= 0 && fabsl( dev - thr ) <= 1e-6L * ( dev + thr ) ) tie = true;
		if( dev < thr || budget < 0 )
		{
			LD s = P[ 0 ][ 0 ] + R, k0 = P[ 0 ][ 0 ] / s, k1 = P[ 1 ][ 0 ] / s;
			x[ 0 ] += truncl( k0 * y ); x[ 1 ] += k1 * y;
			LD p00 = ( 1 - k0 ) * P[ 0 ][ 0 ], p01 = ( 1 - k0 ) * P[ 0 ][ 1 ], p11 = P[ 1 ][ 1 ] - k1 * P[ 0 ][ 1 ];
			P[ 0 ][ 0 ] = p00; P[ 0 ][ 1 ] = P[ 1 ][ 0 ] = p01; P[ 1 ][ 1 ] = p11;
			if( n > 50 ) avg += ( dev - avg ) * 0.01L;
			budget = budget + 1 > 40 ? 40 : budget + 1;
		}
		else budget -= 2;
		last = native; n++;
		return x[ 0 ];
	}
};

// exponentially weighted regression line with outlier rejection, from the weighted sums about the first event, in long double
struct RefLS
{
	LD sn = 0, sl = 0, snn = 0, snl = 0, avg = 1e12L; unsigned n = 0; int budget = 0; bool tie = false;
	LD event( LD native, LD local )
	{
		LD ext = local, dev = 0, thr = 0;
		if( n > 10 )
		{
			LD var = snn - sn * sn, slope = ( snl - sn * sl ) / var; ext = sl + slope * ( native - sn );
			dev = ( ext - local ) * ( ext - local ); thr = 9 * avg;
		}
		if( n >= 100 && fabsl( dev - thr ) <= 2e-2L * ( dev + thr ) ) tie = true;
		if( n < 100 || dev < thr || budget < 0 )
		{
			LD w = n < 100 ? 1.0L / ( n + 1 ) : 0.001L;
			sn += ( native - sn ) * w; sl += ( local - sl ) * w; snn += ( native * native - snn ) * w; snl += ( native * local - snl ) * w;
			if( n > 10 ) avg += ( dev - avg ) * 0.01L;
			budget = budget + 1 > 40 ? 40 : budget + 1;
		}
		else budget -= 2;
		n++; return ext;
	}
};

struct Clock { double nativeFreq, trueFreq; double native0; Timestamp local0; };   // trueFreq: real ticks per second
static const Clock CK[] = {
	{ 1e6, 1e6, 0, 0 }, { 1e6, 1e6, 5e11, 1700000000000000000ull }, { 1000, 1000, 123456789, 1700000000123456789ull }, { 1e9, 1e9, 0, 1000000000ull },
	{ 1e6, 1.0001e6, 1e6, 1700000000000000000ull }, { 1e6, 2e6, 0, 1700000000000000000ull }, { 1e3, 500, 77, 1500000000000000000ull }, { 90000, 90000, -4e9, 9000000000000000000ull },
};

static void historyCase( const Clock& c, const std::vector< int >& pat, int total )
{
	TimestampSync s( c.nativeFreq ), sh( c.nativeFreq );
	Ref r( c.nativeFreq, 1e9L );
	static const double dts[] = { 0.001, 0.01, 0.1, 0, -0.01, 2.0 }; static const double js[] = { 0, 0.004, -0.004 };
	double t = 0, maxJ = 0; Timestamp origin = c.local0 + 20000000000ull; Timestamp shiftL = 12345678901ull; double shiftN = 4096;
	bool steady = c.trueFreq == c.nativeFreq, same = true; bool hasJ = false; ll span = 0;
	for( int p : pat ) { if( p % 3 ) hasJ = true; }
	ll worst = 0; Timestamp prev = 0; double prevN = 0; bool comparing = true;
	VC_CHECK( s.getEventCount() == 0, "event-count", "new object" );
	for( int i = 0; i < total; i++ )
	{
		int p = pat[ i % pat.size() ]; double dt = dts[ p / 3 ], j = js[ p % 3 ];
		t += dt;
		double nat = std::floor( t * c.trueFreq + 0.5 ); double tn = nat / c.trueFreq;   // the sensor reads whole ticks
		double native = c.native0 + nat; ll truth = (ll)std::floor( tn * 1e9 + 0.5 ); ll loc = truth + (ll)( j * 1e9 );
		Timestamp got = s.convertNativeToLocal( native, origin + loc );
		Timestamp got2 = sh.convertNativeToLocal( native + shiftN, origin + shiftL + loc );
		ll g = (ll)( got - origin ), g2 = (ll)( got2 - origin - shiftL );
		LD ref = r.event( native, loc );
		vc::step(); vc::state();
		VC_CHECK( s.getEventCount() == (unsigned)i + 1, "event-count", "after %d events", i + 1 );
		if( i == 0 ) VC_CHECK( g == loc, "first-event", "returned %lld for %lld", g, loc );
		if( r.tie ) comparing = false;
		if( comparing ) VC_CHECK( fabsl( g - ref ) <= 2000 + 1e-7L * fabsl( ref ), "reference-filter", "event %d: %lld, reference filter %.0Lf (true %lld)", i, g, ref, truth );
		VC_CHECK( std::llabs( g - g2 ) <= 1000, "shift-invariance", "event %d: %lld but %lld after shifting both clocks", i, g, g2 );
		ll err = std::llabs( g - truth ); span = truth;
		if( steady ) VC_CHECK( err <= ( hasJ ? 9000000 : 2000 ), "constant-rate-accuracy", "event %d: off by %lld ns", i, err );
		else if( i >= 150 ) VC_CHECK( err <= 30000000 + (ll)( hasJ ? 9000000 : 0 ), "rate-learned", "event %d: off by %lld ns", i, err );
		if( steady && !hasJ && i && native > prevN ) VC_CHECK( got > prev, "increasing", "event %d: %llu after %llu", i, got, prev );
		prev = got; prevN = native; worst = std::max( worst, err );
	}
	vc::outcome( vc::fmt( "%lld", worst / 1000 ) );
}

static void body()
{
	// all event patterns of length 3 (quick) or 4, repeated cyclically
	int len = vc::pick( 3, 4 ), A = 18;
	int np = 1; for( int i = 0; i < len; i++ ) np *= A;
	for( size_t c = 0; c < sizeof CK / sizeof *CK; c++ ) for( int a = 0; a < A; a++ ) for( int b = 0; b < A; b++ )
	{
		if( !vc::next( "clock %zu (native %g Hz, really %g, start %g/%llu): patterns starting %d %d, all continuations to length %d, 240 events", c, CK[ c ].nativeFreq, CK[ c ].trueFreq, CK[ c ].native0, CK[ c ].local0, a, b, len ) ) continue;
		std::vector< int > p = { a, b };
		for( int d = 0; d < A; d++ ) { p.resize( 2 ); p.push_back( d ); if( len == 3 ) historyCase( CK[ c ], p, 240 ); else for( int e = 0; e < A; e++ ) { p.resize( 3 ); p.push_back( e ); historyCase( CK[ c ], p, 240 ); } }
	}
	// outliers and jumps at every position
	static const ll outs[] = { 20000000ll, -20000000ll, 1000000000ll, -1000000000ll, 3600000000000ll, -3600000000000ll };
	for( int pos = 0; pos < 260; pos++ ) for( ll o : outs )
	{
		if( !vc::next( "exact clock, one event off by %lld ns at position %d", o, pos ) ) continue;
		TimestampSync s( 1e6 ); Ref r( 1e6, 1e9 ); Timestamp origin = 1700000000000000000ull; bool cmp = true;
		for( int i = 0; i < 300; i++ )
		{
			ll truth = i * 10000000ll, loc = truth + ( i == pos ? o : 0 );
			ll g = (ll)( s.convertNativeToLocal( i * 10000.0, origin + loc ) - origin ); LD ref = r.event( i * 10000.0L, loc ); if( r.tie ) cmp = false; vc::step(); vc::state();
			if( cmp ) VC_CHECK( fabsl( g - ref ) <= 2000 + 1e-9L * fabsl( ref ), "reference-filter", "event %d: %lld, reference %.0Lf", i, g, ref );
			if( pos >= 100 ) VC_CHECK( std::llabs( g - truth ) <= 2000, "outlier-ignored", "event %d: off by %lld ns", i, std::llabs( g - truth ) );
		}
	}
	for( int pos = 100; pos < 200; pos += vc::pick( 7, 1 ) ) for( ll o : outs )
	{
		if( !vc::next( "exact clock, local clock set by %lld ns at event %d and kept", o, pos ) ) continue;
		TimestampSync s( 1e6 ); Ref r( 1e6, 1e9 ); Timestamp origin = 1700000000000000000ull; bool cmp = true;
		for( int i = 0; i < pos + 900; i++ )
		{
			ll truth = i * 10000000ll, loc = truth + ( i >= pos ? o : 0 );
			ll g = (ll)( s.convertNativeToLocal( i * 10000.0, origin + loc ) - origin ); LD ref = r.event( i * 10000.0L, loc ); if( r.tie ) cmp = false; vc::step(); vc::state();
			if( cmp ) VC_CHECK( fabsl( g - ref ) <= 5000 + 1e-8L * fabsl( ref ), "reference-filter", "event %d: %lld, reference %.0Lf", i, g, ref );
			if( i == pos + 899 ) { VC_CHECK( std::llabs( g - loc ) <= std::llabs( o ) / 20 + 1000000, "jump-followed", "off by %lld ns of %lld", std::llabs( g - loc ), o ); vc::outcome( vc::fmt( "%lld", ( g - loc ) / 1000 ) ); }
		}
	}
	// least-squares variant: same behaviour on exact and jittered clocks
	std::cerr.setstate( std::ios::badbit );
	static const double dts[] = { 0.001, 0.01, 0.1, 0.5 }; static const double js[] = { 0, 0.004, -0.004 };
	for( int a = 0; a < 12; a++ ) for( int b = 0; b < 12; b++ ) for( int d = 0; d < 12; d++ )
	{
		if( !vc::next( "least squares: pattern %d %d %d, all clocks, 300 events", a, b, d ) ) continue;
		int pat[] = { a, b, d };
		for( double f : { 1.0, 1000.0, 2e6, 0.999 } ) for( Timestamp o : { (Timestamp)20000000000ull, (Timestamp)1700000000000000000ull } )
		{
			TimestampSyncLS s; double t = 0; double w = 1, sn = 0, sl = 0, snn = 0, snl = 0; bool jit = a % 3 || b % 3 || d % 3; ll first = 0; LD sw = 0;
			std::vector< LD > N, Lc, W;
			for( int i = 0; i < 300; i++ )
			{
				int p = pat[ i % 3 ]; t += dts[ p / 3 ]; ll truth = (ll)std::floor( t * 1e9 + .5 ), loc = truth + (ll)( js[ p % 3 ] * 1e9 );
				if( !i ) first = loc;
				Timestamp got = s.convertNativeToLocal( t * f, o + loc ); ll g = (ll)( got - o ); vc::step(); vc::state();
				VC_CHECK( s.getEventCount() == (unsigned)i + 1, "event-count", "least squares, after %d events", i + 1 );
				if( i <= 10 ) VC_CHECK( std::llabs( g - loc ) <= 10, "first-event", "least squares event %d: %lld for %lld", i, g, loc );
				else VC_CHECK( std::llabs( g - truth ) <= ( jit ? 12000000 : 20000 ), "constant-rate-accuracy", "least squares event %d: off by %lld ns", i, std::llabs( g - truth ) );
				if( i > 10 && i < 100 )
				{
					LD m = N.size(), mn = 0, ml = 0, cnn = 0, cnl = 0; for( size_t k = 0; k < N.size(); k++ ) { mn += N[ k ] / m; ml += Lc[ k ] / m; }
					for( size_t k = 0; k < N.size(); k++ ) { cnn += ( N[ k ] - mn ) * ( N[ k ] - mn ); cnl += ( N[ k ] - mn ) * ( Lc[ k ] - ml ); }
					LD e = ml + cnl / cnn * ( t * f - mn );
					VC_CHECK( fabsl( g - e ) <= 20000, "least-squares-line", "event %d: %lld, regression %.0Lf", i, g, e );
				}
				N.push_back( t * f ); Lc.push_back( loc );
			}
		}
	}
	for( int pos = 100; pos < 260; pos++ ) for( ll o : outs )
	{
		if( !vc::next( "least squares: one event off by %lld ns at position %d", o, pos ) ) continue;
		TimestampSyncLS s; Timestamp origin = 1700000000000000000ull;
		for( int i = 0; i < 300; i++ )
		{
			ll truth = i * 10000000ll, loc = truth + ( i == pos ? o : 0 );
			ll g = (ll)( s.convertNativeToLocal( i * 0.01, origin + loc ) - origin ); vc::step(); vc::state();
			VC_CHECK( std::llabs( g - truth ) <= 20000, "outlier-ignored", "least squares event %d: off by %lld ns", i, std::llabs( g - truth ) );
		}
	}
	// the same for a jittering clock: which events count as outliers follows from the deviations seen so far
	static const double jp[][ 3 ] = { { 0, 0.004, -0.004 }, { 0.002, 0.001, -0.003 }, { 0.0005, -0.0005, 0 } };
	for( int j = 0; j < 3; j++ ) for( int pos = 100; pos < 700; pos += vc::pick( 23, 1 ) ) for( int len : { 1, 2, 5, 30, 100000 } ) for( double k : { 1.5, 2.0, 4.0, -4.0, 10.0, -300.0 } )
	{
		if( !vc::next( "least squares: jitter %d, %d events off by %g times the jitter from position %d on", j, len, k, pos ) ) continue;
		TimestampSyncLS s; RefLS r; Timestamp origin = 1700000000000000000ull; ll o = (ll)( k * jp[ j ][ 0 ] * 1e9 + k * fabs( jp[ j ][ 1 ] ) * 1e9 ), first = 0; ll last = 0;
		int total = pos + ( len > 1000 ? 1500 : 200 );
		for( int i = 0; i < total && !r.tie; i++ )
		{
			ll truth = i * 10000000ll, loc = truth + (ll)( jp[ j ][ i % 3 ] * 1e9 ) + ( i >= pos && i < pos + len ? o : 0 ); if( !i ) first = loc;
			ll g = (ll)( s.convertNativeToLocal( i * 0.01, origin + loc ) - origin ); LD ref = first + r.event( i * 0.01L, loc - first ); vc::step(); vc::state();
			if( r.tie ) break;
			VC_CHECK( fabsl( g - ref ) <= 20000, "least-squares-line", "event %d: %lld, reference %.0Lf (true %lld)", i, g, ref, truth );
			last = g - truth;
		}
		vc::outcome( vc::fmt( "%lld", last / 1000000 ) );
	}
	std::cerr.clear();
}
VC_MAIN( body() )
