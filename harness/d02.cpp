// D02: time stamps: formatting against an independent calendar, clock reading against an interposed system clock.
#include "vc.hpp"
#include <utMeasurement/Timestamp.h>
#include <time.h>
#include <sys/syscall.h>
using namespace Ubitrack::Measurement;
static bool g_fake = false; static long long g_sec, g_nsec; static long g_called;
extern "C" int gettimeofday( struct timeval* tv, void* ) noexcept
{ if( g_fake ) { g_called++; tv->tv_sec = g_sec; tv->tv_usec = g_nsec / 1000; return 0; } return syscall( SYS_gettimeofday, tv, 0 ); }
extern "C" int clock_gettime( clockid_t c, struct timespec* ts ) noexcept
{ if( g_fake ) { g_called++; ts->tv_sec = g_sec; ts->tv_nsec = g_nsec; return 0; } return syscall( SYS_clock_gettime, c, ts ); }

static const char* WD[] = { "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" };
static const char* MN[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
static bool leap( int y ) { return ( y % 4 == 0 && y % 100 != 0 ) || y % 400 == 0; }
static int mdays( int y, int m ) { static const int d[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; return m == 1 && leap( y ) ? 29 : d[ m ]; }

static void body()
{
	// walk the calendar day by day: the oracle only ever adds one day
	static const long tods[] = { 0, 1, 59, 60, 3599, 3600, 43199, 43200, 45296, 86399 };
	static const long nss[] = { 0, 1, 999, 1000, 1001, 9999, 10000, 99999000, 100000000, 123456789, 500000000, 999999000, 999999999 };
	struct Zone { const char* tz; long off; }; static const Zone zs[] = { { "UTC", 0 }, { "AAA-5:30", 19800 }, { "BBB+8", -28800 }, { "CCC-14", 50400 }, { "DDD+0:00:01", -1 } };
	int y = 1970, m = 0, d = 1, wd = 4; long long day = 0;
	while( y < 2554 )
	{
		bool edge = d == 1 || d == mdays( y, m ) || d == 9 || d == 10 || ( m == 1 && d >= 28 );
		bool take = vc::thorough() ? true : ( edge || y == 2024 || y == 2100 || y == 2000 );
		if( take && vc::next( "%d-%02d-%02d (day %lld), all times of day, fractions and zones", y, m + 1, d, day ) )
		{
			vc::state();
			for( long tod : tods ) for( long ns : nss )
			{
				Timestamp t = ( (Timestamp)day * 86400 + tod ) * 1000000000ull + ns;
				std::string exp = vc::fmt( "%s %s %2d %02ld:%02ld:%02ld %d UTC", WD[ wd ], MN[ m ], d, tod / 3600, tod / 60 % 60, tod % 60, y );
				std::string got = timestampToString( t );
				VC_CHECK( got == exp, "long-form", "%llu: got '%s' expected '%s'", t, got.c_str(), exp.c_str() );
				vc::step();
			}
			for( const Zone& z : zs )
			{
				setenv( "TZ", z.tz, 1 ); tzset();
				for( long tod : tods ) for( long ns : nss )
				{
					long long s = day * 86400 + tod; if( s + z.off < 0 ) continue;
					Timestamp t = (Timestamp)s * 1000000000ull + ns; long l = (long)( ( s + z.off ) % 86400 );
					std::string exp = vc::fmt( "%02ld:%02ld:%02ld.%06ld", l / 3600, l / 60 % 60, l % 60, ns / 1000 ), got = timestampToShortString( t );
					VC_CHECK( got == exp, "short-form", "%llu in %s: got '%s' expected '%s'", t, z.tz, got.c_str(), exp.c_str() );
					VC_CHECK( z.off || timestampToString( t ).size() == 28, "long-form-length", "%llu", t );
					vc::step(); vc::outcome( got );
				}
				std::string utc = timestampToString( (Timestamp)day * 86400000000000ull + 45296000000000ull );
				VC_CHECK( utc == vc::fmt( "%s %s %2d 12:34:56 %d UTC", WD[ wd ], MN[ m ], d, y ), "long-form-is-utc", "in %s: '%s'", z.tz, utc.c_str() );
			}
			setenv( "TZ", "UTC", 1 ); tzset();
		}
		day++; wd = ( wd + 1 ) % 7; if( ++d > mdays( y, m ) ) { d = 1; if( ++m == 12 ) { m = 0; y++; } }
	}
	// every second of one day, short form is strictly increasing with time
	for( int h = 0; h < 24; h++ ) if( vc::next( "every second of hour %d: order and uniqueness", h ) )
	{
		std::string prev; vc::state();
		for( int s = 0; s < 3600; s++ ) for( long us : { 0l, 1l, 10l, 999999l } )
		{
			Timestamp t = ( 19000ull * 86400 + h * 3600 + s ) * 1000000000ull + us * 1000; std::string g = timestampToShortString( t );
			VC_CHECK( g > prev && g.size() == 15, "short-form-order", "'%s' after '%s'", g.c_str(), prev.c_str() ); prev = g; vc::step();
		}
	}
	// every microsecond of one second
	for( int k = 0; k < 10; k++ ) if( vc::next( "every microsecond of tenth %d of one second", k ) )
	{
		vc::state();
		for( long us = k * 100000l; us < ( k + 1 ) * 100000l; us++ )
		{
			std::string g = timestampToShortString( 1700000000000000000ull + us * 1000 + us % 1000 );
			VC_CHECK( g.size() == 15 && atol( g.c_str() + 9 ) == us && g[ 8 ] == '.', "fraction", "%ld: %s", us, g.c_str() ); vc::step();
		}
	}
	// the clock
	static const long long secs[] = { 0, 1, 4, 5, 1700000000ll, 2147483647ll, 2147483648ll, 4294967295ll, 4294967296ll, 9223372036ll, 9223372037ll, 18000000000ll };
	static const long us[] = { 0, 1, 9, 999, 1000, 2147, 2148, 4294, 4295, 500000, 999998, 999999 };
	Timestamp prev = 0;
	if( vc::next( "reading the interposed system clock at all boundary seconds x microseconds, in order" ) )
		for( long long s : secs ) for( long u : us )
		{
			g_sec = s; g_nsec = u * 1000; g_called = 0; g_fake = true; Timestamp t = now(); g_fake = false;
			if( !g_called ) { vc::note( "clock source is not interposable; exact conversion not checked" ); continue; }
			VC_CHECK( t == (Timestamp)s * 1000000000ull + (Timestamp)u * 1000, "now", "%lld s %ld us read as %llu", s, u, t );
			VC_CHECK( t > prev || prev == 0, "now-increasing", "%llu after %llu", t, prev ); prev = t; vc::step(); vc::state();
		}
	if( vc::next( "reading the real clock repeatedly" ) )
	{
		Timestamp p = 0;
		for( int i = 0; i < 20000; i++ )
		{
			struct timespec a, b; syscall( SYS_clock_gettime, CLOCK_REALTIME, &a ); Timestamp t = now(); syscall( SYS_clock_gettime, CLOCK_REALTIME, &b );
			long long lo = a.tv_sec * 1000000000ll + a.tv_nsec, hi = b.tv_sec * 1000000000ll + b.tv_nsec;
			if( hi >= lo ) VC_CHECK( (long long)t >= lo - 20000000 && (long long)t <= hi + 20000000, "now-is-system-time", "%llu outside %lld..%lld", t, lo, hi );
			p = t; vc::step();
		}
	}
}
VC_MAIN( body() )
