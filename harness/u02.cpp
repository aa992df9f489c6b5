// U02: timers, sleeping and exceptions, on a clock and under interruptions chosen by the harness.
#include "vc.hpp"
#include "logrec.hpp"
#include <utUtil/BlockTimer.h>
#include <utUtil/Exception.h>
#include <utUtil/OS.h>
#include <cerrno>
#include <iomanip>
#include <memory>
#include <time.h>
using namespace Ubitrack::Util;
static long long g_now = 0; static long g_asked = 0; static bool g_fake = false;
static long long g_slept = 0; static std::vector< int > g_cut; static size_t g_cutAt = 0; static long g_sleeps = 0, g_refused = 0;
extern "C" {
int __real_gettimeofday( struct timeval*, void* ); int __real_clock_gettime( clockid_t, struct timespec* );
int __wrap_gettimeofday( struct timeval* t, void* z ) { if( !g_fake ) return __real_gettimeofday( t, z ); g_asked++; t->tv_sec = g_now / 1000000; t->tv_usec = g_now % 1000000; return 0; }
int __wrap_clock_gettime( clockid_t c, struct timespec* t ) { if( !g_fake ) return __real_clock_gettime( c, t ); g_asked++; t->tv_sec = g_now / 1000000; t->tv_nsec = g_now % 1000000 * 1000; return 0; }
// sleeping: parts of the time given by g_cut (in percent), then a signal; after the list everything is slept
int __wrap_nanosleep( const struct timespec* t, struct timespec* rem )
{
	g_sleeps++; if( t->tv_sec < 0 || t->tv_nsec < 0 || t->tv_nsec > 999999999 ) { g_refused++; errno = EINVAL; return -1; }
	long long w = t->tv_sec * 1000000000ll + t->tv_nsec; if( g_cutAt < g_cut.size() ) { long long d = w / 100 * g_cut[ g_cutAt++ ]; g_slept += d; if( rem ) { rem->tv_sec = ( w - d ) / 1000000000; rem->tv_nsec = ( w - d ) % 1000000000; } errno = EINTR; return -1; } g_slept += w; return 0;
}
int __wrap_clock_nanosleep( clockid_t c, int flags, const struct timespec* t, struct timespec* rem ) { if( flags ) return 0; return __wrap_nanosleep( t, rem ) ? errno : 0; }
int __wrap_usleep( useconds_t u ) { struct timespec t = { (time_t)( u / 1000000 ), (long)( u % 1000000 ) * 1000 }; return __wrap_nanosleep( &t, 0 ); }
}
static void sleeping()
{
	const unsigned ms[] = { 0, 1, 5, 999, 1000, 1001, 1500, 60000, 3599999, 4294967295u }, ns[] = { 0, 1, 999, 1000, 999999, 1000000, 1000001, 500000000, 999999999, 1000000000u, 2500000000u, 4294967295u };
	std::vector< std::vector< int > > cuts( 1 ); for( int a : { 0, 30, 90 } ) { cuts.push_back( std::vector< int >( 1, a ) ); for( int b : { 0, 50 } ) { cuts.push_back( { a, b } ); cuts.push_back( { a, b, 10 } ); } }
	for( unsigned m : ms ) for( unsigned n : ns ) for( auto& c : cuts )
	{
		std::string d; for( int x : c ) d += vc::fmt( " %d%%", x ); if( !vc::next( "sleep %u ms %u ns, interrupted after%s", m, n, d.c_str() ) ) continue;
		vc::state(); g_slept = 0; g_cut = c; g_cutAt = 0; g_sleeps = 0; g_refused = 0; if( n ) Ubitrack::Util::sleep( m, n ); else Ubitrack::Util::sleep( m ); vc::step( g_sleeps ); if( !g_sleeps ) { if( m || n ) vc::note( "sleeps in a way the harness cannot see" ); continue; }
		long long want = m * 1000000ll + n; VC_CHECK( g_refused == 0, "refused", "%ld requests", g_refused ); VC_CHECK( g_slept >= want, "too-short", "%lld of %lld ns", g_slept, want ); VC_CHECK( g_slept <= want + 2000000 + ( c.empty() ? 0 : want / 50 ), "too-long", "%lld of %lld ns", g_slept, want ); VC_OUT( "%lld %ld", want, g_sleeps );
	}
}
// all programs of starting and ending measured blocks of two timers, with the clock moving in between
struct Ref { unsigned runs; long long ticks; };
static void timers( int depth )
{
	static const long long dt[] = { 0, 1, 2500, 3600000000ll }; static const char* N[] = { "begin A", "begin B", "begin A plain", "end", "add to B", "1us", "2.5ms", "1h" };
	int total = 1; for( int i = 0; i < depth; i++ ) total *= 8;
	for( int code = 0; code < total; code++ )
	{
		int ops[ 8 ], open = 0; bool ok = true; std::string d; for( int i = 0, c = code; i < depth; i++, c /= 8 ) { ops[ i ] = c % 8; if( ops[ i ] < 3 ) open++; if( ops[ i ] == 3 && --open < 0 ) ok = false; d += std::string( i ? "; " : "" ) + N[ ops[ i ] ]; } if( !ok ) continue;
		for( int form = 0; form < 3; form++ )	// without a logger, with a category, with a category's name
		{
			if( !vc::next( "timers %s: %s", form == 0 ? "alone" : form == 1 ? "with a category" : "with a category name", d.c_str() ) ) continue;
			vc::state(); log4cpp::Category& cat = log4cpp::Category::getInstance( "timing" ); static RecAppender* rec = 0; if( !rec ) { rec = new RecAppender( "T" ); cat.addAppender( rec ); } cat.setPriority( log4cpp::Priority::INFO ); cat.setAdditivity( false ); rec->got.clear();
			g_now = 1700000000123456ll; g_asked = 0; g_fake = true; Ref r[ 2 ] = { { 0, 0 }, { 0, 0 } }; struct Open { int t; long long at; }; std::vector< Open > st; bool seen = true; std::string text[ 2 ]; bool located = false, plainFirst = false;
			{
				std::unique_ptr< BlockTimer > t[ 2 ]; for( int k = 0; k < 2; k++ ) t[ k ].reset( form == 0 ? new BlockTimer( k ? "B" : "timer A" ) : form == 1 ? new BlockTimer( k ? "B" : "timer A", cat ) : new BlockTimer( k ? "B" : "timer A", "timing" ) ); seen = g_asked > 0;
				std::vector< BlockTimer::Time* > live;
				for( int i = 0; i < depth; i++ )
				{
					vc::step(); int o = ops[ i ];
					switch( o )
					{
					case 0: live.push_back( new BlockTimer::Time( *t[ 0 ], "file.cpp", 77 ) ); st.push_back( Open{ 0, g_now } ); if( !plainFirst ) located = true; break; case 1: live.push_back( new BlockTimer::Time( *t[ 1 ], "b.cpp", 5 ) ); st.push_back( Open{ 1, g_now } ); break; case 2: live.push_back( new BlockTimer::Time( *t[ 0 ] ) ); st.push_back( Open{ 0, g_now } ); if( !located ) plainFirst = true; break;
					case 3: delete live.back(); live.pop_back(); r[ st.back().t ].runs++; r[ st.back().t ].ticks += g_now - st.back().at; st.pop_back(); break; case 4: t[ 1 ]->addMeasurement( 1000 ); r[ 1 ].runs++; r[ 1 ].ticks += 1000; break; default: g_now += dt[ o - 4 ];
					}
					for( int k = 0; k < 2 && seen; k++ ) { VC_CHECK( t[ k ]->getRuns() == r[ k ].runs, "runs", "step %d timer %d: %zu", i, k, t[ k ]->getRuns() ); VC_NEAR( t[ k ]->getTotalTime(), r[ k ].ticks * 1e-3, 1e-9 * r[ k ].ticks + 1e-9, "total", "step %d timer %d", i, k ); if( r[ k ].runs ) VC_NEAR( t[ k ]->getAvgTime(), r[ k ].ticks * 1e-3 / r[ k ].runs, 1e-9 * r[ k ].ticks + 1e-9, "average", "step %d timer %d", i, k ); }
				}
				while( !live.empty() ) { delete live.back(); live.pop_back(); r[ st.back().t ].runs++; r[ st.back().t ].ticks += g_now - st.back().at; st.pop_back(); }
				VC_CHECK( t[ 0 ]->getName() == "timer A" && t[ 1 ]->getName() == "B", "name", "%s", t[ 0 ]->getName().c_str() ); g_now += 1000; for( int k = 0; k < 2; k++ ) { std::ostringstream s; s << *t[ k ]; text[ k ] = s.str(); }
				VC_CHECK( rec->got.empty(), "early", "%zu events", rec->got.size() );
			}
			g_fake = false;
			for( int k = 0; k < 2 && seen; k++ ) if( r[ k ].runs ) { std::ostringstream w; w << r[ k ].ticks * 1e-3 << "ms"; VC_CHECK( text[ k ].find( k ? "B" : "timer A" ) != std::string::npos && text[ k ].find( vc::fmt( "%u", r[ k ].runs ) ) != std::string::npos && text[ k ].find( w.str() ) != std::string::npos, "text", "%s", text[ k ].c_str() ); }
			size_t want = form ? ( r[ 0 ].runs > 0 ) + ( r[ 1 ].runs > 0 ) : 0; VC_CHECK( rec->got.size() == want, "events", "%zu instead of %zu", rec->got.size(), want );
			for( int k = 0; k < 2; k++ ) if( form && r[ k ].runs ) { int n = 0; for( auto& e : rec->got ) if( e.msg == text[ k ] ) { n++; VC_CHECK( e.prio == log4cpp::Priority::INFO, "event-level", "%d", e.prio ); } if( seen ) VC_CHECK( n == 1, "event-text", "timer %d: %d events", k, n ); }
			VC_OUT( "%u %lld %u %lld", r[ 0 ].runs, r[ 0 ].ticks, r[ 1 ].runs, r[ 1 ].ticks );
		}
	}
	for( long long a : { 0ll, 1ll, 999999ll, 1000000ll, 1700000000999999ll, 5000000000000000ll } ) for( long long d : dt ) if( vc::next( "counter at %lld + %lld us", a, d ) ) { g_fake = true; g_asked = 0; g_now = a; long long c0 = getHighPerformanceCounter(); g_now = a + d; long long c1 = getHighPerformanceCounter(); bool seen = g_asked > 0; g_fake = false; vc::state(); VC_CHECK( getHighPerformanceFrequency() > 0, "frequency", "%g", getHighPerformanceFrequency() ); if( seen ) VC_NEAR( ( c1 - c0 ) / getHighPerformanceFrequency(), d * 1e-6, 1e-9 + d * 1e-12, "counter", "elapsed" ); VC_OUT( "%lld", d ); }
}
static void exceptions()
{
	log4cpp::Category& c = log4cpp::Category::getInstance( "Ubitrack.Util.Exception" ); RecAppender* rec = new RecAppender( "X" ); c.addAppender( rec ); c.setAdditivity( false );
	const char* msgs[] = { "", "plain", "with \"quotes\" and %s %n", "two\nlines" }; std::string longText( 5000, 'x' ); const char* files[] = { 0, "", "a.cpp", "/long/path with space/b.cpp" };
	for( int m = 0; m < 5; m++ ) for( int f = 0; f < 4; f++ ) for( unsigned line : { 0u, 1u, 4294967295u } ) for( int level : { 300, 700, 750 } ) for( int how = 0; how < 4; how++ )
	{
		std::string msg = m < 4 ? msgs[ m ] : longText; if( !vc::next( "exception message %d file %s line %u, level %d, caught as %d", m, files[ f ] ? files[ f ] : "none", line, level, how ) ) continue;
		vc::state(); vc::step(); c.setPriority( level ); rec->got.clear(); std::string file = files[ f ] ? files[ f ] : "", what, gf; unsigned gl = 0; std::string text;
		try { if( how == 3 ) { try { throw Exception( msg, line, files[ f ] ); } catch( const Exception& e ) { Exception copy( e ); copy = e; throw copy; } } if( !files[ f ] && !line ) throw Exception( msg ); throw Exception( msg, line, files[ f ] ); }
		catch( const Exception& e ) { what = e.what(); gf = e.file(); gl = e.line(); std::ostringstream s; s << e; text = s.str(); if( how == 1 ) { const std::runtime_error& r = e; what = r.what(); } if( how == 2 ) { const std::exception& r = e; what = r.what(); } }
		VC_CHECK( what == msg && gf == file && gl == line, "content", "%s %s %u", what.c_str(), gf.c_str(), gl ); VC_CHECK( text.find( msg ) != std::string::npos && text.find( file + vc::fmt( ":%u", line ) ) != std::string::npos, "printed", "%s", text.substr( 0, 200 ).c_str() );
		if( level < 700 ) VC_CHECK( rec->got.empty(), "log", "%zu events", rec->got.size() ); else { bool ok = false; for( auto& e : rec->got ) if( e.msg.find( msg ) != std::string::npos && e.msg.find( file + vc::fmt( ":%u", line ) ) != std::string::npos && e.msg.find( "thrown" ) != std::string::npos ) ok = true; VC_CHECK( ok, "log", "%s", rec->got.empty() ? "nothing" : rec->got[ 0 ].msg.substr( 0, 200 ).c_str() ); }
		VC_OUT( "%d %d %u", m, f, line );
	}
	if( vc::next( "throwing macro" ) ) { unsigned l = 0; try { l = __LINE__; UBITRACK_THROW( std::string( "text" ) + " more" ); VC_CHECK( false, "macro", "%s", "did not throw" ); } catch( const Exception& e ) { VC_CHECK( e.line() == l && e.file() == __FILE__ && std::string( e.what() ) == "text more", "macro", "%u %s", e.line(), e.file().c_str() ); } }
}
static void body() { sleeping(); exceptions(); for( int d = 1; d <= vc::pick( 4, 6 ); d++ ) timers( d ); }
VC_MAIN( body() )
