// L05: layouts render every field as the pattern says; printf formatting of any length; level names.  Built with ASan.
#include "logrec.hpp"
#include <log4cpp/PatternLayout.hh>
#include <log4cpp/BasicLayout.hh>
#include <log4cpp/SimpleLayout.hh>
#include <log4cpp/TimeStamp.hh>
#include <functional>
using namespace log4cpp;
static const int LEVELS[] = { Priority::EMERG, Priority::ALERT, Priority::CRIT, Priority::ERROR, Priority::WARN, Priority::NOTICE, Priority::INFO, Priority::DEBUG, Priority::TRACE, Priority::NOTSET };
static std::string levelName( int l )
{
	switch( l ) { case 0: return "EMERG|FATAL"; case 100: return "ALERT"; case 200: return "CRIT"; case 300: return "ERROR"; case 400: return "WARN"; case 500: return "NOTICE"; case 600: return "INFO"; case 700: return "DEBUG"; case 750: return "TRACE"; case 800: return "NOTSET"; }
	return "?";
}
static std::string fatalName; // the library may call level 0 EMERG or FATAL; observed once, then used consistently
static std::string lv( int l ) { return l == 0 ? fatalName : levelName( l ); }
// civil date from seconds since the epoch (UTC)
static void civil( long s, int& Y, int& M, int& D, int& h, int& m, int& sec )
{
	long d = s / 86400, r = s % 86400; h = r / 3600; m = r / 60 % 60; sec = r % 60;
	Y = 1970; while( true ) { bool leap = Y % 4 == 0 && ( Y % 100 || Y % 400 == 0 ); long n = leap ? 366 : 365; if( d < n ) break; d -= n; ++Y; }
	static const int len[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; M = 1; bool leap = Y % 4 == 0 && ( Y % 100 || Y % 400 == 0 );
	while( true ) { int n = len[ M - 1 ] + ( M == 2 && leap ); if( d < n ) break; d -= n; ++M; } D = (int)d + 1;
}
static const char* MON[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
typedef std::function< std::string( const LoggingEvent& ) > R;
struct El { std::string pat; R r; bool conv; };
static std::string catTail( const std::string& c, int n )
{ size_t p = c.size(); while( n-- > 0 ) { if( p == 0 ) return c; size_t q = c.rfind( '.', p - 1 ); if( q == std::string::npos ) return c; p = q; } return c.substr( p + 1 ); }
static std::vector< El > conversions()
{
	std::vector< El > v;
	auto add = [ & ]( const char* p, R r ) { v.push_back( El{ p, r, true } ); };
	add( "m", []( const LoggingEvent& e ) { return e.message; } );
	add( "p", []( const LoggingEvent& e ) { return lv( e.priority ); } );
	add( "c", []( const LoggingEvent& e ) { return e.categoryName; } );
	add( "c{1}", []( const LoggingEvent& e ) { return catTail( e.categoryName, 1 ); } );
	add( "c{2}", []( const LoggingEvent& e ) { return catTail( e.categoryName, 2 ); } );
	add( "c{3}", []( const LoggingEvent& e ) { return catTail( e.categoryName, 3 ); } );
	add( "c{9}", []( const LoggingEvent& e ) { return catTail( e.categoryName, 9 ); } );
	add( "x", []( const LoggingEvent& e ) { return e.ndc; } );
	add( "R", []( const LoggingEvent& e ) { return std::to_string( e.timeStamp.getSeconds() ); } );
	add( "r", []( const LoggingEvent& e ) { long long a = (long long)e.timeStamp.getSeconds() * 1000 + e.timeStamp.getMicroSeconds() / 1000, b = (long long)TimeStamp::getStartTime().getSeconds() * 1000 + TimeStamp::getStartTime().getMicroSeconds() / 1000; return std::to_string( a - b ); } );
	add( "F", []( const LoggingEvent& e ) { return e.file; } );
	add( "f", []( const LoggingEvent& e ) { size_t p = e.file.find_last_of( "\\/" ); return p == std::string::npos ? e.file : e.file.substr( p + 1 ); } );
	add( "l", []( const LoggingEvent& e ) { return std::to_string( e.line ); } );
	add( "t", []( const LoggingEvent& e ) { return e.threadName; } );
	auto iso = []( const LoggingEvent& e ) { int Y, M, D, h, m, s; civil( e.timeStamp.getSeconds(), Y, M, D, h, m, s ); return vc::fmt( "%04d-%02d-%02d %02d:%02d:%02d,%03d", Y, M, D, h, m, s, e.timeStamp.getMicroSeconds() / 1000 ); };
	add( "d", iso ); add( "d{ISO8601}", iso );
	add( "d{ABSOLUTE}", []( const LoggingEvent& e ) { int Y, M, D, h, m, s; civil( e.timeStamp.getSeconds(), Y, M, D, h, m, s ); return vc::fmt( "%02d:%02d:%02d,%03d", h, m, s, e.timeStamp.getMicroSeconds() / 1000 ); } );
	add( "d{DATE}", []( const LoggingEvent& e ) { int Y, M, D, h, m, s; civil( e.timeStamp.getSeconds(), Y, M, D, h, m, s ); return vc::fmt( "%02d %s %04d %02d:%02d:%02d,%03d", D, MON[ M - 1 ], Y, h, m, s, e.timeStamp.getMicroSeconds() / 1000 ); } );
	add( "d{%Y/%m %l-%d}", []( const LoggingEvent& e ) { int Y, M, D, h, m, s; civil( e.timeStamp.getSeconds(), Y, M, D, h, m, s ); return vc::fmt( "%04d/%02d %03d-%02d", Y, M, e.timeStamp.getMicroSeconds() / 1000, D ); } );
	add( "d{%H.%M}", []( const LoggingEvent& e ) { int Y, M, D, h, m, s; civil( e.timeStamp.getSeconds(), Y, M, D, h, m, s ); return vc::fmt( "%02d.%02d", h, m ); } );
	return v;
}
static std::string mod( const std::string& s, int mn, int mx, bool left )
{ std::string t = mx > 0 && (int)s.size() > mx ? s.substr( 0, mx ) : s; int f = mn - (int)t.size(); if( f > 0 ) t = left ? t + std::string( f, ' ' ) : std::string( f, ' ' ) + t; return t; }
static std::vector< El > elements( bool full )
{
	std::vector< El > v; auto lit = [ & ]( const char* p, const char* o ) { std::string s( o ); v.push_back( El{ p, [ s ]( const LoggingEvent& ) { return s; }, false } ); };
	lit( "x", "x" ); lit( " ", " " ); lit( "%%", "%" ); lit( "%n", "\n" ); lit( "{-5.2}", "{-5.2}" ); lit( "%5%", "%" ); lit( "%-4.2n", "\n" );
	struct { const char* t; int mn, mx; bool l; } m[] = { { "", 0, 0, false }, { "12", 12, 0, false }, { "-12", 12, 0, true }, { ".3", 0, 3, false }, { "8.2", 8, 2, false }, { "-6.4", 6, 4, true }, { "2.12", 2, 12, false }, { "-1.1", 1, 1, true } };
	int nm = full ? 8 : 1; int nc = 0;
	for( auto& c : conversions() )
	{
		int k = full ? nm : ( nc % 5 == 0 ? 3 : 1 ); ++nc;
		for( int i = 0; i < k; i++ ) { R r = c.r; int mn = m[ i ].mn, mx = m[ i ].mx; bool l = m[ i ].l; v.push_back( El{ std::string( "%" ) + m[ i ].t + c.pat, [ r, mn, mx, l ]( const LoggingEvent& e ) { return mod( r( e ), mn, mx, l ); }, true } ); }
	}
	return v;
}
static std::vector< LoggingEvent >& events()
{
	static std::vector< LoggingEvent >* v = 0;
	if( !v )
	{
		v = new std::vector< LoggingEvent >; v->reserve( 8 );
		auto ev = [ & ]( const char* c, const char* m, const char* n, int p, const char* f, unsigned l, unsigned s, unsigned us ) { v->emplace_back( c, m, n, p, f, l ); v->back().timeStamp = TimeStamp( s, us ); };
		ev( "", "", "", Priority::EMERG, 0, 0, 0, 0 );
		ev( "a", "hello", "n1 n2", Priority::WARN, "/p/q.cpp", 42, 951782399, 999999 );
		ev( "alpha.beta.c", "a longer message with %d %% and\ttab", "", Priority::NOTICE, "q.cpp", 4294967295u, 951782400, 7000 );
		ev( "x.y", "m", "ctx", Priority::TRACE, "d\\e\\f.h", 1, 1709251199, 50000 );
		ev( ".lead", "trail\n", " ", Priority::NOTSET, "/", 10, 1735689599, 123456 );
		ev( "tail.", "%m%p", "%x", Priority::ERROR, "dir/", 7, 2147483647, 1 );
	}
	return *v;
}
static void check( PatternLayout& l, const std::vector< const El* >& els )
{
	std::string pat; for( auto e : els ) pat += e->pat;
	try { l.setConversionPattern( pat ); } catch( const ConfigureFailure& f ) { vc::fail( "refused-valid", vc::fmt( "pattern '%s' refused: %s", pat.c_str(), f.what() ) ); return; }
	VC_CHECK( l.getConversionPattern() == pat, "pattern-kept", "'%s'", l.getConversionPattern().c_str() );
	for( auto& ev : events() )
	{
		std::string want; for( auto e : els ) want += e->r( ev );
		std::string got = l.format( ev ); vc::step(); vc::outcome( got );
		VC_CHECK( got == want, "rendering", "pattern '%s': got '%s' expected '%s'", pat.c_str(), got.c_str(), want.c_str() );
	}
	vc::state();
}
static void patterns()
{
	std::vector< El > full = elements( true ), few = elements( false );
	PatternLayout l;
	for( size_t i = 0; i < full.size(); i++ ) for( size_t j = 0; j <= full.size(); j++ )
	{
		std::vector< const El* > v( 1, &full[ i ] ); if( j < full.size() ) v.push_back( &full[ j ] );
		// a modifier-free literal text directly followed by a brace would be read as a postfix: not a pattern element boundary
		if( v.size() == 2 && v[ 1 ]->pat[ 0 ] == '{' && v[ 0 ]->pat[ 0 ] == '%' ) continue;
		if( vc::next( "pattern '%s%s'", v[ 0 ]->pat.c_str(), v.size() > 1 ? v[ 1 ]->pat.c_str() : "" ) ) { check( l, v ); PatternLayout fresh; check( fresh, v ); }
	}
	for( size_t i = 0; i < few.size(); i++ ) for( size_t j = 0; j < few.size(); j++ ) for( size_t k = 0; k < few.size(); k++ )
	{
		const El* v[] = { &few[ i ], &few[ j ], &few[ k ] };
		if( v[ 1 ]->pat[ 0 ] == '{' && v[ 0 ]->pat[ 0 ] == '%' ) continue; if( v[ 2 ]->pat[ 0 ] == '{' && v[ 1 ]->pat[ 0 ] == '%' ) continue;
		if( vc::next( "pattern '%s%s%s'", v[ 0 ]->pat.c_str(), v[ 1 ]->pat.c_str(), v[ 2 ]->pat.c_str() ) ) check( l, std::vector< const El* >( v, v + 3 ) );
	}
	// modifiers of every width on every conversion
		for( auto& c : conversions() ) for( int mn = 0; mn <= vc::pick( 10, 24 ); mn++ ) for( int mx = 0; mx <= vc::pick( 10, 24 ); mx++ ) for( int left = 0; left < 2; left++ )
		{
			if( mn == 0 && left ) continue;
			std::string t = "%"; if( mn ) t += ( left ? "-" : "" ) + std::to_string( mn ); if( mx ) t += "." + std::to_string( mx );
			R r = c.r; El e = { t + c.pat, [ r, mn, mx, left ]( const LoggingEvent& ev ) { return mod( r( ev ), mn, mx, left ); }, true };
			if( vc::next( "modifier '%s'", e.pat.c_str() ) ) check( l, std::vector< const El* >( 1, &e ) );
		}
}
static void special()
{
	const char* bad[] = { "%", "abc%", "%q", "%m%q", "%5", "%-", "%-m", "%.m", "%5.", "%z%m", "%m %", "%E" };
	for( const char* b : bad ) if( vc::next( "malformed pattern '%s'", b ) )
	{
		PatternLayout l; bool t = false; try { l.setConversionPattern( b ); } catch( const ConfigureFailure& ) { t = true; }
		VC_CHECK( t, "malformed-refused", "'%s' accepted", b );
		std::string s = l.format( events()[ 1 ] ); l.setConversionPattern( "[%m]" ); VC_CHECK( l.format( events()[ 1 ] ) == "[hello]", "usable-after-refusal", "'%s'", l.format( events()[ 1 ] ).c_str() ); vc::state();
	}
	// category precision that names no component, and a category with many components
	const char* prec[] = { "0", "1", "2", "3", "4", "5" };
	const char* names[] = { "", "a", "a.b", "a.b.c", ".a", "a.", "..", ".", "a..b", "long.er.na.me" };
	for( const char* p : prec ) for( const char* n : names ) if( vc::next( "category '%s' precision %s", n, p ) )
	{
		PatternLayout l; l.setConversionPattern( std::string( "%c{" ) + p + "}" ); LoggingEvent e( n, "", "", 0 ); int k = atoi( p );
		try { std::string g = l.format( e ); if( k > 0 ) VC_CHECK( g == catTail( n, k ), "category-precision", "'%s' expected '%s'", g.c_str(), catTail( n, k ).c_str() ); else VC_CHECK( g == n || g == "", "category-precision-zero", "'%s'", g.c_str() ); }
		catch( const std::exception& x ) { vc::fail( "category-precision", vc::fmt( "format throws %s", x.what() ) ); } vc::state();
	}
	// every file name and every category name of a small alphabet
	{
		const size_t len = vc::pick( 5, 7 ); std::vector< std::string > fs( 1 ), cs( 1 );
		for( size_t i = 0; i < fs.size(); i++ ) if( fs[ i ].size() < len ) for( char c : { 'a', '/', '\\', '.' } ) fs.push_back( fs[ i ] + c );
		for( size_t i = 0; i < cs.size(); i++ ) if( cs[ i ].size() < len + 3 ) for( char c : { 'a', '.' } ) cs.push_back( cs[ i ] + c );
		for( size_t at = 0; at < fs.size(); at += 64 ) if( vc::next( "file names from '%s'", fs[ at ].c_str() ) ) for( size_t i = at; i < fs.size() && i < at + 64; i++ )
		{
			LoggingEvent e( "c", "m", "n", 300, fs[ i ].c_str(), 12 ); PatternLayout l; size_t k = fs[ i ].find_last_of( "\\/" );
			try { l.setConversionPattern( "%f|%F" ); std::string w = ( k == std::string::npos ? fs[ i ] : fs[ i ].substr( k + 1 ) ) + "|" + fs[ i ]; std::string g = l.format( e ); VC_CHECK( g == w, "file-name", "'%s': '%s' instead of '%s'", fs[ i ].c_str(), g.c_str(), w.c_str() ); }
			catch( const std::exception& x ) { vc::fail( "file-name", vc::fmt( "format throws %s", x.what() ) ); } vc::state(); vc::step();
		}
		for( size_t at = 0; at < cs.size(); at += 16 ) if( vc::next( "category names from '%s'", cs[ at ].c_str() ) ) for( size_t i = at; i < cs.size() && i < at + 16; i++ ) for( int k = 1; k <= 6; k++ )
		{
			LoggingEvent e( cs[ i ], "m", "n", 300 ); PatternLayout l; l.setConversionPattern( "%c{" + std::to_string( k ) + "}" );
			try { std::string g = l.format( e ), w = catTail( cs[ i ], k ); VC_CHECK( g == w, "category-name", "'%s' precision %d: '%s' instead of '%s'", cs[ i ].c_str(), k, g.c_str(), w.c_str() ); }
			catch( const std::exception& x ) { vc::fail( "category-name", vc::fmt( "format throws %s", x.what() ) ); } vc::state(); vc::step();
		}
	}
	for( int n = 90; n <= 300; n += ( n < 110 ? 1 : 50 ) ) if( vc::next( "date format of %d characters", n ) )
	{ PatternLayout l; std::string s( n - 4, 'z' ); l.setConversionPattern( "%d{" + s + "%Y}" ); std::string g = l.format( events()[ 1 ] ); VC_CHECK( g == s + "2000", "long-date", "%d characters instead of %d", (int)g.size(), n ); vc::state(); }
	if( vc::next( "default pattern and predefined ones" ) )
	{
		for( auto& e : events() )
		{
			PatternLayout l; VC_CHECK( l.format( e ) == e.message + "\n", "default-pattern", "'%s'", l.format( e ).c_str() );
			BasicLayout b; std::string w = std::to_string( e.timeStamp.getSeconds() ) + " " + lv( e.priority ) + " " + e.categoryName + " " + e.ndc + ": " + e.message + "\n"; VC_CHECK( b.format( e ) == w, "basic-layout", "'%s'", b.format( e ).c_str() );
			l.setConversionPattern( PatternLayout::BASIC_CONVERSION_PATTERN ); VC_CHECK( l.format( e ) == w, "basic-pattern", "'%s'", l.format( e ).c_str() );
			l.setConversionPattern( PatternLayout::SIMPLE_CONVERSION_PATTERN ); VC_CHECK( l.format( e ) == lv( e.priority ) + " - " + e.message + "\n", "simple-pattern", "'%s'", l.format( e ).c_str() );
			SimpleLayout s; w = mod( lv( e.priority ), 8, 0, true ) + ": " + e.message + "\n"; VC_CHECK( s.format( e ) == w, "simple-layout", "'%s'", s.format( e ).c_str() );
			vc::state();
		}
		PatternLayout u; u.setConversionPattern( "%u" ); std::string g = u.format( events()[ 0 ] ); VC_CHECK( !g.empty() && g.find_first_not_of( "0123456789" ) == std::string::npos, "clock", "'%s'", g.c_str() );
	}
	for( int l : LEVELS ) for( size_t k = 0; k < 1; k++ ) if( vc::next( "level name %d", l ) )
	{
		std::string n = Priority::getPriorityName( l ); VC_CHECK( l == 0 ? n == "EMERG" || n == "FATAL" : n == levelName( l ), "level-name", "%d is called '%s'", l, n.c_str() );
		VC_CHECK( Priority::getPriorityValue( n ) == l, "level-value", "'%s' means %d", n.c_str(), Priority::getPriorityValue( n ) );
		VC_CHECK( Priority::getPriorityValue( std::to_string( l ) ) == l, "level-number", "%d", l ); vc::state();
	}
	if( vc::next( "level aliases and refused names" ) )
	{
		VC_CHECK( Priority::getPriorityValue( "EMERG" ) == 0 && Priority::getPriorityValue( "FATAL" ) == 0 && Priority::getPriorityValue( "450" ) == 450, "level-alias", "values" );
		const char* bad[] = { "", "debug", "WARNING", "1x", "x", "WARN ", "INFO,", "0x10" };
		for( const char* b : bad ) { bool t = false; try { Priority::getPriorityValue( b ); } catch( const std::invalid_argument& ) { t = true; } VC_CHECK( t, std::string( "level-refused-" ) + ( *b ? b : "empty" ), "'%s' accepted", b ); }
	}
}
static void printfs()
{
	// every length around the internal buffer size, through every printf-style entry
	std::vector< int > lens; for( int i = 0; i <= 40; i++ ) lens.push_back( i ); for( int i = 1000; i <= 1060; i++ ) lens.push_back( i ); for( int k = 11; k <= 16; k++ ) for( int d = -3; d <= 3; d++ ) lens.push_back( ( 1 << k ) + d );
	HierarchyMaintainer hm; RecAppender a( "A" ); Category& c = hm.getInstance( "p" ); c.addAppender( a ); c.setPriority( Priority::TRACE );
	for( int n : lens ) if( vc::next( "message of %d characters", n ) )
	{
		std::string s; for( int i = 0; i < n; i++ ) s += char( 'a' + i % 26 );
		auto expect = [ & ]( const char* what, const std::string& w, int p ) { VC_CHECK( a.got.size() == 1 && a.got[ 0 ].msg == w && a.got[ 0 ].prio == p, std::string( "printf-" ) + what, "length %d: got %d characters", n, a.got.empty() ? -1 : (int)a.got[ 0 ].msg.size() ); a.got.clear(); vc::step(); };
		a.got.clear(); std::string w = s + "|42|x|3.50";
#define PF( nm, lvl ) c.nm( "%s|%d|%s|%.2f", s.c_str(), 42, "x", 3.5 ); expect( #nm, w, lvl );
		PF( trace, 750 ) PF( debug, 700 ) PF( info, 600 ) PF( notice, 500 ) PF( warn, 400 ) PF( error, 300 ) PF( crit, 200 ) PF( alert, 100 ) PF( emerg, 0 ) PF( fatal, 0 )
		c.log( 500, "%d%s", 7, s.c_str() ); expect( "log", "7" + s, 500 );
		vc::state(); vc::outcome( w );
	}
}
static void body()
{
	setenv( "TZ", "UTC0", 1 ); tzset(); fatalName = Priority::getPriorityName( 0 ); special(); patterns(); printfs();
}
VC_MAIN( body() )
