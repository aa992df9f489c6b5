// L06: configuration files build exactly the hierarchy they describe, or are refused.
#include "logrec.hpp"
#include <log4cpp/PropertyConfigurator.hh>
#include <log4cpp/SimpleConfigurator.hh>
#include <log4cpp/BasicConfigurator.hh>
#include <log4cpp/PatternLayout.hh>
#include <log4cpp/FileAppender.hh>
#include <log4cpp/RollingFileAppender.hh>
#include <log4cpp/OstreamAppender.hh>
#include <algorithm>
#include <fstream>
#include <memory>
#include <map>
#include <sys/stat.h>
#ifdef WITH_UTUTIL
#include <utUtil/Logging.h>
#include <iostream>
#endif
using namespace log4cpp;
typedef std::vector< std::string > Lines;
static const char* CATS[] = { "", "a", "a.b", "z" };
static const char* FILES[] = { "f0.log", "f1.log", "f2.log" };
static void put( const char* n, const std::string& s ) { FILE* f = fopen( n, "wb" ); fwrite( s.data(), 1, s.size(), f ); fclose( f ); }
static std::string get( const char* n ) { std::string s; FILE* f = fopen( n, "rb" ); if( !f ) return "<none>"; int c; while( ( c = fgetc( f ) ) != EOF ) s += (char)c; fclose( f ); return s; }
static std::vector< Appender* > gOwned;
static void reset()
{
	Category::shutdown();
	for( const char* c : CATS ) { Category& k = Category::getInstance( c ); k.setAdditivity( true ); k.setPriority( *c ? Priority::NOTSET : Priority::INFO ); }
	const char* names[] = { "A", "A-x", "A1", "B", "con" };
	for( const char* n : names ) while( Appender* a = Appender::getAppender( n ) ) { delete a; if( Appender::getAppender( n ) == a ) break; }
	for( const char* f : FILES ) unlink( f );
}
// ---- description of a property file
struct App { std::string name; int layout /*0 basic 1 simple 2 pattern 3 default pattern*/; std::string threshold; int file; int append /*-1 unset*/; bool rolling; };
struct Cat { int cat; std::string level; std::vector< int > apps; int additive /*-1 unset*/; };
struct Desc { std::vector< App > apps; std::vector< Cat > cats; };
static Lines render( const Desc& d )
{
	Lines l;
	for( auto& c : d.cats )
	{
		std::string k = c.cat ? std::string( "category." ) + CATS[ c.cat ] : "rootCategory", v = c.level; for( int a : c.apps ) v += ", " + d.apps[ a ].name; l.push_back( k + "=" + v );
		if( c.additive >= 0 ) l.push_back( std::string( "additivity." ) + ( c.cat ? CATS[ c.cat ] : "rootCategory" ) + "=" + ( c.additive ? "true" : "false" ) );
	}
	for( auto& a : d.apps )
	{
		std::string p = "appender." + a.name; l.push_back( p + ( a.rolling ? "=RollingFileAppender" : "=org.apache.FileAppender" ) ); l.push_back( p + ".fileName=" + FILES[ a.file ] );
		static const char* L[] = { "BasicLayout", "org.SimpleLayout", "PatternLayout", "PatternLayout" }; l.push_back( p + ".layout=" + L[ a.layout ] ); if( a.layout == 2 ) l.push_back( p + ".layout.ConversionPattern=<%p|%c|%m>%n" );
		if( !a.threshold.empty() ) l.push_back( p + ".threshold=" + a.threshold ); if( a.append >= 0 ) l.push_back( p + ".append=" + ( a.append ? "true" : "false" ) ); if( a.rolling ) { l.push_back( p + ".maxFileSize=100000" ); l.push_back( p + ".maxBackupIndex=3" ); }
	}
	return l;
}
// formatting variants that do not change the meaning
static std::string format( const Lines& in, int variant )
{
	std::string s; int n = 0;
	for( auto& l : in )
	{
		size_t e = l.find( '=' ); std::string k = l.substr( 0, e ), v = l.substr( e + 1 ); std::string pre = variant & 1 ? "log4j." : "log4cpp.";
		bool sp = variant & 2, cm = variant & 4, crlf = variant & 8, longc = variant & 16;
		if( cm && n % 2 == 0 ) s += "# a comment = x\n\n   \n"; if( cm && n % 3 == 0 ) s += "no equals sign here\n";
		s += ( sp ? "  \t" : "" ) + pre + k + ( sp ? " \t= " : "=" ) + v + ( sp ? "  " : "" );
		if( cm ) s += " # trailing"; if( longc ) s += " #" + std::string( 300 + n, 'c' ); s += crlf ? "\r\n" : "\n"; ++n;
	}
	if( variant & 32 && !s.empty() ) s.erase( s.size() - ( variant & 8 ? 2 : 1 ) ); // last line without an end
	return s;
}
static int value( const std::string& l ) { static const std::map< std::string, int > m = { { "", 800 }, { "EMERG", 0 }, { "FATAL", 0 }, { "ALERT", 100 }, { "CRIT", 200 }, { "ERROR", 300 }, { "WARN", 400 }, { "NOTICE", 500 }, { "INFO", 600 }, { "DEBUG", 700 }, { "TRACE", 750 }, { "NOTSET", 800 }, { "450", 450 } }; return m.at( l ); }
static const char* pname( int p ) { switch( p ) { case 300: return "ERROR"; case 600: return "INFO"; case 700: return "DEBUG"; } return "?"; }
static std::string renderEvent( int layout, int p, const std::string& c, const std::string& m, const std::string& got )
{
	switch( layout )
	{
	case 0: { size_t k = got.find( ' ' ); return got.substr( 0, k == std::string::npos ? 0 : k ) + " " + pname( p ) + " " + c + " : " + m + "\n"; }
	case 1: { std::string n = pname( p ); n.resize( 8, ' ' ); return n + ": " + m + "\n"; }
	case 2: return std::string( "<" ) + pname( p ) + "|" + c + "|" + m + ">\n";
	default: return m + "\n";
	}
}
static int parentOf( int c ) { return c == 2 ? 1 : c == 0 ? -1 : 0; }
static void verify( const Desc& d, const std::string& file )
{
	int level[ 4 ] = { 600, 800, 800, 800 }; bool add[ 4 ] = { true, true, true, true }; std::vector< int > apps[ 4 ];
	for( auto& c : d.cats ) { level[ c.cat ] = value( c.level ); add[ c.cat ] = c.additive != 0; apps[ c.cat ] = c.apps; }
	for( int c = 0; c < 4; c++ )
	{
		Category& k = Category::getInstance( CATS[ c ] );
		VC_CHECK( k.getPriority() == level[ c ], "category-level", "category '%s' has level %d, the file says %d", CATS[ c ], k.getPriority(), level[ c ] );
		VC_CHECK( k.getAdditivity() == add[ c ], "category-additivity", "category '%s'", CATS[ c ] );
		AppenderSet s = k.getAllAppenders(); std::vector< std::string > g, e; for( auto a : s ) g.push_back( a->getName() ); for( int a : apps[ c ] ) e.push_back( d.apps[ a ].name ); std::sort( g.begin(), g.end() ); std::sort( e.begin(), e.end() ); e.erase( std::unique( e.begin(), e.end() ), e.end() );
		VC_CHECK( g == e, "category-appenders", "category '%s' has %d appenders, the file says %d", CATS[ c ], (int)g.size(), (int)e.size() );
	}
	for( auto& a : d.apps )
	{
		Appender* p = Appender::getAppender( a.name ); VC_CHECK( p != 0, "appender-exists", "appender %s missing", a.name.c_str() ); if( !p ) return;
		VC_CHECK( p->getThreshold() == value( a.threshold ), "appender-threshold", "appender %s: %d", a.name.c_str(), p->getThreshold() );
		FileAppender* f = dynamic_cast< FileAppender* >( p ); VC_CHECK( f && f->getAppend() == ( a.append != 0 ), "appender-append", "appender %s", a.name.c_str() );
		RollingFileAppender* r = dynamic_cast< RollingFileAppender* >( p ); VC_CHECK( ( r != 0 ) == a.rolling, "appender-type", "appender %s", a.name.c_str() ); if( r ) VC_CHECK( r->getMaxFileSize() == 100000 && r->getMaxBackupIndex() == 3, "rolling-parameters", "%d %u", (int)r->getMaxFileSize(), r->getMaxBackupIndex() );
	}
	int lv[] = { 300, 600, 700 };
	std::string expect[ 3 ]; bool used[ 3 ] = { false, false, false }; for( auto& a : d.apps ) used[ a.file ] = true;
	for( int c = 0; c < 4; c++ ) for( int p : lv )
	{
		std::string before[ 3 ]; for( int i = 0; i < 3; i++ ) before[ i ] = used[ i ] ? get( FILES[ i ] ) : "";
		std::string m = vc::fmt( "m%d-%d", c, p ); Category::getInstance( CATS[ c ] ).log( p, m );
		int eff = c; while( level[ eff ] == 800 ) eff = parentOf( eff ); bool en = p <= level[ eff ];
		for( size_t i = 0; i < d.apps.size(); i++ )
		{
			auto& a = d.apps[ i ]; int n = 0; if( en && ( a.threshold.empty() || p <= value( a.threshold ) ) ) for( int k = c; k >= 0; k = add[ k ] ? parentOf( k ) : -1 ) n += std::count( apps[ k ].begin(), apps[ k ].end(), (int)i ) ? 1 : 0;
			std::string now = get( FILES[ a.file ] ); VC_CHECK( now.size() >= before[ a.file ].size() && now.compare( 0, before[ a.file ].size(), before[ a.file ] ) == 0, "file-kept", "%s", FILES[ a.file ] );
			std::string delta = now.substr( std::min( now.size(), before[ a.file ].size() ) ), one = renderEvent( a.layout, p, CATS[ c ], m, delta ), e; for( int k = 0; k < n; k++ ) e += one;
			VC_CHECK( delta == e, "delivery", "event %d to '%s', appender %s: '%s' expected '%s'", p, CATS[ c ], a.name.c_str(), delta.c_str(), e.c_str() ); vc::outcome( delta );
		}
		vc::step();
	}
}
static void runProp( const Desc& d, const std::string& text, int pre )
{
	reset(); vc::state();
	for( auto& a : d.apps ) put( FILES[ a.file ], "old\n" );
	if( pre ) { Category::getInstance( "a" ).setPriority( 200 ); Category::getInstance( "a" ).setAdditivity( false ); Category::getRoot().setPriority( 100 ); Category::getInstance( "z" ); }
	put( "c.cfg", text );
	try { PropertyConfigurator::configure( "c.cfg" ); } catch( const ConfigureFailure& f ) { vc::fail( "refused-valid", vc::fmt( "valid file refused: %s", f.what() ) ); return; }
	for( auto& a : d.apps ) { std::string s = get( FILES[ a.file ] ); VC_CHECK( s == ( a.append == 0 ? "" : "old\n" ), "append-option", "appender %s append %d: file holds '%s'", a.name.c_str(), a.append, s.c_str() ); }
	if( pre ) { bool hasA = false; for( auto& c : d.cats ) hasA |= c.cat == 1; if( !hasA ) { Category::getInstance( "a" ).setPriority( 800 ); Category::getInstance( "a" ).setAdditivity( true ); } }
	verify( d, text );
}
static void properties()
{
	const char* rootLv[] = { "DEBUG", "ERROR", "450" }; const char* lv[] = { "", "INFO", "NOTSET" };
	const char* nm[][ 2 ] = { { "A", "B" }, { "A", "A-x" }, { "A1", "A" } };
	// every combination of category settings
	for( int r = 0; r < 3; r++ ) for( int ra = 0; ra < 4; ra++ ) for( int la = 0; la < 4; la++ ) for( int aa = 0; aa < 4; aa++ ) for( int ad = -1; ad < 2; ad++ ) for( int b = 0; b < 3; b++ ) for( int th = 0; th < 2; th++ ) for( int names = 0; names < 3; names++ )
	{
		if( la == 3 && ( aa || ad >= 0 ) ) continue; // category a absent
		if( !vc::thorough() && ( r + ra + la + aa + b + th ) % 3 != names ) continue;
		Desc d; d.apps.push_back( App{ nm[ names ][ 0 ], 2, th ? "INFO" : "", 0, -1, false } ); d.apps.push_back( App{ nm[ names ][ 1 ], 1, "", 1, th, names == 1 } );
		auto set = []( int m ) { std::vector< int > v; if( m & 1 ) v.push_back( 0 ); if( m & 2 ) v.push_back( 1 ); return v; };
		d.cats.push_back( Cat{ 0, rootLv[ r ], set( ra ), -1 } ); if( la < 3 ) d.cats.push_back( Cat{ 1, lv[ la ], set( aa ), ad } ); if( b ) d.cats.push_back( Cat{ 2, b == 1 ? "DEBUG" : "ERROR", set( b ), b == 2 ? 0 : -1 } );
		if( !vc::next( "properties: root=%s/%d a=%s/%d additive %d a.b=%d threshold %d names %s,%s", rootLv[ r ], ra, la < 3 ? lv[ la ] : "absent", aa, ad, b, th, nm[ names ][ 0 ], nm[ names ][ 1 ] ) ) continue;
		runProp( d, format( render( d ), ( r + la + ad ) & 1 ), ( ra + aa ) & 1 );
	}
	// every order of the lines, every formatting variant
	Desc d; d.apps.push_back( App{ "A", 2, "INFO", 0, 0, false } ); d.cats.push_back( Cat{ 0, "DEBUG", { 0 }, -1 } ); d.cats.push_back( Cat{ 1, "ERROR", {}, 0 } );
	Lines base = render( d ); int n = (int)base.size(); std::vector< int > idx( n ); for( int i = 0; i < n; i++ ) idx[ i ] = i;
	long count = 0;
	do { if( ++count % vc::pick( 47, 5 ) ) continue; std::string o; for( int i : idx ) o += vc::fmt( "%d", i ); if( !vc::next( "properties: line order %s", o.c_str() ) ) continue; Lines l; for( int i : idx ) l.push_back( base[ i ] ); runProp( d, format( l, 0 ), 0 ); } while( std::next_permutation( idx.begin(), idx.end() ) );
	for( int v = 0; v < 64; v++ ) for( int lay = 0; lay < 4; lay++ ) for( int a = 0; a < 3; a++ ) if( vc::next( "properties: formatting %d layout %d appender %s", v, lay, nm[ a ][ 1 ] ) )
	{ Desc e; e.apps.push_back( App{ nm[ a ][ 0 ], lay, "", 0, -1, false } ); e.apps.push_back( App{ nm[ a ][ 1 ], 3 - lay, "ERROR", 2, 0, true } ); e.cats.push_back( Cat{ 0, "INFO", { 0, 1 }, -1 } ); e.cats.push_back( Cat{ 2, "", { 1 }, 0 } ); Lines l = render( e ); if( v & 1 ) std::reverse( l.begin(), l.end() ); runProp( e, format( l, v ), 0 ); }
}
static void variables()
{
	setenv( "VCENV", "env", 1 ); unsetenv( "VCNONE" );
	struct { const char* def; const char* val; const char* want; } v[] = {
		{ "X=one", "p${X}q", "poneq" }, { "X=one", "${X}${X}", "oneone" }, { "X=", "a${X}b", "ab" }, { "", "a${VCNONE}b", "ab" }, { "", "${VCENV}", "env" }, { "VCENV=prop", "${VCENV}!", "env!" }, { "X=one", "${X", "${X" }, { "X=one", "$X", "$X" }, { "X=one", "a${${}b", "a${b" },
		{ "X=one\nY=<${X}>", "${Y}${X}", "<one>one" }, { "log4cpp.X=two", "${X}", "two" }, { "X=one", "${X} ${VCENV", "one ${VCENV" }, { "X=one", "{X}", "{X}" }, { "Z.W=dotted", "${Z.W}", "dotted" }, { "", "no", "no" }, { "X=a=b", "${X}", "a=b" } };
	for( auto& t : v ) if( vc::next( "variable: %s; value %s", t.def, t.val ) )
	{
		reset(); vc::state(); put( "c.cfg", std::string( t.def ) + "\nlog4cpp.appender.A=FileAppender\nlog4cpp.appender.A.fileName=f0.log\nlog4cpp.appender.A.layout=PatternLayout\nlog4cpp.appender.A.layout.ConversionPattern=[" + t.val + "]%m%n\nlog4cpp.rootCategory=INFO,A\n" );
		try { PropertyConfigurator::configure( "c.cfg" ); } catch( const ConfigureFailure& f ) { vc::fail( "refused-valid", f.what() ); continue; }
		Category::getRoot().info( "m" ); std::string g = get( "f0.log" ), w = std::string( "[" ) + t.want + "]m\n"; VC_CHECK( g == w, "variable", "%s with %s gives '%s' expected '%s'", t.val, t.def, g.c_str(), w.c_str() ); vc::outcome( g ); vc::step();
	}
	for( int n = 200; n <= 1100; n += ( n > 245 && n < 265 ? 1 : 45 ) ) if( vc::next( "line of about %d characters", n ) )
	{
		reset(); vc::state(); std::string lit( n, 'q' ); put( "c.cfg", "log4cpp.appender.A=FileAppender\nlog4cpp.appender.A.fileName=f0.log\nlog4cpp.appender.A.layout=PatternLayout\nlog4cpp.appender.A.layout.ConversionPattern=" + lit + "%m%n\nlog4cpp.rootCategory=DEBUG,A\nlog4cpp.category.a=ERROR\n" );
		try { PropertyConfigurator::configure( "c.cfg" ); } catch( const ConfigureFailure& f ) { vc::fail( "long-line", f.what() ); continue; }
		Category::getRoot().debug( "m" ); VC_CHECK( get( "f0.log" ) == lit + "m\n" && Category::getInstance( "a" ).getPriority() == 300, "long-line", "%d characters rendered", (int)get( "f0.log" ).size() );
	}
}
static void refused()
{
	std::string ok = "log4cpp.appender.A=FileAppender\nlog4cpp.appender.A.fileName=f0.log\nlog4cpp.appender.A.layout=SimpleLayout\n", root = "log4cpp.rootCategory=INFO,A\n";
	struct { const char* what; std::string text; } bad[] = {
		{ "no root category", ok }, { "empty file", "" }, { "unknown root level", ok + "log4cpp.rootCategory=INF,A\n" }, { "unknown category level", ok + root + "log4cpp.category.a=bogus\n" }, { "unknown appender", ok + "log4cpp.rootCategory=INFO,B\n" }, { "unknown appender in category", ok + root + "log4cpp.category.a=INFO,Q\n" },
		{ "unknown appender type", "log4cpp.appender.A=NoSuchAppender\n" + root }, { "missing layout", "log4cpp.appender.A=FileAppender\nlog4cpp.appender.A.fileName=f0.log\n" + root }, { "unknown layout", "log4cpp.appender.A=FileAppender\nlog4cpp.appender.A.fileName=f0.log\nlog4cpp.appender.A.layout=Nope\n" + root },
		{ "partial appender", ok + "log4cpp.appender.B.layout=SimpleLayout\n" + root }, { "bad threshold", ok + "log4cpp.appender.A.threshold=LOUD\n" + root }, { "bad pattern", "log4cpp.appender.A=FileAppender\nlog4cpp.appender.A.fileName=f0.log\nlog4cpp.appender.A.layout=PatternLayout\nlog4cpp.appender.A.layout.ConversionPattern=%q\n" + root },
		{ "empty root level", ok + "log4cpp.rootCategory=,A\n" }, { "root level NOTSET", ok + "log4cpp.rootCategory=NOTSET,A\n" }, { "empty appender name in list", ok + "log4cpp.rootCategory=INFO,\n" } };
	for( auto& b : bad ) if( vc::next( "property file refused: %s", b.what ) )
	{
		reset(); vc::state(); put( "c.cfg", b.text ); bool t = false; try { PropertyConfigurator::configure( "c.cfg" ); } catch( const ConfigureFailure& ) { t = true; } VC_CHECK( t, std::string( "refused: " ) + b.what, "accepted" ); vc::step();
		// and a good file afterwards still works
		put( "c.cfg", ok + root ); reset(); try { PropertyConfigurator::configure( "c.cfg" ); } catch( const ConfigureFailure& f ) { vc::fail( "refused-valid", f.what() ); } Category::getRoot().error( "m" ); VC_CHECK( get( "f0.log" ) == "ERROR   : m\n", "after-refusal", "'%s'", get( "f0.log" ).c_str() );
	}
	if( vc::next( "missing files" ) )
	{
		bool t = false; try { PropertyConfigurator::configure( "does-not-exist" ); } catch( const ConfigureFailure& ) { t = true; } VC_CHECK( t, "missing-property-file", "accepted" );
		t = false; try { SimpleConfigurator::configure( "does-not-exist" ); } catch( const ConfigureFailure& ) { t = true; } VC_CHECK( t, "missing-simple-file", "accepted" ); vc::state();
	}
	const char* sbad[] = { "frobnicate root\n", "priority root LOUD\n", "priority a\n", "appender root simple nosuch\n", "appender root fancy file f0.log\n", "appender root simple file\n", "appender root simple rolling f0.log\n", "appender root simple rolling f0.log 100\n", "appender root pattern file f0.log %q\n", "priority root NOTSET\n" };
	for( const char* b : sbad ) if( vc::next( "simple file refused: %s", b ) ) { reset(); vc::state(); bool t = false; try { std::istringstream is( b ); SimpleConfigurator::configure( is ); } catch( const ConfigureFailure& ) { t = true; } VC_CHECK( t, std::string( "simple refused: " ) + b, "accepted" ); reset(); Appender* a; while( ( a = Appender::getAppender( "root" ) ) ) delete a; }
}
static void simple()
{
	// all sequences of up to four commands; appenders are named after their category
	struct Cmd { const char* text; int kind, cat, arg; } cmds[] = {
		{ "appender root simple file f0.log\n", 0, 0, 0 }, { "appender a pattern file f1.log <%p|%c|%m>%n\n", 1, 1, 1 }, { "appender a.b simple rolling f2.log 100000 2\n", 2, 2, 2 }, { "priority root DEBUG\n", 3, 0, 700 }, { "priority a ERROR\n", 3, 1, 300 }, { "priority a.b 600\n", 3, 2, 600 }, { "# priority root EMERG\n", 9, 0, 0 }, { "category z\n", 9, 3, 0 }, { "\n  \n", 9, 0, 0 }, { "  priority   a\tINFO  \n", 3, 1, 600 } };
	int nc = 10, depth = vc::pick( 3, 4 ); long total = 1; for( int i = 0; i < depth; i++ ) total *= nc;
	for( long code = 0; code < total; code++ )
	{
		long k = code; std::string text; int seq[ 4 ]; for( int i = 0; i < depth; i++ ) { seq[ i ] = k % nc; k /= nc; text += cmds[ seq[ i ] ].text; }
		for( int viaFile = 0; viaFile < 2; viaFile++ )
		{
		if( !vc::next( "simple %s: %s", viaFile ? "file" : "stream", text.c_str() ) ) continue;
		reset(); vc::state(); int level[ 4 ] = { 600, 800, 800, 800 }, napp[ 4 ] = { 0, 0, 0, 0 };
		for( int i = 0; i < depth; i++ ) { auto& c = cmds[ seq[ i ] ]; if( c.kind == 3 ) level[ c.cat ] = c.arg; if( c.kind <= 2 ) napp[ c.cat ]++; }
		try { if( viaFile ) { put( "c.cfg", text ); SimpleConfigurator::configure( "c.cfg" ); } else { std::istringstream is( text ); SimpleConfigurator::configure( is ); } } catch( const ConfigureFailure& f ) { vc::fail( "simple-refused-valid", f.what() ); continue; }
		for( int c = 0; c < 4; c++ ) { Category& g = Category::getInstance( CATS[ c ] ); VC_CHECK( g.getPriority() == level[ c ], "simple-level", "category '%s': %d expected %d", CATS[ c ], g.getPriority(), level[ c ] ); VC_CHECK( (int)g.getAllAppenders().size() == napp[ c ], "simple-appenders", "category '%s'", CATS[ c ] ); }
		Category::getInstance( "a.b" ).error( "x" ); Category::getInstance( "a" ).debug( "y" );
		int ea = level[ 1 ] == 800 ? level[ 0 ] : level[ 1 ]; bool dbg = ea >= 700;
		std::string w0, w1, w2; for( int i = 0; i < napp[ 0 ]; i++ ) w0 += "ERROR   : x\n"; if( dbg ) for( int i = 0; i < napp[ 0 ]; i++ ) w0 += "DEBUG   : y\n";
		for( int i = 0; i < napp[ 1 ]; i++ ) w1 += "<ERROR|a.b|x>\n"; if( dbg ) for( int i = 0; i < napp[ 1 ]; i++ ) w1 += "<DEBUG|a|y>\n"; for( int i = 0; i < napp[ 2 ]; i++ ) w2 += "ERROR   : x\n";
		auto chk = [ & ]( int f, int n, const std::string& w ) { std::string g = get( FILES[ f ] ); VC_CHECK( n ? g == w : g == "<none>", "simple-delivery", "%s holds '%s' expected '%s'", FILES[ f ], g.c_str(), w.c_str() ); };
		chk( 0, napp[ 0 ], w0 ); chk( 1, napp[ 1 ], w1 ); chk( 2, napp[ 2 ], w2 ); vc::step( 3 ); vc::outcome( w0 + w1 + w2 );
		}
	}
}
// targets that are standard streams: all pairs of simple commands, and the console of a property file, with the two
// descriptors on scratch files; closing the appenders leaves the streams usable
static void streams()
{
	static const char* kinds[] = { "console", "stdout", "stderr" }; static const char* cats[] = { "root", "a", "a.b" };
	for( int code = 0; code < 9 * 10; code++ ) for( int prop = 0; prop < ( code < 3 ? 2 : 1 ); prop++ )
	{
		int c1 = code % 9, c2 = code / 9 - 1; std::string text; int n[ 2 ][ 3 ] = { { 0, 0, 0 }, { 0, 0, 0 } };
		auto add = [ & ]( int c ) { text += std::string( "appender " ) + cats[ c / 3 ] + " simple " + kinds[ c % 3 ] + "\n"; n[ c % 3 == 2 ][ c / 3 ]++; };
		if( prop ) { text = std::string( code == 0 ? "rootCategory=INFO,C\n" : code == 1 ? "rootCategory=INFO\ncategory.a=INFO,C\n" : "rootCategory=INFO\ncategory.a.b=NOTSET,C\n" ) + "appender.C=ConsoleAppender\nappender.C.layout=SimpleLayout\n"; n[ 0 ][ code ]++; }
		else { add( c1 ); if( c2 >= 0 ) add( c2 ); }
		if( !vc::next( "standard streams: %s", text.c_str() ) ) continue;
		reset(); vc::state(); fflush( 0 ); std::cout.flush(); int k1 = fcntl( 1, F_DUPFD, 200 ), k2 = fcntl( 2, F_DUPFD, 200 ); int o = ::open( "out.txt", O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600 ), e = ::open( "err.txt", O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600 ); dup2( o, 1 ); dup2( e, 2 ); ::close( o ); ::close( e ); bool refused = false; std::string why; int fds[ 2 ] = { 0, 0 };
		auto count = []() { int r = 0; for( int i = 0; i < 256; i++ ) if( fcntl( i, F_GETFD ) != -1 ) r++; return r; }; fds[ 0 ] = count();
		try { if( prop ) { put( "c.cfg", text ); PropertyConfigurator::configure( "c.cfg" ); } else { std::istringstream is( text ); SimpleConfigurator::configure( is ); } } catch( const ConfigureFailure& f ) { refused = true; why = f.what(); }
		Category::getInstance( "a.b" ).error( "x" ); Category::getInstance( "a" ).warn( "y" ); Category::getRoot().error( "z" ); std::cout.flush(); std::cerr.flush(); fflush( 0 ); reset(); fds[ 1 ] = count(); bool alive = ::write( 1, "!", 1 ) == 1 && ::write( 2, "!", 1 ) == 1 && std::cout.good();
		dup2( k1, 1 ); dup2( k2, 2 ); ::close( k1 ); ::close( k2 ); vc::step( 3 );
		VC_CHECK( !refused, "stream-refused", "%s", why.c_str() ); VC_CHECK( alive, "stream-alive", "a standard stream was closed" ); VC_CHECK( fds[ 0 ] == fds[ 1 ], "stream-descriptors", "%d became %d", fds[ 0 ], fds[ 1 ] );
		std::string all; for( int t = 0; t < 2; t++ ) { std::string g = get( t ? "err.txt" : "out.txt" ); auto times = [ & ]( const char* l ) { int r = 0; for( size_t p = 0; ( p = g.find( l, p ) ) != std::string::npos; p++ ) r++; return r; }; int x = n[ t ][ 0 ] + n[ t ][ 1 ] + n[ t ][ 2 ], y = n[ t ][ 0 ] + n[ t ][ 1 ], z = n[ t ][ 0 ]; VC_CHECK( times( " : x\n" ) == x && times( " : y\n" ) == y && times( " : z\n" ) == z && g.size() == 12u * ( x + y + z ) + 1, "stream-delivery", "%s holds '%s'", t ? "standard error" : "standard output", g.c_str() ); all += g; }
		vc::outcome( all );
	}
	unlink( "out.txt" ); unlink( "err.txt" );
}
#ifdef WITH_UTUTIL
static void ututil()
{
	std::string good = "log4cpp.appender.A=FileAppender\nlog4cpp.appender.A.fileName=f0.log\nlog4cpp.appender.A.layout=SimpleLayout\nlog4cpp.rootCategory=ERROR,A\n";
	const char* kinds[] = { "good", "missing", "empty", "bad level", "unknown appender" };
	for( int k = 0; k < 5; k++ ) if( vc::next( "initLogging with a %s file", kinds[ k ] ) )
	{
		reset(); Category::getInstance( "Ubitrack.Events" ).setPriority( 800 ); vc::state(); unlink( "u.cfg" ); std::string t = k == 0 ? good : k == 2 ? "" : k == 3 ? "log4cpp.rootCategory=XX\n" : "log4cpp.rootCategory=INFO,Q\n"; if( k != 1 ) put( "u.cfg", t );
		std::ostringstream err; std::streambuf* old = std::cerr.rdbuf( err.rdbuf() );
		Ubitrack::Util::initLogging( "u.cfg" ); Category::getInstance( "Ubitrack.x" ).error( "E" ); Category::getInstance( "Ubitrack.x" ).info( "I" ); Category::getInstance( "Ubitrack.x" ).debug( "D" ); Category::getInstance( "Ubitrack.Events" ).info( "EI" ); Category::getInstance( "Ubitrack.Events" ).notice( "EN" );
		std::cerr.rdbuf( old ); std::string o = err.str();
		if( k == 0 ) VC_CHECK( o.empty() && get( "f0.log" ) == "ERROR   : E\n", "init-file", "stderr '%s' file '%s'", o.c_str(), get( "f0.log" ).c_str() );
		else
		{
			std::vector< std::string > m; std::istringstream is( o ); std::string line; while( std::getline( is, line ) ) m.push_back( line );
			VC_CHECK( m.size() == 3 && m[ 0 ].find( " ERROR" ) != std::string::npos && m[ 0 ].find( " E   (Ubitrack.x)" ) != std::string::npos && m[ 1 ].find( " I   (Ubitrack.x)" ) != std::string::npos && m[ 2 ].find( " EN   (Ubitrack.Events)" ) != std::string::npos, "init-default", "default logging wrote '%s'", o.c_str() );
		}
		vc::step( 5 ); Category::getRoot().setAdditivity( true ); Category::shutdown();
	}
}
#endif
static void body()
{
	setenv( "TZ", "UTC0", 1 ); tzset();
#ifdef WITH_UTUTIL
	ututil();
#else
	refused(); variables(); simple(); streams(); properties(); reset();
#endif
}
VC_MAIN( body() )
