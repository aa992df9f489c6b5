// L07: file and rolling file appenders against a model of the directory, over all operation and fault sequences.
#include "logrec.hpp"
#include <log4cpp/FileAppender.hh>
#include <log4cpp/RollingFileAppender.hh>
#include <log4cpp/OstreamAppender.hh>
#include <log4cpp/PatternLayout.hh>
#include <log4cpp/BasicConfigurator.hh>
#include <memory>
#include <dirent.h>
#include <sys/stat.h>
#include <errno.h>
#include <map>
using namespace log4cpp;
// ---- write() as seen by the code under test: can be short or interrupted
static const int* gFaults = 0; static int gNFaults = 0, gCall = 0; static bool gOn = false;
extern "C" ssize_t __real_write( int fd, const void* p, size_t n );
extern "C" ssize_t __wrap_write( int fd, const void* p, size_t n )
{
	if( !gOn || fd == vc::S().outFd || fd <= 2 || gCall >= gNFaults || n == 0 ) return __real_write( fd, p, n );
	switch( gFaults[ gCall++ ] ) { case 1: return __real_write( fd, p, 1 ); case 2: return __real_write( fd, p, ( n + 1 ) / 2 ); case 3: errno = EINTR; return -1; default: return __real_write( fd, p, n ); }
}
static std::string DIR_ = "d";
static void cleanDir()
{
	mkdir( DIR_.c_str(), 0755 ); DIR* d = opendir( DIR_.c_str() ); if( !d ) return;
	while( dirent* e = readdir( d ) ) if( e->d_name[ 0 ] != '.' ) unlink( ( DIR_ + "/" + e->d_name ).c_str() );
	closedir( d );
}
typedef std::map< std::string, std::string > Files;
static Files readDir()
{
	Files f; DIR* d = opendir( DIR_.c_str() ); if( !d ) return f;
	while( dirent* e = readdir( d ) ) if( e->d_name[ 0 ] != '.' )
	{
		std::string s; int fd = open( ( DIR_ + "/" + e->d_name ).c_str(), O_RDONLY ); char b[ 4096 ]; ssize_t n; while( ( n = read( fd, b, sizeof b ) ) > 0 ) s.append( b, n ); close( fd ); f[ e->d_name ] = s;
	}
	closedir( d ); return f;
}
static std::string show( const Files& f ) { std::string s; for( auto& x : f ) { s += x.first + "='"; for( char c : x.second ) s += c == '\n' ? std::string( "\\n" ) : std::string( 1, c ); s += "' "; } return s; }
static void write( Appender& a, const std::string& m ) { LoggingEvent e( "c", m, "", 600 ); a.doAppend( e ); vc::step(); }
static void layout( Appender& a ) { PatternLayout* l = new PatternLayout; l->setConversionPattern( "%m%n" ); a.setLayout( l ); }
static std::string text( int serial, int len ) { std::string s( 1, char( 'A' + serial % 26 ) ); while( (int)s.size() < len - 1 ) s += char( 'a' + ( serial + s.size() ) % 26 ); return s; } // len includes the newline

// ---- rolling: the directory evolves exactly by "append" or "append and roll"
struct Roll
{
	std::string cur; std::vector< std::string > back; size_t limit; unsigned maxb; bool everything;
	std::string all; // all events since the last truncation
	Files files() const { Files f; f[ "log" ] = cur; for( size_t i = 0; i < back.size(); i++ ) f[ vc::fmt( "log.%d", (int)i + 1 ) ] = back[ i ]; return f; }
	void roll() { if( maxb == 0 ) return; back.insert( back.begin(), cur ); if( back.size() > maxb ) back.resize( maxb ); cur = ""; }
};
static void rollCheck( Roll& m, const char* what )
{
	Files g = readDir(), e = m.files();
	VC_CHECK( g == e, "rolling", "%s: limit %d, %u backups: files %s expected %s", what, (int)m.limit, m.maxb, show( g ).c_str(), show( e ).c_str() );
	m.cur = g[ "log" ];
}
enum { SHORT, HALF, LONG, REOPEN, RESTART, RESTART_T, ROLL, NOPS };
static const char* N[] = { "short", "half", "long", "reopen", "restart", "restart-truncate", "rollOver" };
static void rolling()
{
	struct { size_t limit; unsigned maxb; } cfg[] = { { 10, 1 }, { 10, 2 }, { 12, 3 }, { 1, 2 } };
	int depth = vc::pick( 5, 6 ); long total = 1; for( int i = 0; i < depth; i++ ) total *= NOPS;
	for( auto& c : cfg ) for( long code = 0; code < total; code++ )
	{
		int ops[ 8 ]; long k = code; std::string d; for( int i = 0; i < depth; i++ ) { ops[ i ] = k % NOPS; k /= NOPS; }
		if( ops[ depth - 1 ] >= REOPEN && ops[ depth - 1 ] != ROLL ) continue; // ends in an event or a roll; shorter histories are prefixes
		if( vc::S().only >= 0 || vc::S().caseNo % vc::S().nshard == vc::S().shard ) for( int i = 0; i < depth; i++ ) d += std::string( N[ ops[ i ] ] ) + " ";
		if( !vc::next( "rolling limit %d backups %u: %s", (int)c.limit, c.maxb, d.c_str() ) ) continue;
		vc::state(); cleanDir(); Roll m; m.limit = c.limit; m.maxb = c.maxb; int serial = 0;
		std::unique_ptr< RollingFileAppender > a( new RollingFileAppender( "r", DIR_ + "/log", c.limit, c.maxb, true ) ); layout( *a ); bool trunc = false;
		VC_CHECK( a->getMaxBackupIndex() == c.maxb && a->getMaxFileSize() == c.limit, "rolling-getters", "values" );
		for( int i = 0; i < depth; i++ )
		{
			switch( ops[ i ] )
			{
			case SHORT: case HALF: case LONG:
			{
				int len = ops[ i ] == SHORT ? 3 : ops[ i ] == HALF ? (int)c.limit / 2 + 1 : (int)c.limit + 3; if( len < 3 ) len = 3; std::string t = text( serial++, len ); write( *a, t ); m.cur += t + "\n"; if( m.cur.size() >= m.limit ) m.roll(); break;
			}
			case REOPEN: VC_CHECK( a->reopen(), "reopen", "failed" ); if( trunc ) m.cur = ""; vc::step(); break;
			case RESTART: case RESTART_T: trunc = ops[ i ] == RESTART_T; a.reset(); a.reset( new RollingFileAppender( "r", DIR_ + "/log", c.limit, c.maxb, !trunc ) ); layout( *a ); if( trunc ) m.cur = ""; vc::step(); break;
			case ROLL: a->rollOver(); m.roll(); vc::step(); break;
			}
		}
		rollCheck( m, "history" ); vc::outcome( show( m.files() ) );
		write( *a, "last" ); m.cur += "last\n"; if( m.cur.size() >= m.limit ) m.roll(); rollCheck( m, "and one more" );
	}
	// many backups: names with more than one digit, changing limits
	for( unsigned maxb = 1; maxb <= 13; maxb++ ) for( int n = 1; n <= 30; n += 1 ) for( int chg = 0; chg < 3; chg++ )
	{
		if( !vc::next( "rolling %d times with %u backups, change %d", n, maxb, chg ) ) continue;
		vc::state(); cleanDir(); Roll m; m.limit = 6; m.maxb = maxb;
		RollingFileAppender a( "r", DIR_ + "/log", 6, maxb ); layout( a );
		for( int i = 0; i < n; i++ )
		{
			if( chg == 1 && i == n / 2 ) { a.setMaxBackupIndex( maxb + 2 ); m.maxb = maxb + 2; VC_CHECK( a.getMaxBackupIndex() == maxb + 2, "rolling-getters", "index" ); }
			if( chg == 2 && i == n / 2 ) { a.setMaximumFileSize( 15 ); m.limit = 15; VC_CHECK( a.getMaxFileSize() == 15, "rolling-getters", "size" ); }
			std::string t = text( i, 7 ); write( a, t ); m.cur += t + "\n"; if( m.cur.size() >= m.limit ) m.roll();
		}
		rollCheck( m, "many" );
	}
	for( int n = 1; n <= 6; n++ ) if( vc::next( "rolling without backups, %d events", n ) )
	{
		cleanDir(); std::string all; { RollingFileAppender a( "r", DIR_ + "/log", 6, 0 ); layout( a ); for( int i = 0; i < n; i++ ) { std::string t = text( i, 4 ); write( a, t ); all += t + "\n"; } }
		Files g = readDir(); VC_CHECK( g.size() == 1 && g.count( "log" ), "no-backups", "%s", show( g ).c_str() );
		std::string c = g[ "log" ]; VC_CHECK( c.size() <= all.size() && all.substr( all.size() - c.size() ) == c && c.size() % 4 == 0, "no-backups-content", "%s", show( g ).c_str() );
	}
}
enum { FLOG, FLOG2, FREOPEN, FCLOSE, FRESTART, FRESTART_T, FSETAPP, FSETTRUNC, FROTATE, FNOPS };
static const char* FN[] = { "log", "log-long", "reopen", "close+reopen", "restart", "restart-truncate", "setAppend(true)", "setAppend(false)", "rotate externally" };
static void files()
{
	int depth = vc::pick( 5, 6 ); long total = 1; for( int i = 0; i < depth; i++ ) total *= FNOPS;
	for( long code = 0; code < total; code++ )
	{
		int ops[ 8 ]; long k = code; std::string d; for( int i = 0; i < depth; i++ ) { ops[ i ] = k % FNOPS; k /= FNOPS; }
		if( ops[ 0 ] >= FREOPEN && ops[ 0 ] != FSETTRUNC ) continue; // histories start with something to keep
		if( vc::S().only >= 0 || vc::S().caseNo % vc::S().nshard == vc::S().shard ) for( int i = 0; i < depth; i++ ) d += std::string( FN[ ops[ i ] ] ) + " ";
		if( !vc::next( "file: %s", d.c_str() ) ) continue;
		vc::state(); cleanDir(); std::string cur; Files other; bool trunc = false, detached = false; int serial = 0, rot = 0;
		std::unique_ptr< FileAppender > a( new FileAppender( "f", DIR_ + "/log" ) ); layout( *a );
		for( int i = 0; i < depth; i++ )
		{
			switch( ops[ i ] )
			{
			case FLOG: case FLOG2: { std::string t = text( serial++, ops[ i ] == FLOG ? 5 : 3000 ); write( *a, t ); ( detached ? other[ vc::fmt( "old%d", rot ) ] : cur ) += t + "\n"; break; }
			case FCLOSE: a->close(); // fall through
			case FREOPEN: VC_CHECK( a->reopen(), "reopen", "failed" ); if( detached || trunc ) cur = ""; detached = false; break;
			case FRESTART: case FRESTART_T: a.reset(); trunc = ops[ i ] == FRESTART_T; a.reset( new FileAppender( "f", DIR_ + "/log", !trunc ) ); layout( *a ); if( detached || trunc ) cur = ""; detached = false; break;
			case FSETAPP: a->setAppend( true ); trunc = false; break;
			case FSETTRUNC: a->setAppend( false ); trunc = true; break;
			case FROTATE: if( !detached ) { ++rot; rename( ( DIR_ + "/log" ).c_str(), ( DIR_ + vc::fmt( "/old%d", rot ) ).c_str() ); other[ vc::fmt( "old%d", rot ) ] = cur; cur = ""; detached = true; } break;
			}
			VC_CHECK( a->getAppend() == !trunc, "append-flag", "getAppend" ); vc::step();
		}
		a.reset(); Files e = other; if( !detached ) e[ "log" ] = cur; Files g = readDir();
		VC_CHECK( g == e, "file-content", "%d files, log has %d bytes, expected %d", (int)g.size(), (int)g[ "log" ].size(), (int)cur.size() );
		vc::outcome( vc::fmt( "%d %d", (int)cur.size(), (int)other.size() ) );
	}
}
static void faults()
{
	static const char* F[] = { "full", "1 byte", "half", "EINTR" };
	int depth = vc::pick( 5, 7 ); long total = 1; for( int i = 0; i < depth; i++ ) total *= 4;
	for( int roll = 0; roll < 2; roll++ ) for( long code = 0; code < total; code++ )
	{
		int f[ 8 ]; long k = code; std::string d; for( int i = 0; i < depth; i++ ) { f[ i ] = k % 4; k /= 4; d += std::string( F[ f[ i ] ] ) + ","; }
		if( !vc::next( "%s, successive writes: %s", roll ? "rolling" : "file", d.c_str() ) ) continue;
		vc::state(); cleanDir(); Roll m; m.limit = 12; m.maxb = 2;
		std::unique_ptr< FileAppender > a( roll ? (FileAppender*)new RollingFileAppender( "r", DIR_ + "/log", 12, 2 ) : new FileAppender( "r", DIR_ + "/log" ) ); layout( *a );
		gFaults = f; gNFaults = depth; gCall = 0; gOn = true;
		for( int i = 0; i < 3; i++ ) { std::string t = text( i, 8 ); write( *a, t ); m.cur += t + "\n"; if( roll && m.cur.size() >= m.limit ) m.roll(); }
		gOn = false; Files g = readDir(), e = m.files();
		VC_CHECK( g == e, "short-write", "files %s expected %s", show( g ).c_str(), show( e ).c_str() ); vc::outcome( show( g ) + vc::fmt( "%d", gCall ) );
	}
}
static void misc()
{
	if( vc::next( "stream appender" ) )
	{
		std::ostringstream os; OstreamAppender a( "o", &os ); layout( a ); std::string w; for( int i = 0; i < 5; i++ ) { write( a, text( i, 5 + i ) ); w += text( i, 5 + i ) + "\n"; if( i == 2 ) VC_CHECK( a.reopen(), "stream-reopen", "failed" ); if( i == 3 ) a.close(); }
		VC_CHECK( os.str() == w, "stream-appender", "'%s'", os.str().c_str() ); vc::state();
	}
	for( int closeFirst = 0; closeFirst < 2; closeFirst++ ) if( vc::next( "appender on a descriptor, close %d", closeFirst ) )
	{
		cleanDir(); int fd = open( ( DIR_ + "/fd" ).c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644 ); { FileAppender a( "f", fd ); layout( a ); write( a, "one" ); VC_CHECK( a.reopen(), "fd-reopen", "failed" ); write( a, "two" ); if( closeFirst ) a.close(); }
		VC_CHECK( readDir()[ "fd" ] == "one\ntwo\n", "fd-appender", "%s", show( readDir() ).c_str() ); VC_CHECK( fcntl( fd, F_GETFD ) == -1, "fd-closed", "descriptor left open" ); vc::state();
	}
	mode_t modes[] = { 0600, 0644, 0640 };
	for( mode_t md : modes ) for( int via = 0; via < 2; via++ ) if( vc::next( "file mode %o via %s", (unsigned)md, via ? "setMode and reopen" : "constructor" ) )
	{
		cleanDir(); mode_t old = umask( 0 ); { FileAppender a( "f", DIR_ + "/log", true, via ? 0604 : md ); if( via ) { unlink( ( DIR_ + "/log" ).c_str() ); a.setMode( md ); VC_CHECK( a.getMode() == md, "mode", "getMode" ); a.reopen(); } } umask( old );
		struct stat st; stat( ( DIR_ + "/log" ).c_str(), &st ); VC_CHECK( ( st.st_mode & 0777 ) == md, "mode", "file mode %o", (unsigned)( st.st_mode & 0777 ) ); vc::state();
	}
	if( vc::next( "unreachable file" ) )
	{
		cleanDir(); FileAppender a( "f", DIR_ + "/no/such/log" ); layout( a ); write( a, "x" ); VC_CHECK( !a.reopen(), "reopen-failure", "reported success" ); mkdir( ( DIR_ + "/no" ).c_str(), 0755 ); mkdir( ( DIR_ + "/no/such" ).c_str(), 0755 );
		VC_CHECK( a.reopen(), "reopen-recovery", "failed" ); write( a, "y" ); a.close(); FILE* f = fopen( ( DIR_ + "/no/such/log" ).c_str(), "r" ); char b[ 10 ] = ""; if( f ) { if( !fgets( b, 10, f ) ) b[ 0 ] = 0; fclose( f ); } VC_CHECK( !strcmp( b, "y\n" ), "reopen-recovery", "content '%s'", b );
		unlink( ( DIR_ + "/no/such/log" ).c_str() ); rmdir( ( DIR_ + "/no/such" ).c_str() ); rmdir( ( DIR_ + "/no" ).c_str() ); vc::state();
	}
	if( vc::next( "failed reopen keeps the open file" ) )
	{
		cleanDir(); FileAppender a( "f", DIR_ + "/log" ); layout( a ); write( a, "1" ); rename( ( DIR_ + "/log" ).c_str(), ( DIR_ + "/kept" ).c_str() ); mkdir( ( DIR_ + "/log" ).c_str(), 0755 );
		VC_CHECK( !a.reopen(), "reopen-failure", "reported success" ); write( a, "2" ); rmdir( ( DIR_ + "/log" ).c_str() ); VC_CHECK( readDir()[ "kept" ] == "1\n2\n", "failed-reopen-keeps", "%s", show( readDir() ).c_str() ); vc::state();
	}
}
static void body() { misc(); faults(); rolling(); files(); }
VC_MAIN( body() )
