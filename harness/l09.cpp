// L09: local and remote syslog appenders.  The local interface is replaced by a recording stand-in, the remote
// one is received on the loopback network.
#include "vc.hpp"
#include <log4cpp/Category.hh>
#include <log4cpp/SyslogAppender.hh>
#include <log4cpp/RemoteSyslogAppender.hh>
#include <log4cpp/SimpleLayout.hh>
#include <log4cpp/BasicLayout.hh>
#include <log4cpp/PatternLayout.hh>
#include <log4cpp/PropertyConfigurator.hh>
#include <log4cpp/SimpleConfigurator.hh>
#include <arpa/inet.h>
#include <algorithm>
#include <memory>
#include <sstream>
#include <netdb.h>
#include <poll.h>
#include <sys/socket.h>
#include <syslog.h>
using namespace log4cpp;
struct Sent { int pri; std::string ident, text; };
static std::vector< Sent > g_sent; static const char* g_ident = 0; static bool g_open = false; static int g_facility = LOG_USER;
static void record( int pri, const char* f, va_list ap ) { char b[ 8192 ]; vsnprintf( b, sizeof b, f, ap ); g_sent.push_back( Sent{ pri, g_ident ? g_ident : "", b } ); }
extern "C" {
void __wrap_openlog( const char* i, int, int f ) { g_ident = i; g_open = true; g_facility = f; }
void __wrap_closelog() { g_ident = 0; g_open = false; }
void __wrap_syslog( int p, const char* f, ... ) { va_list ap; va_start( ap, f ); record( p, f, ap ); va_end( ap ); }
void __wrap___syslog_chk( int p, int, const char* f, ... ) { va_list ap; va_start( ap, f ); record( p, f, ap ); va_end( ap ); }
void __wrap___vsyslog_chk( int p, int, const char* f, va_list ap ) { record( p, f, ap ); }
void __wrap_vsyslog( int p, const char* f, va_list ap ) { record( p, f, ap ); }
struct hostent* __real_gethostbyname( const char* n ); struct hostent* __real_gethostbyaddr( const void* a, socklen_t l, int f );
struct hostent* __wrap_gethostbyname( const char* n ) { static struct hostent h; static char addr[ 4 ]; static char* list[] = { addr, 0 }; memset( &h, 0, sizeof h ); h.h_name = (char*)"loop"; h.h_addrtype = AF_INET; h.h_length = 4; h.h_addr_list = list; if( !strcmp( n, "localhost" ) ) { inet_pton( AF_INET, "127.0.0.1", addr ); return &h; } return strchr( n, '.' ) && inet_pton( AF_INET, n, addr ) == 1 ? &h : 0; }
struct hostent* __wrap_gethostbyaddr( const void*, socklen_t, int ) { return 0; }
}
static int severity( int p ) { switch( p ) { case 0: return LOG_EMERG; case 100: return LOG_ALERT; case 200: return LOG_CRIT; case 300: return LOG_ERR; case 400: return LOG_WARNING; case 500: return LOG_NOTICE; case 600: return LOG_INFO; case 700: return LOG_DEBUG; } return -1; }
// priorities between two named ones have the severity of one of them
static bool goodSeverity( int p, int s ) { if( p <= 0 ) return s == LOG_EMERG; if( p >= 700 ) return s == LOG_DEBUG; if( severity( p ) >= 0 ) return s == severity( p ); return s == severity( p / 100 * 100 ) || s == severity( ( p / 100 + 1 ) * 100 ); }
static int effective() { return g_facility; }
static int fds() { int n = 0; for( int i = 0; i < 128; i++ ) if( fcntl( i, F_GETFD ) != -1 ) n++; return n; }
struct Server
{
	int fd, port;
	Server( const char* addr, int p = 0 ) { fd = socket( AF_INET, SOCK_DGRAM, 0 ); sockaddr_in a; memset( &a, 0, sizeof a ); a.sin_family = AF_INET; a.sin_port = htons( p ); inet_pton( AF_INET, addr, &a.sin_addr ); int big = 1 << 20; setsockopt( fd, SOL_SOCKET, SO_RCVBUF, &big, sizeof big ); if( bind( fd, (sockaddr*)&a, sizeof a ) ) { ::close( fd ); fd = -1; return; } socklen_t l = sizeof a; getsockname( fd, (sockaddr*)&a, &l ); port = ntohs( a.sin_port ); }
	~Server() { if( fd >= 0 ) ::close( fd ); }
	// datagrams that are there; waits for the first ones until `total` bytes of text have come
	std::vector< std::string > get( int wait, size_t total ) { std::vector< std::string > r; size_t have = 0; for( ;; ) { pollfd p = { fd, POLLIN, 0 }; if( ::poll( &p, 1, have < total ? wait : 0 ) <= 0 ) break; char b[ 65536 ]; ssize_t n = recv( fd, b, sizeof b, 0 ); if( n < 0 ) break; r.push_back( std::string( b, n ) ); have += n; } return r; }
};
// a server whose port is free on the other address too
static void checkRemote( const std::vector< std::string >& d, int facility, int prio, const std::string& want, const char* at )
{
	std::string all; for( auto& p : d )
	{
		VC_CHECK( p.size() <= 900, "too-long", "%s: datagram of %zu bytes", at, p.size() ); size_t i = p.find( '>' ); bool ok = p.size() > 2 && p[ 0 ] == '<' && i != std::string::npos && i <= 4; VC_CHECK( ok, "preamble", "%s: %s", at, p.substr( 0, 12 ).c_str() ); if( !ok ) continue;
		int v = atoi( p.c_str() + 1 ); VC_CHECK( vc::fmt( "<%d>", v ) == p.substr( 0, i + 1 ), "preamble", "%s: %s", at, p.substr( 0, i + 1 ).c_str() ); if( facility >= 0 ) VC_CHECK( v >= 0 && ( v & ~7 ) == facility, "facility", "%s: %d instead of %d", at, v, facility ); VC_CHECK( goodSeverity( prio, v & 7 ), "severity", "%s: %d for %d", at, v & 7, prio ); all += p.substr( i + 1 );
	}
	VC_CHECK( all == want, "text", "%s: %zu bytes in %zu datagrams instead of %zu", at, all.size(), d.size(), want.size() );
}
static std::string textOf( size_t n, int style ) { std::string s; for( size_t i = 0; i < n; i++ ) s += style == 1 ? (char)( "<%s>\\\n\t\xc3\xbc"[ i % 9 ] ) : style == 2 ? (char)( i * 7 % 251 + 1 ) : (char)( 'a' + i % 26 ); return s; }
struct Plain : Layout { virtual std::string format( const LoggingEvent& e ) { return e.message; } };
static LoggingEvent ev( const std::string& m, int p ) { return LoggingEvent( "cat", m, "", p ); }
static const int FAC[] = { LOG_KERN, LOG_USER, LOG_MAIL, LOG_DAEMON, LOG_AUTH, LOG_SYSLOG, LOG_LPR, LOG_NEWS, LOG_UUCP, LOG_CRON, LOG_AUTHPRIV, LOG_FTP, LOG_LOCAL0, LOG_LOCAL3, LOG_LOCAL7 };

static void mapping()
{
	for( int p = -300; p <= 1100; p++ ) if( vc::next( "severity of priority %d", p ) ) { vc::state(); int a = SyslogAppender::toSyslogPriority( p ), b = RemoteSyslogAppender::toSyslogPriority( p ); VC_CHECK( goodSeverity( p, a ) && goodSeverity( p, b ), "severity", "%d %d", a, b ); VC_CHECK( SyslogAppender::toSyslogPriority( p - 1 ) <= a && RemoteSyslogAppender::toSyslogPriority( p - 1 ) <= b, "monotone", "%d", p ); VC_OUT( "%d", a ); }
	for( int p : { -2147483647, 2147483646, 100000 } ) if( vc::next( "severity of priority %d", p ) ) VC_CHECK( goodSeverity( p, SyslogAppender::toSyslogPriority( p ) ) && goodSeverity( p, RemoteSyslogAppender::toSyslogPriority( p ) ), "severity", "%d", p );
}
static void local()
{
	static const char* names[] = { "app", "", "%s%n", "a name with spaces" };
	for( int f : FAC ) for( const char* n : names ) for( int p = 0; p <= 800; p += 50 ) for( int style = 0; style < 3; style++ ) for( size_t len : { 0, 1, 40, 2000 } )
	{
		if( !vc::next( "local syslog '%s' facility %d priority %d text style %d of %zu bytes", n, f >> 3, p, style, len ) ) continue;
		vc::state(); g_sent.clear(); { std::unique_ptr< SyslogAppender > a( f == LOG_USER && style ? new SyslogAppender( "s", n ) : new SyslogAppender( "s", n, f ) ); a->setLayout( new Plain ); VC_CHECK( g_open && effective() == f, "facility", "%d", effective() ); a->doAppend( ev( textOf( len, style ), p ) ); vc::step();
			VC_CHECK( g_sent.size() == 1, "count", "%zu", g_sent.size() ); for( auto& s : g_sent ) { int fac = s.pri & ~7; if( fac == 0 ) fac = effective(); VC_CHECK( fac == f && goodSeverity( p, s.pri & 7 ), "priority", "%d for %d", s.pri, p ); VC_CHECK( s.text == textOf( len, style ), "text", "%s", s.text.substr( 0, 50 ).c_str() ); VC_CHECK( s.ident == n, "name", "%s", s.ident.c_str() ); }
			if( p % 100 == 0 ) { a->setThreshold( 300 ); g_sent.clear(); a->doAppend( ev( "x", p ) ); VC_CHECK( g_sent.size() == ( p <= 300 ? 1u : 0u ), "threshold", "%zu", g_sent.size() ); }
			VC_CHECK( a->reopen() && g_open && effective() == f && g_ident && std::string( g_ident ) == n, "reopen", "%d", g_open ); g_sent.clear(); a->setThreshold( Priority::NOTSET ); a->doAppend( ev( "again", 300 ) ); VC_CHECK( g_sent.size() == 1 && g_sent[ 0 ].text == "again" && g_sent[ 0 ].ident == n, "reopened", "%zu", g_sent.size() );
		}
		VC_CHECK( !g_open, "closed", "%s", "still open" ); VC_OUT( "%d %d", f, p );
	}
}
static void remote()
{
	// every message length around the packet limit, for preambles of three, four and five characters
	for( int f : { LOG_KERN, LOG_USER, LOG_LOCAL7 } ) for( int p : { 0, 300, 700 } ) for( size_t len = 0; len <= (size_t)vc::pick( 2750, 5500 ); len += ( len > 20 && ( len + 40 ) % 900 > 60 && !vc::thorough() ) ? 7 : 1 )
	{
		if( !vc::next( "remote syslog facility %d priority %d, %zu bytes", f >> 3, p, len ) ) continue;
		vc::state(); Server s( "127.0.0.1" ); RemoteSyslogAppender a( "r", "name", "127.0.0.1", f, s.port ); a.setLayout( new Plain ); std::string t = textOf( len, len % 3 ); if( len % 5 == 4 ) t[ len / 2 ] = 0; a.doAppend( ev( t, p ) ); vc::step(); auto d = s.get( 300, len ? len + 3 : 0 ); if( !len && !d.empty() ) checkRemote( d, f, p, t, "empty" ); if( len ) checkRemote( d, f, p, t, "message" ); VC_CHECK( len == 0 || d.size() <= len / 880 + 1, "packets", "%zu datagrams", d.size() ); VC_OUT( "%zu", d.size() );
	}
	for( int f : FAC ) for( int p = -100; p <= 900; p += 25 ) if( vc::next( "remote syslog facility %d priority %d", f >> 3, p ) )
	{ vc::state(); Server s( "127.0.0.1" ); RemoteSyslogAppender a( "r", "name", "localhost", f, s.port ); a.setLayout( new SimpleLayout ); a.doAppend( ev( "text", p ) ); vc::step(); checkRemote( s.get( 300, 6 ), f, p, SimpleLayout().format( ev( "text", p ) ), "simple" ); RemoteSyslogAppender b( "r2", "name", "127.0.0.1", -1, s.port ); b.setLayout( new Plain ); b.doAppend( ev( "default", p ) ); checkRemote( s.get( 300, 6 ), LOG_USER, p, "default", "default facility" ); VC_OUT( "%d %d", f, p ); }
	// the address: exactly the one asked for
	static const char* hosts[] = { "127.0.0.1", "127.0.0.2", "127.1.2.3", "127.255.0.9" };
	for( int h = 0; h < 4; h++ ) if( vc::next( "relayer %s", hosts[ h ] ) )
	{ vc::state(); Server s( hosts[ h ] ); if( s.fd < 0 ) { vc::note( "loopback address not available" ); continue; } std::vector< std::unique_ptr< Server > > o; for( int k = 0; k < 4; k++ ) if( k != h ) o.push_back( std::unique_ptr< Server >( new Server( hosts[ k ], s.port ) ) ); RemoteSyslogAppender a( "r", "n", hosts[ h ], LOG_USER, s.port ); a.setLayout( new Plain ); for( int i = 0; i < 3; i++ ) { a.doAppend( ev( "to you", 300 ) ); checkRemote( s.get( 300, 6 ), LOG_USER, 300, "to you", hosts[ h ] ); a.reopen(); vc::step(); } for( auto& x : o ) if( x->fd >= 0 ) VC_CHECK( x->get( 0, 0 ).empty(), "other-host", "%s", hosts[ h ] ); VC_OUT( "%s", hosts[ h ] ); }
}
// all sequences of calls, with three kinds of descriptor zero, with a resolvable and an unknown relayer
enum Op { LOG_, LONG_, REOPEN, CLOSE, RENEW, SECOND, NOP };
static const char* ON[] = { "log", "long log", "reopen", "close", "new appender", "second appender logs" };
static void sequences( int depth )
{
	int total = 1; for( int i = 0; i < depth; i++ ) total *= NOP;
	for( int zero = 0; zero < 3; zero++ ) for( int known = 0; known < 2; known++ ) for( int code = 0; code < total; code++ )
	{
		std::string d; std::vector< int > ops; for( int i = 0, c = code; i < depth; i++, c /= NOP ) { ops.push_back( c % NOP ); d += std::string( i ? "; " : "" ) + ON[ c % NOP ]; }
		if( !vc::next( "%s relayer, standard input %s: %s", known ? "known" : "unknown", zero == 0 ? "a file" : zero == 1 ? "a socket" : "closed", d.c_str() ) ) continue;
		vc::state(); Server s( "127.0.0.1" ); int keep = fcntl( 0, F_DUPFD, 100 ); if( zero == 0 ) { int n = ::open( "/dev/null", O_RDWR ); dup2( n, 0 ); ::close( n ); } else if( zero == 1 ) { int n = socket( AF_INET, SOCK_DGRAM, 0 ); dup2( n, 0 ); ::close( n ); } else ::close( 0 );
		int n0 = fds(); bool open = known; auto make = [ & ]() { RemoteSyslogAppender* a = new RemoteSyslogAppender( "r", "n", known ? "127.0.0.1" : "no.such.host.invalid", LOG_DAEMON, s.port ); a->setLayout( new Plain ); return a; }; std::unique_ptr< RemoteSyslogAppender > a( make() ); std::string log;
		for( size_t i = 0; i < ops.size(); i++ )
		{
			vc::step(); std::string at = vc::fmt( "step %zu %s", i, ON[ ops[ i ] ] ), want; std::vector< std::string > got;
			switch( ops[ i ] )
			{
			case LOG_: case LONG_: want = textOf( ops[ i ] == LOG_ ? 10 + i : 2000, 0 ); a->doAppend( ev( want, 400 ) ); got = s.get( open ? 300 : 0, open ? want.size() + 4 : 0 ); if( open ) checkRemote( got, LOG_DAEMON, 400, want, at.c_str() ); else VC_CHECK( got.empty(), "closed", "%s: %zu datagrams", at.c_str(), got.size() ); break;
			case REOPEN: a->reopen(); open = known; break;
			case CLOSE: a->close(); open = false; break;
			case RENEW: a.reset(); VC_CHECK( fds() == n0, "descriptors", "%s: %d left", at.c_str(), fds() - n0 ); a.reset( make() ); open = known; break;
			case SECOND: { std::unique_ptr< RemoteSyslogAppender > b( make() ); b->doAppend( ev( "second", 0 ) ); got = s.get( known ? 300 : 0, known ? 6 : 0 ); if( known ) checkRemote( got, LOG_DAEMON, 0, "second", at.c_str() ); else VC_CHECK( got.empty(), "closed", "%s", at.c_str() ); break; }
			}
			int mine = fds() - n0; VC_CHECK( open ? mine == 1 : known ? mine == 0 : mine <= 1, "descriptors", "%s: %d open", at.c_str(), mine ); log += vc::fmt( "%zu%d", got.size(), open );
		}
		a.reset(); VC_CHECK( fds() == n0, "descriptors", "%d left at the end", fds() - n0 ); vc::outcome( log ); if( keep >= 0 ) { dup2( keep, 0 ); ::close( keep ); } else ::close( 0 );
	}
}
static void clean() { Category::shutdown(); Category& c = Category::getInstance( "sys.log" ); c.setPriority( Priority::NOTSET ); Category::getInstance( "other" ).setPriority( Priority::NOTSET ); Category::getRoot().setPriority( Priority::INFO ); }
static void configured()
{
	// property files: facility left out, given as a code; every order of the options
	for( int fac = -1; fac < 24; fac++ ) for( int loc = 0; loc < 2; loc++ ) for( int order = 0; order < 6; order++ )
	{
		if( !vc::next( "property file, %s syslog, facility %s%d, order %d", loc ? "local" : "remote", fac < 0 ? "left out " : "", fac, order ) ) continue;
		vc::state(); Server s( "127.0.0.1" ); std::vector< std::string > o; if( fac >= 0 ) o.push_back( vc::fmt( "appender.S.facility=%d", fac ) ); o.push_back( "appender.S.syslogName=my program" ); if( !loc ) { o.push_back( vc::fmt( "appender.S.portNumber=%d", s.port ) ); o.push_back( "appender.S.syslogHost=127.0.0.1" ); } for( int k = 0; k < order; k++ ) std::next_permutation( o.begin(), o.end() );
		std::string text = std::string( "rootCategory=DEBUG, S\nappender.S=" ) + ( loc ? "LocalSyslogAppender" : "SyslogAppender" ) + "\nappender.S.layout=SimpleLayout\n"; for( auto& l : o ) text += l + "\n"; g_sent.clear(); { FILE* fp = fopen( "p.cfg", "wb" ); fwrite( text.data(), 1, text.size(), fp ); fclose( fp ); }
		try { PropertyConfigurator::configure( "p.cfg" ); } catch( const ConfigureFailure& e ) { vc::fail( "refused", e.what() ); continue; } vc::step();
		int want = fac < 0 ? LOG_USER : fac * 8; std::string line = SimpleLayout().format( ev( "hello", 300 ) ); Category::getInstance( "sys.log" ).log( 300, "hello" );
		if( loc ) { VC_CHECK( g_sent.size() == 1, "count", "%zu", g_sent.size() ); for( auto& m : g_sent ) { VC_CHECK( m.pri >= 0 && m.pri < 192, "facility", "priority word %d", m.pri ); int f = m.pri & ~7; if( !f ) f = effective(); VC_CHECK( f == want && ( m.pri & 7 ) == LOG_ERR, "facility", "%d instead of %d", f, want ); VC_CHECK( m.text == line && m.ident == "my program", "text", "%s %s", m.ident.c_str(), m.text.c_str() ); } }
		else checkRemote( s.get( 300, line.size() ), want, 300, line, "property file" );
		clean(); VC_OUT( "%d %d", fac, loc );
	}
	// simple files: an optional facility (and port), followed by nothing, a pattern, and further commands
	for( int kind = 0; kind < 4; kind++ ) for( int fac = -1; fac < 24; fac += 5 ) for( int lay = 0; lay < 3; lay++ ) for( int after = 0; after < 5; after++ )
	{
		if( kind == 3 && fac < 0 ) continue;
		if( !vc::next( "simple file, %s, facility %d, layout %d, continuation %d", kind == 0 ? "local" : kind == 1 ? "remote" : kind == 2 ? "remote by name" : "remote with port", fac, lay, after ) ) continue;
		vc::state(); Server s( "127.0.0.1" ), s514( "127.5.1.4", 514 ); std::string pat = lay == 2 ? " %m|%c" : "", f = fac >= 0 ? vc::fmt( " %d", fac ) : "", text = "priority sys.log DEBUG\nappender sys.log " + std::string( lay == 0 ? "simple" : lay == 1 ? "basic" : "pattern" ) + ( kind == 0 ? " syslog prog" + f : kind == 3 ? " remotesyslog prog 127.0.0.1" + f + vc::fmt( " %d", s.port ) : std::string( " remotesyslog prog " ) + ( kind == 1 ? "127.5.1.4" : "localhost" ) + f ) + pat;
		static const char* more[] = { "", "\n", "\npriority other CRIT\n", "\n# a comment\npriority other CRIT", "\ncategory a.b\npriority other CRIT\nappender other simple syslog two\npriority root ALERT\n" }; text += more[ after ];
		std::istringstream in( text ); g_sent.clear(); try { SimpleConfigurator::configure( in ); } catch( const ConfigureFailure& e ) { vc::fail( "refused", e.what() ); clean(); continue; } vc::step();
		Category& c = Category::getInstance( "sys.log" ); VC_CHECK( c.getPriority() == Priority::DEBUG && c.getAllAppenders().size() == 1, "appender", "%zu appenders", c.getAllAppenders().size() );
		VC_CHECK( Category::getInstance( "other" ).getPriority() == ( after >= 2 ? Priority::CRIT : Priority::NOTSET ), "continuation", "level %d", (int)Category::getInstance( "other" ).getPriority() ); if( after == 4 ) VC_CHECK( Category::getRoot().getPriority() == Priority::ALERT && Category::getInstance( "other" ).getAllAppenders().size() == 1, "continuation", "%d", (int)Category::getRoot().getPriority() );
		if( kind == 1 && s514.fd >= 0 )
		{	// the standard port; a number in the file may mean the facility or its code
			c.log( 300, "hello" ); std::string all; for( auto& p : s514.get( 300, 5 ) ) { size_t i = p.find( '>' ); int v = p.size() > 1 ? atoi( p.c_str() + 1 ) : -1; VC_CHECK( i != std::string::npos && ( fac < 0 ? v == ( LOG_USER | LOG_ERR ) : fac % 8 ? true : v == ( fac | LOG_ERR ) || v == ( fac * 8 | LOG_ERR ) ), "facility", "%s", p.substr( 0, 6 ).c_str() ); all += i == std::string::npos ? p : p.substr( i + 1 ); } VC_CHECK( lay == 1 ? all.find( "ERROR sys.log : hello\n" ) != std::string::npos : all == ( lay == 2 ? "hello|sys.log" : SimpleLayout().format( ev( "hello", 300 ) ) ), "text", "%s", all.c_str() );
		}
		if( kind == 0 || kind == 3 )
		{
			g_sent.clear(); c.log( 300, "hello" ); std::string want = lay == 2 ? "hello|sys.log" : lay == 0 ? SimpleLayout().format( ev( "hello", 300 ) ) : "ERROR sys.log : hello\n"; auto fits = [ & ]( const std::string& t ) { return lay == 1 ? t.find( want ) != std::string::npos : t == want; };
			if( kind == 0 ) { VC_CHECK( g_sent.size() == 1, "count", "%zu", g_sent.size() ); for( auto& m : g_sent ) { int ff = m.pri & ~7; if( !ff ) ff = effective(); VC_CHECK( ( after == 4 || ff == ( fac < 0 ? LOG_USER : fac * 8 ) ) && ( m.pri & 7 ) == LOG_ERR, "facility", "%d", m.pri ); VC_CHECK( fits( m.text ), "text", "%s", m.text.c_str() ); if( after != 4 ) VC_CHECK( m.ident == "prog", "name", "%s", m.ident.c_str() ); } }
			else { std::string all; for( auto& p : s.get( 300, 5 ) ) { size_t i = p.find( '>' ); all += i == std::string::npos ? p : p.substr( i + 1 ); } VC_CHECK( fits( all ), "text", "%s", all.c_str() ); }
		}
		clean(); VC_OUT( "%d %d %d", kind, lay, after );
	}
}
static void body() { mapping(); local(); configured(); for( int d = 1; d <= vc::pick( 4, 5 ); d++ ) sequences( d ); remote(); }
VC_MAIN( body() )
