// U01: the serial port driver over pseudo terminals: settings, call sequences, faults.
#include "vc.hpp"
#include <utUtil/SerialPort.h>
#undef N
#undef O
#undef E
#include <utUtil/Exception.h>
#include <cerrno>
#include <memory>
#include <poll.h>
#include <sys/ioctl.h>
#include <termios.h>
using Ubitrack::Util::SerialPort;
// ---- seen and injected at the system interface
static struct termios g_set; static int g_sets = 0; static int g_failSet = 0, g_failGet = 0, g_failWrite = 0, g_failRead = 0, g_fault = 0; static long g_short = -1;
extern "C" {
int __real_tcsetattr( int, int, const struct termios* ); int __real_tcgetattr( int, struct termios* ); ssize_t __real_write( int, const void*, size_t ); ssize_t __real_read( int, void*, size_t );
int __wrap_tcsetattr( int fd, int how, const struct termios* t ) { if( g_failSet ) { g_fault = 1; errno = EIO; return -1; } g_set = *t; g_sets++; return __real_tcsetattr( fd, how, t ); }
int __wrap_tcgetattr( int fd, struct termios* t ) { if( g_failGet ) { g_fault = 1; errno = EIO; return -1; } return __real_tcgetattr( fd, t ); }
ssize_t __wrap_write( int fd, const void* p, size_t n ) { if( g_failWrite ) { g_fault = 1; errno = EIO; return -1; } if( g_short >= 0 && n > (size_t)g_short ) { n = g_short; g_short = -1; g_fault = 1; } return __real_write( fd, p, n ); }
ssize_t __wrap_read( int fd, void* p, size_t n ) { if( g_failRead ) { g_fault = 1; errno = EIO; return -1; } return __real_read( fd, p, n ); }
}
struct Faults { ~Faults() { g_failSet = g_failGet = g_failWrite = g_failRead = 0; g_short = -1; } };
static int fds() { int n = 0; for( int i = 0; i < 128; i++ ) if( fcntl( i, F_GETFD ) != -1 ) n++; return n; }
static struct termios norm( struct termios t ) { t.c_line = 0; return t; }
static bool same( const struct termios& a, const struct termios& b ) { return a.c_iflag == b.c_iflag && a.c_oflag == b.c_oflag && a.c_cflag == b.c_cflag && a.c_lflag == b.c_lflag && !memcmp( a.c_cc, b.c_cc, sizeof a.c_cc ); }

// a pseudo terminal: the harness holds the far end and a descriptor of its own on the near one
struct Pty
{
	int m, s; std::string name;
	Pty( bool cooked )
	{
		m = posix_openpt( O_RDWR | O_NOCTTY ); if( m < 0 || grantpt( m ) || unlockpt( m ) ) { perror( "pty" ); _exit( 9 ); }
		name = ptsname( m ); s = ::open( name.c_str(), O_RDWR | O_NOCTTY );
		struct termios t; __real_tcgetattr( s, &t ); if( !cooked ) cfmakeraw( &t ); t.c_cc[ VTIME ] = 7; t.c_cc[ VMIN ] = 9; cfsetispeed( &t, B4800 ); cfsetospeed( &t, B4800 ); __real_tcsetattr( s, TCSANOW, &t );
	}
	~Pty() { if( m >= 0 ) ::close( m ); ::close( s ); }
	struct termios attr() { struct termios t; memset( &t, 0, sizeof t ); __real_tcgetattr( s, &t ); return norm( t ); }
	// wait until the near end has that many bytes
	void arrived( int n ) { for( int i = 0; i < 200000; i++ ) { int a = 0; ioctl( s, FIONREAD, &a ); if( a >= n ) return; if( i > 100 ) usleep( 20 ); vc::step( 0 ); } vc::note( "terminal slow" ); }
	void put( const std::string& d ) { if( __real_write( m, d.data(), d.size() ) != (ssize_t)d.size() ) vc::note( "terminal full" ); }
	std::string get( size_t n )
	{
		std::string r; for( int tries = 0; tries < 40; tries++ )
		{ struct pollfd p = { m, POLLIN, 0 }; int k = ::poll( &p, 1, r.size() < n ? 50 : 0 ); if( k > 0 && ( p.revents & POLLIN ) ) { char b[ 4096 ]; ssize_t c = __real_read( m, b, sizeof b ); if( c > 0 ) r.append( b, c ); } else if( r.size() >= n ) break; }
		return r;
	}
};
template< class F > static bool throws( F f ) { try { f(); return false; } catch( const Ubitrack::Util::Exception& ) { return true; } }

static void settings()
{
	struct B { unsigned long v; speed_t s; }; static const B bauds[] = { { 9600, B9600 }, { 19200, B19200 }, { 38400, B38400 }, { 57600, B57600 }, { 115200, B115200 }, { 230400, B230400 }, { 0, 0 }, { 50, 0 }, { 9601, 0 }, { 14400, 0 }, { 460801, 0 }, { 4294967295ul, 0 } };
	static const int times[][ 2 ] = { { 5, 0 }, { 0, 0 }, { 0, 1 }, { 255, 17 } };
	for( auto& b : bauds ) for( int bits = 5; bits <= 8; bits++ ) for( int par = 0; par < 3; par++ ) for( int stop = 1; stop <= 2; stop++ ) for( auto& tm : times ) for( int cooked = 0; cooked < 2; cooked++ )
	{
		if( !vc::next( "settings %lu baud %d bits parity %d stop %d vtime %d vmin %d on a %s terminal", b.v, bits, par, stop, tm[ 0 ], tm[ 1 ], cooked ? "cooked" : "raw" ) ) continue;
		Pty t( cooked ); struct termios before = t.attr(); int n0 = fds(); g_sets = 0;
		{
			SerialPort p( t.name, b.v, bits, par, stop ); vc::state();
			VC_CHECK( p.getBaudRate() == b.v, "rate", "%lu", p.getBaudRate() );
			bool th = throws( [ & ]() { p.open( tm[ 0 ], tm[ 1 ] ); } ); vc::step();
			if( !b.s ) { VC_CHECK( th, "unsupported-rate", "%s", "accepted" ); VC_CHECK( fds() == n0 && g_sets == 0, "unsupported-rate-effect", "%d", fds() - n0 ); continue; }
			VC_CHECK( !th, "open", "%s", "refused" ); if( th ) continue;
			VC_CHECK( fds() == n0 + 1, "descriptors", "%d", fds() - n0 );
			struct termios a = t.attr();
			VC_CHECK( cfgetospeed( &a ) == b.s && cfgetispeed( &a ) == b.s, "speed", "%lx", (unsigned long)cfgetospeed( &a ) );
			VC_CHECK( !( a.c_lflag & ( ICANON | ECHO | ISIG | IEXTEN | ECHONL ) ) && !( a.c_oflag & OPOST ) && !( a.c_iflag & ( ICRNL | INLCR | IGNCR | ISTRIP | IXON ) ), "raw", "%x %x %x", a.c_lflag, a.c_oflag, a.c_iflag );
			VC_CHECK( a.c_cc[ VTIME ] == tm[ 0 ] && a.c_cc[ VMIN ] == tm[ 1 ], "timeouts", "%d %d", a.c_cc[ VTIME ], a.c_cc[ VMIN ] );
			VC_CHECK( ( a.c_cflag & CREAD ) && ( a.c_cflag & CLOCAL ), "receiver", "%x", a.c_cflag );
			if( g_sets )	// pseudo terminals force eight bits, so the request itself is looked at
			{
				static const tcflag_t cs[] = { CS5, CS6, CS7, CS8 }; tcflag_t c = g_set.c_cflag;
				VC_CHECK( ( c & CSIZE ) == cs[ bits - 5 ], "bits", "%x", c ); VC_CHECK( !( c & PARENB ) == ( par == 0 ) && ( par == 0 || !( c & PARODD ) == ( par == 2 ) ), "parity", "%x", c );
				VC_CHECK( !( c & CSTOPB ) == ( stop == 1 ), "stop", "%x", c );
			}
			else vc::note( "settings made in another way: bits and parity not visible" );
			p.close(); vc::step(); VC_CHECK( fds() == n0, "descriptors", "%d left", fds() - n0 ); struct termios r = t.attr(); VC_CHECK( same( r, before ), "restored", "%x %x %x %x", r.c_iflag, r.c_oflag, r.c_cflag, r.c_lflag );
			VC_OUT( "%lu %x %x", b.v, g_set.c_cflag, g_set.c_iflag );
		}
		VC_CHECK( fds() == n0, "descriptors", "%d left", fds() - n0 );
	}
}
// every byte value, alone and together, in both directions, in all chunk sizes
static void bytes()
{
	for( int chunk = 1; chunk <= 256; chunk++ ) for( int cooked = 0; cooked < 2; cooked++ )
	{
		if( !vc::next( "all byte values in chunks of %d, %s terminal", chunk, cooked ? "cooked" : "raw" ) ) continue;
		Pty t( cooked ); SerialPort p( t.name, 9600 ); p.open( 0, 0 ); std::string all; for( int i = 0; i < 256; i++ ) all += (char)i; vc::state();
		std::string got; unsigned long acc = 0; for( int i = 0; i < 256; i += chunk ) { int n = std::min( chunk, 256 - i ); acc += p.send( (const unsigned char*)all.data() + i, n ); got += t.get( n ); vc::step(); }
		VC_CHECK( acc == 256 && got == all, "sent-bytes", "%lu accepted, %zu arrived", acc, got.size() );
		std::string in; for( int i = 0; i < 256; i += chunk ) { std::string part = all.substr( i, chunk ); t.put( part ); t.arrived( part.size() ); VC_CHECK( p.bytesOnRead() == part.size(), "pending", "%lu", p.bytesOnRead() ); std::vector< unsigned char > b( chunk + 2, 0xee ); unsigned long r = p.read( &b[ 0 ], chunk ); vc::step(); in.append( (char*)&b[ 0 ], r ); VC_CHECK( r == part.size() && b[ chunk ] == 0xee, "read-size", "%lu", r ); }
		VC_CHECK( in == all, "read-bytes", "%zu", in.size() ); VC_OUT( "%d", chunk );
	}
}
enum Op { OPEN, CLOSE, SEND, SENDSHORT, SENDFAIL, READ2, READALL, READFAIL, PEER, AVAIL, FLUSH, BREAK, RENEW, OPENFAILSET, OPENFAILGET, HANGUP, NOP };
static const char* ON[] = { "open", "close", "send", "short send", "failing send", "read 2", "read", "failing read", "peer sends", "pending?", "flush", "break", "destroy", "open, settings refused", "open, settings unreadable", "peer hangs up" };
struct Model { bool open, dead; std::string in; };
static void sequence( const std::vector< int >& ops )
{
	Pty t( false ); struct termios before = t.attr(); int n0 = fds(); std::unique_ptr< SerialPort > p( new SerialPort( t.name, 115200 ) ); Model md = { false, false, "" }; int serial = 0; std::string log;
	for( size_t i = 0; i < ops.size(); i++ )
	{
		Faults off; g_fault = 0; bool th = false; std::string what; const std::string at = vc::fmt( "step %zu %s", i, ON[ ops[ i ] ] ); vc::step(); vc::state(); unsigned char buf[ 64 ]; memset( buf, 0xee, sizeof buf );
		auto received = [ & ]( unsigned long cap ) { unsigned long r = ~0ul; th = throws( [ & ]() { r = p->read( buf, cap ); } ); what = th ? "throws" : vc::fmt( "%lu", r ); if( !md.open ) { VC_CHECK( th, "closed", "%s", at.c_str() ); return; }
			if( md.dead ) { VC_CHECK( th || ( r <= md.in.size() && r <= cap && !memcmp( buf, md.in.data(), r ) ), "after-hangup", "%s %s", at.c_str(), what.c_str() ); if( !th && r <= md.in.size() ) md.in.erase( 0, r ); return; }
			if( g_fault ) { VC_CHECK( th, "read-error", "%s %s", at.c_str(), what.c_str() ); return; }
			unsigned long w = std::min< unsigned long >( cap, md.in.size() ); VC_CHECK( !th && r == w && !memcmp( buf, md.in.data(), w ) && buf[ w ] == 0xee, "read", "%s: %s instead of %lu", at.c_str(), what.c_str(), w ); md.in.erase( 0, w ); };
		switch( ops[ i ] )
		{
		case OPEN: case OPENFAILSET: case OPENFAILGET:
			g_failSet = ops[ i ] == OPENFAILSET; g_failGet = ops[ i ] == OPENFAILGET; th = throws( [ & ]() { p->open( 0, 0 ); } ); g_failSet = g_failGet = 0;
			if( md.open ) VC_CHECK( !th, "open-twice", "%s", at.c_str() ); else if( md.dead ) { VC_CHECK( th, "open-dead", "%s", at.c_str() ); } else if( g_fault ) VC_CHECK( th, "open-refused", "%s", at.c_str() ); else if( ops[ i ] == OPEN ) { VC_CHECK( !th, "open", "%s", at.c_str() ); }
			if( !md.open && !th ) md.open = true; break;
		case CLOSE: p->close(); md.open = false; break;
		case RENEW: p.reset( new SerialPort( t.name, 115200 ) ); md.open = false; break;
		case SEND: case SENDSHORT: case SENDFAIL:
		{
			std::string d = vc::fmt( "<%d>", serial++ ); unsigned long r = ~0ul; if( md.open ) { g_short = ops[ i ] == SENDSHORT ? 2 : -1; g_failWrite = ops[ i ] == SENDFAIL; }
			th = throws( [ & ]() { r = p->send( (const unsigned char*)d.data(), d.size() ); } ); g_short = -1; g_failWrite = 0; what = th ? "throws" : vc::fmt( "%lu", r );
			if( !md.open ) { VC_CHECK( th, "closed", "%s", at.c_str() ); break; } if( md.dead ) { VC_CHECK( th || r == 0, "after-hangup", "%s %s", at.c_str(), what.c_str() ); break; }
			std::string g = t.get( th ? 0 : std::min< size_t >( r, d.size() ) ); if( ops[ i ] == SEND || !g_fault ) VC_CHECK( !th && r == d.size() && g == d, "send", "%s: %s, arrived %s", at.c_str(), what.c_str(), g.c_str() );
			else if( th ) VC_CHECK( d.compare( 0, g.size(), g ) == 0 && g.size() <= d.size(), "send-error", "%s", g.c_str() ); else VC_CHECK( r <= d.size() && g == d.substr( 0, r ) && ( ops[ i ] != SENDFAIL || r == 0 ), "send-count", "%s: reported %s, arrived %s", at.c_str(), what.c_str(), g.c_str() );
			if( ops[ i ] == SENDFAIL && g_fault ) VC_CHECK( th || r == 0, "send-error", "%s", what.c_str() ); break;
		}
		case READ2: received( 2 ); break; case READALL: received( 40 ); break; case READFAIL: if( md.open ) g_failRead = 1; received( 3 ); g_failRead = 0; break;
		case PEER: if( !md.dead && md.in.size() < 30 ) { std::string d = vc::fmt( "{%d}", serial++ ); t.put( d ); md.in += d; t.arrived( md.in.size() ); } break;
		case AVAIL: { unsigned long r = ~0ul; th = throws( [ & ]() { r = p->bytesOnRead(); } ); what = th ? "throws" : vc::fmt( "%lu", r ); if( !md.open ) VC_CHECK( th, "closed", "%s", at.c_str() ); else if( md.dead ) { VC_CHECK( th || r <= md.in.size(), "after-hangup", "%s %s", at.c_str(), what.c_str() ); } else VC_CHECK( !th && r == md.in.size(), "pending", "%s: %s instead of %zu", at.c_str(), what.c_str(), md.in.size() ); break; }
		case FLUSH: th = throws( [ & ]() { p->flush(); } ); if( !md.open ) { int a = 0; if( !md.dead ) { ioctl( t.s, FIONREAD, &a ); VC_CHECK( (size_t)a == md.in.size(), "flush-closed", "%s: %d of %zu bytes left", at.c_str(), a, md.in.size() ); } } else if( !md.dead ) { VC_CHECK( !th, "flush", "%s", at.c_str() ); md.in.clear(); } break;
		case BREAK: th = throws( [ & ]() { p->sendBreak(); } ); if( md.open && !md.dead ) VC_CHECK( !th, "break", "%s", at.c_str() ); break;
		case HANGUP: if( !md.dead ) { ::close( t.m ); t.m = -1; md.dead = true; n0--; } break;
		}
		VC_CHECK( fds() == n0 + ( md.open ? 1 : 0 ), "descriptors", "%s: %d open", at.c_str(), fds() - n0 ); if( !md.open && !md.dead ) VC_CHECK( same( t.attr(), before ), "restored", "%s", at.c_str() ); log += th ? "x" : md.open ? "o" : "."; log += vc::fmt( "%zu", md.in.size() );
	}
	p.reset(); VC_CHECK( fds() == n0, "descriptors", "%d left at the end", fds() - n0 ); vc::outcome( log );
}
static void rec( std::vector< int >& ops, int depth )
{
	if( (int)ops.size() == depth ) { std::string d; for( int o : ops ) d += std::string( d.empty() ? "" : "; " ) + ON[ o ]; if( vc::next( "%s", d.c_str() ) ) sequence( ops ); return; }
	for( int o = 0; o < NOP; o++ )
	{
		if( o == OPENFAILGET && depth > 3 && ops.size() != 0 && ops.back() != CLOSE ) continue;	// the same branch as the refused settings
		ops.push_back( o ); rec( ops, depth ); ops.pop_back();
	}
}
// a port that was closed leaves another port, which may have got its descriptor, alone
static void two()
{
	for( int first = 0; first < 2; first++ ) for( int a = 0; a < 6; a++ ) for( int b = 0; b < 6; b++ )
	{
		if( !vc::next( "second port opened %s; calls %d, %d on the closed first port", first ? "after" : "before", a, b ) ) continue;
		Pty t1( false ), t2( false ); SerialPort p( t1.name, 9600 ), q( t2.name, 19200 ); vc::state(); int n0 = fds(); p.open( 0, 0 ); if( !first ) q.open( 0, 0 ); p.close(); if( first ) q.open( 0, 0 ); t2.put( "abc" ); t2.arrived( 3 ); struct termios before = t2.attr();
		for( int o : { a, b } ) { vc::step(); unsigned char c[ 8 ]; throws( [ & ]() { switch( o ) { case 0: p.close(); break; case 1: p.flush(); break; case 2: p.sendBreak(); break; case 3: p.read( c, 8 ); break; case 4: p.send( c, 8 ); break; case 5: p.bytesOnRead(); break; } } ); }
		VC_CHECK( fds() == n0 + 1, "other-closed", "%d", fds() - n0 ); unsigned char c[ 8 ]; unsigned long r = 0; bool th = throws( [ & ]() { r = q.read( c, 8 ); } ); VC_CHECK( !th && r == 3 && !memcmp( c, "abc", 3 ), "other-input", "%lu", r ); VC_CHECK( t2.get( 0 ).empty(), "other-output", "%s", "bytes" ); VC_CHECK( same( before, t2.attr() ), "other-settings", "%s", "changed" );
		VC_OUT( "%d", a * 6 + b );
	}
}
static void other()
{
	for( const char* path : { "/dev/null", "/nonexistent/tty", "", "/" } ) { if( !vc::next( "opening %s", path ) ) continue; int n0 = fds(); SerialPort p( path, 9600 ); vc::state(); for( int i = 0; i < 3; i++ ) { bool th = throws( [ & ]() { p.open(); } ); vc::step(); VC_CHECK( th && fds() == n0, "not-a-port", "%d %d", th, fds() - n0 ); unsigned char c[ 2 ]; VC_CHECK( throws( [ & ]() { p.read( c, 2 ); } ) && throws( [ & ]() { p.send( c, 2 ); } ) && throws( [ & ]() { p.bytesOnRead(); } ), "closed", "%s", "usable" ); p.close(); VC_CHECK( fds() == n0, "not-a-port-close", "%d", fds() - n0 ); } VC_OUT( "%s", path ); }
}
static void body() { settings(); bytes(); other(); two(); for( int d = 1; d <= vc::pick( 4, 5 ); d++ ) { std::vector< int > ops; rec( ops, d ); } }
VC_MAIN( body() )
