// Bounded-exhaustive exploration support shared by every harness in /verif.
//
// A harness enumerates a finite space of executions in a fixed order.  Every execution is a "case":
//   if( vc::next( "fmt", ... ) ) { run the case on the real code; VC_CHECK(...) against the model }
// vc::next numbers cases; the runner partitions the numbers over VC_NSHARD processes, and replays a
// single case with VC_ONLY=<number>.  Counters and distinct-outcome hashes are measured, never assumed.
#ifndef VC_HPP
#define VC_HPP
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <csignal>
#include <string>
#include <vector>
#include <set>
#include <unordered_set>
#include <exception>
#include <sstream>
#include <unistd.h>
#include <fcntl.h>
#include <sys/time.h>

extern "C" void __sanitizer_set_death_callback( void (*)( void ) ) __attribute__(( weak ));

namespace vc {

struct State
{
	uint64_t caseNo = 0;        // cases enumerated so far (over all shards)
	uint64_t evaluated = 0;     // cases run by this shard
	uint64_t states = 0;        // model states / configurations visited
	uint64_t transitions = 0;   // operations applied to the implementation and compared with the model
	uint64_t checks = 0;        // oracle comparisons
	uint64_t shard = 0, nshard = 1;
	int64_t only = -1;
	bool thorough = false;
	bool running = false;
	bool trace = false;
	unsigned hangLimit = 60;
	std::unordered_set< uint64_t > outcomes;
	std::set< std::string > keys;
	std::set< std::string > notes;
	std::vector< std::string > samples;
	char desc[ 1 << 15 ];
	int outFd = 1;
	volatile uint64_t tick = 0;
	uint64_t lastTick = 0; unsigned sameTicks = 0;
	volatile unsigned seconds = 0, failedAt = 0;   // seconds of the run; when the first violation was seen
	bool finished = false;
};

inline State& S() { static State* s = new State; return *s; }

inline void emitRaw( const char* p, size_t n )
{ while( n ) { ssize_t r = ::write( S().outFd, p, n ); if( r <= 0 ) break; p += r; n -= r; } }

inline void emitEsc( const char* s )
{
	char buf[ 8 ];
	for( ; *s; ++s )
	{
		unsigned char c = (unsigned char)*s;
		if( c == '"' || c == '\\' ) { buf[ 0 ] = '\\'; buf[ 1 ] = c; emitRaw( buf, 2 ); }
		else if( c < 0x20 || c >= 0x7f )
		{ static const char* h = "0123456789abcdef"; memcpy( buf, "\\u00", 4 ); buf[ 4 ] = h[ c >> 4 ]; buf[ 5 ] = h[ c & 15 ]; emitRaw( buf, 6 ); }
		else emitRaw( s, 1 );
	}
}

inline void emitNum( uint64_t v )
{ char b[ 24 ]; int i = 24; do { b[ --i ] = '0' + v % 10; v /= 10; } while( v ); emitRaw( b + i, 24 - i ); }

// async-signal-safe
inline void emitViolation( const char* kind, const char* key, const char* msg )
{
	emitRaw( "{\"kind\":\"", 9 ); emitEsc( kind ); emitRaw( "\",\"key\":\"", 9 ); emitEsc( key );
	emitRaw( "\",\"case\":", 9 ); emitNum( S().caseNo ? S().caseNo - 1 : 0 );
	emitRaw( ",\"desc\":\"", 9 ); emitEsc( S().desc ); emitRaw( "\",\"msg\":\"", 9 ); emitEsc( msg ); emitRaw( "\"}\n", 3 );
}

inline void onFatal( int sig )
{
	char m[ 32 ] = "fatal signal "; size_t n = strlen( m ); m[ n ] = '0' + sig / 10; m[ n + 1 ] = '0' + sig % 10; m[ n + 2 ] = 0;
	if( !S().finished ) emitViolation( "crash", "crash", m );
	S().finished = true;
	_exit( 3 );
}

inline void onDeath() { if( !S().finished ) emitViolation( "crash", "crash", "sanitizer report (see stderr)" ); S().finished = true; }

inline void onTick( int )
{
	State& s = S(); s.seconds = s.seconds + 1;
	if( s.tick != s.lastTick || !s.running ) { s.lastTick = s.tick; s.sameTicks = 0; return; }
	if( ++s.sameTicks >= s.hangLimit ) { emitViolation( "hang", "hang", "no progress within the time limit" ); s.finished = true; _exit( 4 ); }
}

inline void onExit()
{
	if( !S().finished ) { emitViolation( "crash", "exit", "process exited inside the code under test" ); S().finished = true; _exit( 5 ); }
}

inline void init( int argc, char** argv )
{
	State& s = S();
	s.desc[ 0 ] = 0;
	if( const char* e = getenv( "VC_SHARD" ) ) s.shard = strtoull( e, 0, 10 );
	if( const char* e = getenv( "VC_NSHARD" ) ) s.nshard = strtoull( e, 0, 10 );
	if( const char* e = getenv( "VC_ONLY" ) ) s.only = strtoll( e, 0, 10 );
	if( const char* e = getenv( "VC_HANG" ) ) s.hangLimit = (unsigned)strtoul( e, 0, 10 );
	if( const char* e = getenv( "VC_TIER" ) ) s.thorough = strcmp( e, "thorough" ) == 0;
	if( getenv( "VC_TRACE" ) ) s.trace = true;
	if( const char* e = getenv( "VC_OUT" ) ) s.outFd = ::open( e, O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644 );
	bool asan = &__sanitizer_set_death_callback != 0;
	if( asan ) __sanitizer_set_death_callback( onDeath );
	static char altstack[ 65536 ];
	stack_t ss; memset( &ss, 0, sizeof ss ); ss.ss_sp = altstack; ss.ss_size = sizeof altstack;
	struct sigaction sa; memset( &sa, 0, sizeof sa ); sa.sa_handler = onFatal;
	if( !asan )
	{
		sigaltstack( &ss, 0 ); sa.sa_flags = SA_ONSTACK;
		int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL };
		for( int g : sigs ) sigaction( g, &sa, 0 );
	}
	sigaction( SIGABRT, &sa, 0 ); sigaction( SIGTRAP, &sa, 0 );
	struct sigaction st; memset( &st, 0, sizeof st ); st.sa_handler = onTick; st.sa_flags = SA_RESTART;
	sigaction( SIGALRM, &st, 0 );
	if( !getenv( "VC_NOTIMER" ) )
	{ struct itimerval iv; iv.it_interval.tv_sec = 1; iv.it_interval.tv_usec = 0; iv.it_value = iv.it_interval; setitimer( ITIMER_REAL, &iv, 0 ); }
	atexit( onExit );
}

inline bool thorough() { return S().thorough; }
inline int pick( int q, int t ) { return S().thorough ? t : q; }

// does the current shard own the next case?  fmt describes it completely
inline bool next( const char* fmt, ... ) __attribute__(( format( printf, 1, 2 ) ));
inline bool next( const char* fmt, ... )
{
	State& s = S();
	uint64_t n = s.caseNo++;
	s.tick = s.tick + 1;
	if( s.only >= 0 ? (int64_t)n != s.only : n % s.nshard != s.shard ) return false;
	// a violation has been found: the rest is explored for a while only
	if( s.failedAt && s.seconds > s.failedAt + 60 ) { s.notes.insert( "exploration ended early after a violation" ); return false; }
	va_list ap; va_start( ap, fmt ); vsnprintf( s.desc, sizeof s.desc, fmt, ap ); va_end( ap );
	s.running = true;
	++s.evaluated;
	if( s.trace ) { fprintf( stderr, "case %llu: %s\n", (unsigned long long)n, s.desc ); }
	if( s.samples.size() < 3 || ( ( s.evaluated & ( s.evaluated - 1 ) ) == 0 && s.samples.size() < 24 ) ) s.samples.push_back( s.desc );
	return true;
}

inline void describeMore( const std::string& m )
{ State& s = S(); size_t n = strlen( s.desc ); snprintf( s.desc + n, sizeof s.desc - n, "%s", m.c_str() ); if( s.trace ) fprintf( stderr, "  +%s\n", m.c_str() ); }

inline void state( uint64_t n = 1 ) { S().states += n; }
// fill the unused stack with a bit pattern, so that uninitialised results differ from anything sensible
__attribute__(( noinline )) inline void dirty() { volatile unsigned char a[ 1 << 15 ]; for( size_t i = 0; i < sizeof a; i++ ) a[ i ] = i % 8 == 7 ? 0x41 : 0x5a; }
inline void step( uint64_t n = 1 ) { S().transitions += n; S().tick = S().tick + 1; }

inline uint64_t hashBytes( const void* p, size_t n, uint64_t h = 1469598103934665603ull )
{ const unsigned char* c = (const unsigned char*)p; while( n-- ) { h ^= *c++; h *= 1099511628211ull; } return h; }
inline void outcome( uint64_t h ) { S().outcomes.insert( h ); }
inline void outcome( const std::string& s ) { outcome( hashBytes( s.data(), s.size() ) ); }
inline uint64_t quant( double d ) { if( !( d == d ) ) return 7; double q = std::floor( d * 1e4 + 0.5 ); if( q == 0 ) q = 0; return hashBytes( &q, sizeof q ); }
inline void outcomeD( double d ) { outcome( quant( d ) ); }

inline void note( const std::string& n ) { S().notes.insert( n ); }

// a violation; key identifies the kind of failure (known findings are matched on it)
inline void fail( const std::string& key, const std::string& msg )
{
	State& s = S();
	if( s.keys.count( key ) || s.keys.size() >= 64 ) return;
	s.keys.insert( key ); if( !s.failedAt ) s.failedAt = s.seconds + 1;
	emitViolation( "property", key.c_str(), msg.c_str() );
	if( s.trace || s.only >= 0 ) fprintf( stderr, "FAIL %s: %s\n   case: %s\n", key.c_str(), msg.c_str(), s.desc );
}
inline void checked() { ++S().checks; }

inline std::string fmt( const char* f, ... ) __attribute__(( format( printf, 1, 2 ) ));
inline std::string fmt( const char* f, ... )
{ char b[ 4096 ]; va_list ap; va_start( ap, f ); vsnprintf( b, sizeof b, f, ap ); va_end( ap ); return b; }

inline bool finite( double d ) { return d == d && d <= 1e300 && d >= -1e300; }
// |a-b| <= tol * max(1,|b|)
inline bool close( double a, double b, double tol = 1e-6 )
{ if( !finite( a ) || !finite( b ) ) return false; return std::fabs( a - b ) <= tol * ( std::fabs( b ) > 1 ? std::fabs( b ) : 1.0 ); }

inline int finish()
{
	State& s = S();
	s.finished = true;
	struct itimerval iv; memset( &iv, 0, sizeof iv ); setitimer( ITIMER_REAL, &iv, 0 );
	std::ostringstream os;
	os << "{\"kind\":\"summary\",\"cases\":" << s.caseNo << ",\"evaluated\":" << s.evaluated << ",\"states\":" << s.states
		<< ",\"transitions\":" << s.transitions << ",\"checks\":" << s.checks << ",\"outcomes\":" << s.outcomes.size() << ",\"samples\":[";
	std::string t = os.str(); emitRaw( t.data(), t.size() );
	for( size_t i = 0; i < s.samples.size(); ++i ) { if( i ) emitRaw( ",", 1 ); emitRaw( "\"", 1 ); emitEsc( s.samples[ i ].substr( 0, 300 ).c_str() ); emitRaw( "\"", 1 ); }
	emitRaw( "],\"notes\":[", 11 );
	bool first = true;
	for( auto& n : s.notes ) { if( !first ) emitRaw( ",", 1 ); first = false; emitRaw( "\"", 1 ); emitEsc( n.c_str() ); emitRaw( "\"", 1 ); }
	emitRaw( "]}\n", 3 );
	if( const char* e = getenv( "VC_OUT" ) )
	{
		FILE* f = fopen( ( std::string( e ) + ".h" ).c_str(), "wb" );
		if( f ) { size_t cnt = 0; for( uint64_t h : s.outcomes ) { fwrite( &h, 8, 1, f ); if( ++cnt > 2000000 ) break; } fclose( f ); }
	}
	fflush( stdout );
	return s.keys.empty() ? 0 : 1;
}

} // namespace vc

// condition must hold; key names the clause of the property
#define VC_OUT( ... ) vc::outcome( vc::fmt( __VA_ARGS__ ) )
#define VC_NEAR( got, want, tol, key, ... ) do { vc::checked(); double g_ = ( got ), w_ = ( want ); if( !( std::fabs( g_ - w_ ) <= ( tol ) ) ) vc::fail( key, vc::fmt( __VA_ARGS__ ) + vc::fmt( ": got %.12g, expected %.12g", g_, w_ ) ); } while( 0 )
#define VC_CHECK( cond, key, ... ) do { vc::checked(); if( !( cond ) ) vc::fail( key, vc::fmt( __VA_ARGS__ ) ); } while( 0 )
#define VC_CLOSE( a, b, tol, key ) do { vc::checked(); double va_ = ( a ), vb_ = ( b ); if( !vc::close( va_, vb_, tol ) ) vc::fail( key, vc::fmt( "got %.12g expected %.12g (%s)", va_, vb_, #a ) ); } while( 0 )
// run statements that must not throw
#define VC_NOTHROW_BEGIN try {
#define VC_NOTHROW_END( key ) } catch( const std::exception& e_ ) { vc::fail( key, std::string( "unexpected exception: " ) + e_.what() ); } catch( ... ) { vc::fail( key, "unexpected exception" ); }

#define VC_MAIN( body ) int main( int argc, char** argv ) { vc::init( argc, argv ); \
	try { body; } catch( const std::exception& e_ ) { vc::fail( "exception", std::string( "uncaught exception: " ) + e_.what() ); } catch( ... ) { vc::fail( "exception", "uncaught exception" ); } \
	return vc::finish(); }
#endif
