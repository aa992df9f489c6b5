// L04: the nested diagnostic context against a list model; per-thread privacy with threads stepped in every order.
#include "logrec.hpp"
#include <memory>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <functional>
using namespace log4cpp;
typedef std::vector< std::string > Ctx;
static std::string join( const Ctx& c ) { std::string s; for( size_t i = 0; i < c.size(); i++ ) s += ( i ? " " : "" ) + c[ i ]; return s; }
enum { PUSHA, PUSHBC, PUSHE, POP, CLEAR, CLONE, INHERIT, MAXD, NOPS };
static const char* N[] = { "push(a)", "push(b c)", "push()", "pop", "clear", "clone", "inherit", "setMaxDepth(1)" };
struct Th
{
	Ctx m; Ctx mclone; std::unique_ptr< NDC::ContextStack > clone;
	void apply( int o )
	{
		static const char* msg[] = { "a", "b c", "" };
		switch( o )
		{
		case PUSHA: case PUSHBC: case PUSHE: NDC::push( msg[ o ] ); m.push_back( msg[ o ] ); break;
		case POP: { std::string g = NDC::pop(), e; if( !m.empty() ) { e = m.back(); m.pop_back(); } VC_CHECK( g == e, "pop", "popped '%s' expected '%s'", g.c_str(), e.c_str() ); break; }
		case CLEAR: NDC::clear(); m.clear(); break;
		case CLONE: clone.reset( NDC::cloneStack() ); mclone = m; break;
		case INHERIT: if( clone ) { NDC::inherit( clone.get() ); m = mclone; } break;
		case MAXD: NDC::setMaxDepth( 1 ); break;
		}
		vc::step();
	}
	void verify( Category& c, RecAppender& a )
	{
		VC_CHECK( NDC::get() == join( m ), "get", "context '%s' expected '%s'", NDC::get().c_str(), join( m ).c_str() );
		VC_CHECK( NDC::getDepth() == m.size(), "depth", "%d expected %d", (int)NDC::getDepth(), (int)m.size() );
		a.got.clear(); c.fatal( "m" ); VC_CHECK( a.got.size() == 1 && a.got[ 0 ].ndc == join( m ), "event-context", "event carries '%s'", a.got.empty() ? "" : a.got[ 0 ].ndc.c_str() );
		vc::outcome( join( m ) );
	}
};
static void sequences()
{
	HierarchyMaintainer hm; RecAppender a( "A" ); Category& c = hm.getInstance( "n" ); c.addAppender( a );
	int depth = vc::pick( 6, 7 ); long total = 1; for( int i = 0; i < depth; i++ ) total *= NOPS;
	for( long code = 0; code < total; code++ )
	{
		int ops[ 8 ]; long k = code; std::string d; for( int i = 0; i < depth; i++ ) { ops[ i ] = k % NOPS; k /= NOPS; }
		if( vc::S().only >= 0 || vc::S().caseNo % vc::S().nshard == vc::S().shard ) for( int i = 0; i < depth; i++ ) d += std::string( N[ ops[ i ] ] ) + " ";
		if( !vc::next( "%s", d.c_str() ) ) continue;
		vc::state(); NDC::clear(); Th t; for( int i = 0; i < depth; i++ ) { t.apply( ops[ i ] ); if( i >= depth - 2 ) t.verify( c, a ); }
		NDC::clear();
	}
}
// a thread that runs one given step at a time, under the control of the main thread
class Stepper
{
	std::mutex m; std::condition_variable cv; std::function< void() > job; bool stop; std::thread t;
	void loop() { std::unique_lock< std::mutex > l( m ); while( true ) { cv.wait( l, [ this ] { return stop || job; } ); if( job ) { job(); job = nullptr; cv.notify_all(); } else return; } }
public:
	Stepper() : stop( false ), t( [ this ] { loop(); } ) {}
	void run( std::function< void() > f ) { std::unique_lock< std::mutex > l( m ); job = f; cv.notify_all(); cv.wait( l, [ this ] { return !job; } ); }
	~Stepper() { { std::unique_lock< std::mutex > l( m ); stop = true; cv.notify_all(); } t.join(); }
};
static void threads()
{
	// two threads, three operations each, every interleaving of the operations; thread two may inherit a clone made by thread one
	static const int OPS[] = { PUSHA, PUSHBC, POP, CLEAR };
	enum { NO = 4 };
	for( int p = 0; p < NO * NO * NO; p++ ) for( int q = 0; q < NO * NO * NO; q++ ) for( int mask = 0; mask < 64; mask++ )
	{
		if( __builtin_popcount( mask ) != 3 ) continue;
		if( !vc::thorough() && ( p + q ) % 2 ) continue;
		int a[ 3 ] = { OPS[ p % NO ], OPS[ p / NO % NO ], OPS[ p / NO / NO ] }, b[ 3 ] = { OPS[ q % NO ], OPS[ q / NO % NO ], OPS[ q / NO / NO ] };
		std::string sched; for( int i = 0; i < 6; i++ ) sched += mask >> i & 1 ? '1' : '2';
		if( !vc::next( "threads: 1: %s %s %s | 2: %s %s %s | schedule %s", N[ a[ 0 ] ], N[ a[ 1 ] ], N[ a[ 2 ] ], N[ b[ 0 ] ], N[ b[ 1 ] ], N[ b[ 2 ] ], sched.c_str() ) ) continue;
		static Stepper* s[ 2 ] = { new Stepper, new Stepper };
		HierarchyMaintainer hm; RecAppender ra( "A" ); Category& c = hm.getInstance( "n" ); c.addAppender( ra );
		vc::state(); Th t[ 2 ]; int pc[ 2 ] = { 0, 0 };
		NDC::clear(); NDC::push( "main" );
		for( int k = 0; k < 2; k++ ) s[ k ]->run( [ & ] { NDC::clear(); } );
		for( int i = 0; i < 6; i++ )
		{
			int w = mask >> i & 1 ? 0 : 1; int op = w == 0 ? a[ pc[ 0 ]++ ] : b[ pc[ 1 ]++ ];
			s[ w ]->run( [ & ] { t[ w ].apply( op ); } );
			for( int k = 0; k < 2; k++ ) s[ k ]->run( [ & ] { t[ k ].verify( c, ra ); } );
		}
		VC_CHECK( NDC::get() == "main" && NDC::getDepth() == 1, "main-unaffected", "main thread's context became '%s'", NDC::get().c_str() );
		// handing a context over
		std::unique_ptr< NDC::ContextStack > st; Ctx mm = t[ 0 ].m;
		s[ 0 ]->run( [ & ] { st.reset( NDC::cloneStack() ); NDC::push( "later" ); t[ 0 ].m.push_back( "later" ); } );
		s[ 1 ]->run( [ & ] { NDC::inherit( st.get() ); } ); t[ 1 ].m = mm; st.reset();
		s[ 1 ]->run( [ & ] { NDC::push( "mine" ); } ); t[ 1 ].m.push_back( "mine" );
		for( int k = 0; k < 2; k++ ) s[ k ]->run( [ & ] { t[ k ].verify( c, ra ); } );
		// a thread that ends and a new one: the new one starts empty
		if( mask == 7 ) { std::string g = "?"; size_t dpt = 9; { Stepper n; n.run( [ & ] { g = NDC::get(); dpt = NDC::getDepth(); NDC::push( "x" ); } ); } VC_CHECK( g == "" && dpt == 0, "fresh-thread", "new thread starts with '%s'", g.c_str() ); }
		NDC::clear();
	}
}
static void body() { sequences(); threads(); 	// deep contexts: every depth, with elements of every length, cloned and inherited at every height
	if( vc::next( "deep contexts" ) )
	{
		HierarchyMaintainer hm; RecAppender a( "A" ); Category& c = hm.getInstance( "deep" ); c.addAppender( a ); NDC::clear(); Ctx m; int n = vc::pick( 70, 300 );
		for( int i = 0; i < n; i++ )
		{
			std::string e( i % 41, 'a' + i % 26 ); NDC::push( e ); m.push_back( e ); vc::state();
			VC_CHECK( NDC::getDepth() == m.size() && NDC::get() == join( m ), "deep", "depth %d: the context is '%s'", i + 1, NDC::get().c_str() );
			a.got.clear(); c.fatal( "m" ); VC_CHECK( a.got.size() == 1 && a.got[ 0 ].ndc == join( m ), "deep-event", "depth %d: the event carries '%s'", i + 1, a.got.empty() ? "" : a.got[ 0 ].ndc.c_str() );
			if( i % 5 == 0 )
			{
				std::unique_ptr< NDC::ContextStack > s( NDC::cloneStack() ); std::string other; size_t depth = 0, below = 0; bool popped = true;
				std::thread t( [ & ] { NDC::push( "own" ); NDC::inherit( s.get() ); other = NDC::get(); depth = NDC::getDepth(); std::string l = NDC::pop(); popped = l == e; below = NDC::getDepth(); } ); t.join();
				VC_CHECK( other == join( m ) && depth == m.size() && popped && below == m.size() - 1 && NDC::getDepth() == m.size(), "deep-inherit", "depth %d: a thread inherits depth %d '%s'", i + 1, (int)depth, other.c_str() );
			}
		}
		while( !m.empty() ) { std::string g = NDC::pop(); VC_CHECK( g == m.back(), "deep-pop", "depth %d: popped '%s'", (int)m.size(), g.c_str() ); m.pop_back(); VC_CHECK( NDC::getDepth() == m.size() && NDC::get() == join( m ), "deep", "depth %d on the way back: '%s'", (int)m.size(), NDC::get().c_str() ); vc::step(); }
		VC_CHECK( NDC::pop() == "" && NDC::getDepth() == 0, "deep-empty", "popping an empty context" );
	}
}
VC_MAIN( body() )
