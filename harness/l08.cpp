// L08: logging from several threads. All interleavings of small programs up to a preemption bound on the
// real log4cpp, each compared with the outcomes of a model in which every category is one atomic object.
#include "vc.hpp"
#include "mc.hpp"
#include <memory>
#include <set>
#include <algorithm>
#include <log4cpp/Category.hh>
#include <log4cpp/HierarchyMaintainer.hh>
#include <log4cpp/AppenderSkeleton.hh>
#include <log4cpp/NDC.hh>
#include <log4cpp/PatternLayout.hh>
#include <ctime>
// functions of the C library that hand out one buffer to all threads
static struct tm shared;
extern "C" { NOT struct tm* __wrap_localtime( const time_t* t ) { mc::access( (uintptr_t)&shared, sizeof shared, true ); return localtime_r( t, &shared ); } NOT struct tm* __wrap_gmtime( const time_t* t ) { mc::access( (uintptr_t)&shared, sizeof shared, true ); return gmtime_r( t, &shared ); } }
using namespace log4cpp;
enum Kind { LOG_AB, LOG_ABD, LOG_A, ADD_NEW, REM_P, REM_ALL, ADD_R2, REM_R2, ROOT_DEBUG, ROOT_ERROR, A_DEBUG, A_UNSET, AB_WARN, AB_UNSET, NONADD, NEW_LOG, SHUT, NDC_LOG, EXISTS, CURRENT, ALL_APP, OWNS, LOOKUP, NKIND };
static const char* KN[] = { "log a.b", "debug a.b", "log a", "add new to a", "remove P from a", "remove all from a", "add R2 to a.b", "remove R2 from a.b", "root debug", "root error", "a debug", "a unset", "a.b warn", "a.b unset", "a.b not additive", "log a.n.k", "shutdown", "log a.b in context", "exists a.n", "current categories", "appenders of a", "a owns P", "look up P" };
static const char* CN[] = { "", "a", "a.b", "a.n", "a.n.k" }; static const int PAR[] = { -1, 0, 1, 1, 3 }; enum { NCAT = 5 };
// appenders: 0 root's, 1 P (owned by a), 2 a.b's, 3 R2, 4.. created by thread t with its call number
enum { NAPP = 10 };
typedef std::vector< int > Prog; typedef std::vector< Prog > Scene;
static const int CFG[][ 2 ] = { { 600, 800 }, { 600, 800 } };
struct Ev { int thread, op; };
static std::string evName( int t, int op ) { return vc::fmt( "%d.%d", t, op ); }
// ------------------------------------------------------------------ model
struct Cat { bool exists = false, additive = true; int prio = Priority::NOTSET, chained = 0; std::set< int > app; std::set< int > own; };
struct Th { size_t op = 0; int step = 0, cat = -1; std::vector< int > todo; std::string res; };
struct Model { Cat c[ NCAT ]; bool alive[ NAPP ]; std::string got[ NAPP ]; std::vector< Th > t; int cfg = -1, hm = -1; };
static void drop( Model& m, int c, int a ) { m.c[ c ].app.erase( a ); if( m.c[ c ].own.erase( a ) ) m.alive[ a ] = false; }
static int kids( const Model& m, int c, std::vector< int >& v ) { for( int k = 0; k < NCAT; k++ ) if( PAR[ k ] == c && m.c[ k ].exists ) v.push_back( k ); return 0; }
static void nextOp( Th& t ) { t.op++; t.step = 0; t.cat = -1; t.todo.clear(); }
static void logStep( Model& m, int ti, int cat, int prio, const char* ndc, std::vector< Model >& out, int base )
{
	Th& t = m.t[ ti ]; if( t.step == base ) { if( m.c[ cat ].chained >= prio ) { t.cat = cat; t.step++; } else nextOp( t ); } else if( t.step == base + 1 ) { for( int a : m.c[ t.cat ].app ) m.got[ a ] += evName( ti, (int)t.op ) + CN[ cat ] + ndc + ( prio == Priority::DEBUG ? "d;" : ";" ); t.step++; } else { if( m.c[ t.cat ].additive && PAR[ t.cat ] >= 0 ) { t.cat = PAR[ t.cat ]; t.step = base + 1; } else nextOp( t ); } out.push_back( m );
}
static void prioStep( Model& m, int ti, int cat, int p, std::vector< Model >& out )
{
	Th& t = m.t[ ti ]; if( t.step == 0 ) { if( m.cfg >= 0 ) return; m.cfg = ti; Cat& c = m.c[ cat ]; c.prio = p; c.chained = p == Priority::NOTSET ? m.c[ PAR[ cat ] ].chained : p; kids( m, cat, t.todo ); t.step = 1; out.push_back( m ); return; }
	if( t.todo.empty() ) { m.cfg = -1; nextOp( t ); out.push_back( m ); return; }
	for( size_t i = 0; i < t.todo.size(); i++ ) { Model n = m; Th& u = n.t[ ti ]; int k = u.todo[ i ]; u.todo.erase( u.todo.begin() + i ); if( n.c[ k ].prio == Priority::NOTSET ) { n.c[ k ].chained = n.c[ PAR[ k ] ].chained; kids( n, k, u.todo ); } out.push_back( n ); }
}
static void succ( const Model& m0, int ti, const Scene& sc, std::vector< Model >& out )
{
	Model m = m0; Th& t = m.t[ ti ]; if( t.op >= sc[ ti ].size() ) return; int k = sc[ ti ][ t.op ]; auto done = [&] { nextOp( t ); out.push_back( m ); };
	switch( k )
	{
	case LOG_AB: logStep( m, ti, 2, Priority::INFO, "", out, 0 ); break; case LOG_ABD: logStep( m, ti, 2, Priority::DEBUG, "", out, 0 ); break; case LOG_A: logStep( m, ti, 1, Priority::INFO, "", out, 0 ); break; case NDC_LOG: logStep( m, ti, 2, Priority::INFO, "[x]", out, 0 ); break;
	case ADD_NEW: { int a = 4 + 2 * ti + (int)t.op; m.alive[ a ] = true; m.c[ 1 ].app.insert( a ); m.c[ 1 ].own.insert( a ); } done(); break;
	case REM_P: drop( m, 1, 1 ); done(); break;
	case REM_ALL: while( !m.c[ 1 ].app.empty() ) drop( m, 1, *m.c[ 1 ].app.begin() ); done(); break;
	case ADD_R2: m.c[ 2 ].app.insert( 3 ); done(); break; case REM_R2: drop( m, 2, 3 ); done(); break;
	case ROOT_DEBUG: prioStep( m, ti, 0, Priority::DEBUG, out ); break; case ROOT_ERROR: prioStep( m, ti, 0, Priority::ERROR, out ); break; case A_DEBUG: prioStep( m, ti, 1, Priority::DEBUG, out ); break; case A_UNSET: prioStep( m, ti, 1, Priority::NOTSET, out ); break; case AB_WARN: prioStep( m, ti, 2, Priority::WARN, out ); break; case AB_UNSET: prioStep( m, ti, 2, Priority::NOTSET, out ); break;
	case NONADD: m.c[ 2 ].additive = false; done(); break;
	case NEW_LOG:
		if( t.step == 0 ) { if( m.hm >= 0 ) return; m.hm = ti; t.step = 1; out.push_back( m ); }
		else if( t.step < 3 ) { int c = t.step + 2; if( !m.c[ c ].exists ) { if( m.cfg >= 0 ) return; m.c[ c ].exists = true; m.c[ c ].chained = m.c[ PAR[ c ] ].chained; } t.step++; if( t.step == 3 ) m.hm = -1; out.push_back( m ); }
		else logStep( m, ti, 4, Priority::INFO, "", out, 3 ); break;
	case SHUT:
		if( t.step == 0 ) { if( m.hm >= 0 ) return; m.hm = ti; for( int c = 0; c < NCAT; c++ ) if( m.c[ c ].exists ) t.todo.push_back( c ); t.step = 1; out.push_back( m ); }
		else if( t.todo.empty() ) { m.hm = -1; done(); }
		else for( size_t i = 0; i < t.todo.size(); i++ ) { Model n = m; Th& u = n.t[ ti ]; int c = u.todo[ i ]; u.todo.erase( u.todo.begin() + i ); while( !n.c[ c ].app.empty() ) drop( n, c, *n.c[ c ].app.begin() ); out.push_back( n ); } break;
	case EXISTS: if( m.hm >= 0 ) return; t.res += m.c[ 3 ].exists ? "y" : "n"; done(); break;
	case CURRENT: if( m.hm >= 0 ) return; for( int c = 0; c < NCAT; c++ ) if( m.c[ c ].exists ) t.res += vc::fmt( "<%s>", CN[ c ] ); done(); break;
	case ALL_APP: t.res += "{"; for( int a : m.c[ 1 ].app ) t.res += (char)( '0' + a ); t.res += "}"; done(); break;
	case OWNS: t.res += m.c[ 1 ].own.count( 1 ) ? "o" : "f"; done(); break;
	case LOOKUP: t.res += m.alive[ 1 ] ? "Y" : "N"; done(); break;
	}
}
static std::string outcome( const Model& m ) { std::string s; for( auto& t : m.t ) s += t.res + "|"; for( int a = 0; a < NAPP; a++ ) s += m.got[ a ] + ( m.alive[ a ] ? "+" : "-" ) + "|"; for( int c = 0; c < NCAT; c++ ) if( m.c[ c ].exists ) { s += vc::fmt( "%s %d %d %d ", CN[ c ], m.c[ c ].prio, m.c[ c ].chained, m.c[ c ].additive ); for( int a : m.c[ c ].app ) s += (char)( '0' + a ); s += "|"; } return s; }
static std::string key( const Model& m ) { std::string s = outcome( m ); for( auto& t : m.t ) { s += vc::fmt( "/%zu %d %d", t.op, t.step, t.cat ); for( int k : t.todo ) s += (char)( 'A' + k ); } return s + vc::fmt( "%d %d", m.cfg, m.hm ); }
static Model initial( const Scene& sc )
{
	Model m; for( int i = 0; i < 3; i++ ) m.c[ i ].exists = true; m.c[ 0 ].prio = Priority::INFO; for( int i = 0; i < NCAT; i++ ) m.c[ i ].chained = Priority::INFO; for( int a = 0; a < NAPP; a++ ) m.alive[ a ] = a < 4; m.c[ 0 ].app.insert( 0 ); m.c[ 1 ].app.insert( 1 ); m.c[ 1 ].own.insert( 1 ); m.c[ 2 ].app.insert( 2 ); m.t.resize( sc.size() ); return m;
}
static size_t modelOutcomes( const Scene& sc, std::set< std::string >& res )
{
	std::set< std::string > seen; std::vector< Model > todo( 1, initial( sc ) ); seen.insert( key( todo[ 0 ] ) ); while( !todo.empty() ) { Model m = todo.back(); todo.pop_back(); std::vector< Model > n; for( size_t t = 0; t < sc.size(); t++ ) succ( m, (int)t, sc, n ); bool fin = true; for( size_t t = 0; t < sc.size(); t++ ) fin = fin && m.t[ t ].op >= sc[ t ].size(); if( fin ) res.insert( outcome( m ) ); for( auto& x : n ) if( seen.insert( key( x ) ).second ) todo.push_back( x ); } return seen.size();
}
// ------------------------------------------------------------------ the real thing
struct World;
static World* W;
struct TestApp : public AppenderSkeleton
{
	int id; bool inside; unsigned magic; PatternLayout* lay; TestApp( int i ); ~TestApp();
	void close() {} bool requiresLayout() const { return false; } void setLayout( Layout* ) {}
	void _append( const LoggingEvent& e );
};
struct World
{
	Scene sc; HierarchyMaintainer* hm; TestApp* app[ NAPP ]; bool alive[ NAPP ]; std::string got[ NAPP ], res[ 3 ]; Category *c[ 3 ], *made[ 3 ]; size_t at[ 3 ];
};
TestApp::TestApp( int i ) : AppenderSkeleton( vc::fmt( "A%d", i ) ), id( i ), inside( false ), magic( 0xfeed ), lay( 0 ) { mc::Quiet q; if( i == 0 || i == 2 ) { lay = new PatternLayout; lay->setConversionPattern( "%d{%H:%M:%S.%l} %c|%x|%p|%m|%t" ); } W->alive[ id ] = true; }
TestApp::~TestApp() { mc::Quiet q; if( magic != 0xfeed ) mc::bad( "double-free", "appender destroyed twice" ); if( inside ) mc::bad( "use-after-free", "appender destroyed while appending" ); magic = 0xdead; delete lay; W->alive[ id ] = false; }
void TestApp::_append( const LoggingEvent& e )
{
	std::string cat, msg, ndc, thr; int prio; { mc::Quiet q; if( magic != 0xfeed ) { mc::bad( "use-after-free", "event sent to a deleted appender" ); return; } if( inside ) mc::bad( "overlap", "two events in one appender at the same time" ); inside = true; cat = e.categoryName; } mc::point(); if( lay ) { std::string text = lay->format( e ); mc::Quiet q; size_t i = text.find( ' ' ); std::string want = cat + "|" + e.ndc + "|" + Priority::getPriorityName( e.priority ) + "|" + e.message + "|" + e.threadName; if( i != 12 || text.substr( 13 ) != want ) mc::bad( "layout", text.c_str() ); } { mc::Quiet q; msg = e.message; ndc = e.ndc; prio = e.priority; thr = e.threadName; }
	mc::Quiet q; if( magic != 0xfeed ) { mc::bad( "use-after-free", "appender destroyed while appending" ); return; } int t = mc::gp->cur; if( thr != vc::fmt( "%d", 4242 + t ) ) mc::bad( "thread-name", thr.c_str() ); if( msg != vc::fmt( "message of %d.%zu", t, W->at[ t ] ) ) mc::bad( "message", msg.c_str() ); inside = false; W->got[ id ] += evName( t, (int)W->at[ t ] ) + cat + ( ndc.empty() ? "" : "[" + ndc + "]" ) + ( prio == Priority::DEBUG ? "d;" : prio == Priority::INFO ? ";" : "?;" );
}
static void perform( int t, int k )
{
	World& w = *W; std::string msg; { mc::Quiet q; msg = vc::fmt( "message of %d.%zu", t, w.at[ t ] ); }
	switch( k )
	{
	case LOG_AB: w.c[ 2 ]->info( msg ); break; case LOG_ABD: w.c[ 2 ]->debug( "%s", msg.c_str() ); break; case LOG_A: w.c[ 1 ]->log( Priority::INFO, msg ); break;
	case ADD_NEW: { int id = 4 + 2 * t + (int)w.at[ t ]; TestApp* a = new TestApp( id ); { mc::Quiet q; w.app[ id ] = a; } w.c[ 1 ]->addAppender( a ); break; }
	case REM_P: w.c[ 1 ]->removeAppender( w.app[ 1 ] ); break; case REM_ALL: w.c[ 1 ]->removeAllAppenders(); break; case ADD_R2: w.c[ 2 ]->addAppender( *w.app[ 3 ] ); break; case REM_R2: w.c[ 2 ]->removeAppender( w.app[ 3 ] ); break;
	case ROOT_DEBUG: w.c[ 0 ]->setPriority( Priority::DEBUG ); break; case ROOT_ERROR: w.c[ 0 ]->setPriority( Priority::ERROR ); break; case A_DEBUG: w.c[ 1 ]->setPriority( Priority::DEBUG ); break; case A_UNSET: w.c[ 1 ]->setPriority( Priority::NOTSET ); break; case AB_WARN: w.c[ 2 ]->setPriority( Priority::WARN ); break; case AB_UNSET: w.c[ 2 ]->setPriority( Priority::NOTSET ); break;
	case NONADD: w.c[ 2 ]->setAdditivity( false ); break; case NEW_LOG: { Category& n = w.hm->getInstance( "a.n.k" ); { mc::Quiet q; w.made[ t ] = &n; } n.info( msg ); break; } case SHUT: w.hm->shutdown(); break;
	case NDC_LOG: NDC::push( "x" ); w.c[ 2 ]->info( msg ); { std::string p = NDC::pop(); mc::Quiet q; if( p != "x" || NDC::getDepth() ) mc::bad( "context", p.c_str() ); } break;
	case EXISTS: { bool b = w.hm->getExistingInstance( "a.n" ) != 0; mc::Quiet q; w.res[ t ] += b ? "y" : "n"; break; }
	case CURRENT: { std::vector< Category* >* v = w.hm->getCurrentCategories(); { mc::Quiet q; std::set< std::string > s; for( auto* c : *v ) s.insert( c->getName() ); for( auto& n : s ) w.res[ t ] += "<" + n + ">"; } delete v; break; }
	case ALL_APP: { AppenderSet s = w.c[ 1 ]->getAllAppenders(); mc::Quiet q; std::set< int > ids; for( auto* a : s ) { int id = '?' - '0'; for( int i = 0; i < NAPP; i++ ) if( w.app[ i ] == a ) id = i; ids.insert( id ); } w.res[ t ] += "{"; for( int i : ids ) w.res[ t ] += (char)( '0' + i ); w.res[ t ] += "}"; break; }
	case OWNS: { bool b = w.c[ 1 ]->ownsAppender( w.app[ 1 ] ); mc::Quiet q; w.res[ t ] += b ? "o" : "f"; break; }
	case LOOKUP: { bool b = Appender::getAppender( "A1" ) != 0; mc::Quiet q; w.res[ t ] += b ? "Y" : "N"; break; }
	}
}
static std::string realOutcome( const World& w )
{
	std::string s; for( size_t t = 0; t < w.sc.size(); t++ ) s += w.res[ t ] + "|"; for( int a = 0; a < NAPP; a++ ) s += w.got[ a ] + ( w.alive[ a ] ? "+" : "-" ) + "|";
	for( int c = 0; c < NCAT; c++ ) { Category* p = w.hm->getExistingInstance( CN[ c ] ); if( !p ) continue; s += vc::fmt( "%s %d %d %d ", CN[ c ], (int)p->getPriority(), (int)p->getChainedPriority(), (int)p->getAdditivity() ); std::set< int > ids; for( auto* a : p->getAllAppenders() ) { int id = '?' - '0'; for( int i = 0; i < NAPP; i++ ) if( w.app[ i ] == a ) id = i; ids.insert( id ); } for( int i : ids ) s += (char)( '0' + i ); s += "|"; } return s;
}
static std::string show( const Scene& sc ) { std::string s; for( size_t t = 0; t < sc.size(); t++ ) { s += t ? " || " : ""; for( size_t i = 0; i < sc[ t ].size(); i++ ) s += ( i ? "; " : "" ) + std::string( KN[ sc[ t ][ i ] ] ); } return s; }
static void explore( const Scene& sc, int bound )
{
	std::set< std::string > allowed, reached; size_t ms = modelOutcomes( sc, allowed ); mc::gp->pick.clear(); mc::gp->width.clear(); mc::gp->bound = bound; size_t runs = 0; bool stop = false;
	do
	{
		World w; W = &w; w.sc = sc; for( int a = 0; a < NAPP; a++ ) { w.app[ a ] = 0; w.alive[ a ] = false; } mc::arenaStart(); mc::setupFlag() = true; w.hm = new HierarchyMaintainer; for( int i = 0; i < 3; i++ ) { w.c[ i ] = &w.hm->getInstance( CN[ i ] ); w.at[ i ] = 0; w.made[ i ] = 0; } for( int a = 0; a < 4; a++ ) w.app[ a ] = new TestApp( a ); w.c[ 0 ]->addAppender( *w.app[ 0 ] ); w.c[ 1 ]->addAppender( w.app[ 1 ] ); w.c[ 2 ]->addAppender( *w.app[ 2 ] ); mc::setupFlag() = false;
		bool full = mc::execute( (int)sc.size(), []( int t ) { for( size_t i = 0; i < W->sc[ t ].size(); i++ ) { { mc::Quiet q; W->at[ t ] = i; } perform( t, W->sc[ t ][ i ] ); } } ); runs++; vc::state(); vc::step( mc::gp->points );
		if( mc::gp->bad ) { vc::fail( mc::gp->bad, vc::fmt( "%s, schedule %s: %s", show( sc ).c_str(), mc::schedule().c_str(), mc::gp->what ) ); stop = true; }
		if( full ) { std::string o = realOutcome( w ); if( !stop && !allowed.count( o ) ) { vc::fail( "outcome", vc::fmt( "%s, schedule %s: %s is not the result of any order", show( sc ).c_str(), mc::schedule().c_str(), o.c_str() ) ); stop = true; } for( auto* m : w.made ) if( m && m != w.hm->getExistingInstance( "a.n.k" ) && !stop ) { vc::fail( "identity", vc::fmt( "%s, schedule %s: two categories of one name", show( sc ).c_str(), mc::schedule().c_str() ) ); stop = true; } reached.insert( o ); delete w.hm; for( int a : { 0, 2, 3 } ) delete w.app[ a ]; for( int a = 0; a < NAPP; a++ ) if( w.alive[ a ] ) { vc::fail( "leak", show( sc ) ); stop = true; } }
	} while( !stop && mc::advance() );
	VC_OUT( "%zu allowed %zu reached", allowed.size(), reached.size() ); if( getenv( "MC_STAT" ) ) fprintf( stderr, "STAT %zu runs %lu points nondet %lu %s\n", runs, mc::gp->points, mc::gp->nondet, show( sc ).c_str() ); if( mc::gp->nondet ) { vc::outcome( "schedule-dependent choices" ); }
}
static void body()
{
	{ mc::Quiet q; HierarchyMaintainer warm; warm.getInstance( "w" ).info( "x" ); NDC::get(); HierarchyMaintainer::getDefaultMaintainer(); PatternLayout p; p.setConversionPattern( "%d %p" ); }
	std::vector< Prog > one, two; for( int i = 0; i < NKIND; i++ ) { one.push_back( Prog( 1, i ) ); for( int j = 0; j < NKIND; j++ ) two.push_back( Prog{ i, j } ); }
	for( size_t i = 0; i < one.size(); i++ ) for( size_t j = i; j < one.size(); j++ ) { Scene s = { one[ i ], one[ j ] }; if( vc::next( "%s", show( s ).c_str() ) ) explore( s, vc::pick( 4, 6 ) ); }
	for( size_t i = 0; i < two.size(); i++ ) for( size_t j = 0; j < one.size(); j++ ) { Scene s = { two[ i ], one[ j ] }; if( vc::next( "%s", show( s ).c_str() ) ) explore( s, vc::pick( 2, 3 ) ); }
	for( size_t i = 0; i < one.size(); i++ ) for( size_t j = i; j < one.size(); j++ ) for( size_t k = j; k < one.size(); k++ ) { if( !vc::thorough() && ( i * 7 + j * 3 + k ) % 2 ) continue; Scene s = { one[ i ], one[ j ], one[ k ] }; if( vc::next( "%s", show( s ).c_str() ) ) explore( s, 1 ); }
	if( vc::thorough() ) for( size_t i = 0; i < two.size(); i++ ) for( size_t j = i; j < two.size(); j += 5 ) { Scene s = { two[ i ], two[ j ] }; if( vc::next( "%s", show( s ).c_str() ) ) explore( s, 1 ); }
}
VC_MAIN( body() )
