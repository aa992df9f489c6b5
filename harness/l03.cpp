// L03: thresholds and filter chains decide acceptance; queue appender keeps accepted events in order.  Built with ASan.
#include "logrec.hpp"
#include <log4cpp/Filter.hh>
#include <log4cpp/StringQueueAppender.hh>
#include <log4cpp/PatternLayout.hh>
#include <log4cpp/SimpleLayout.hh>
#include <log4cpp/BasicLayout.hh>
using namespace log4cpp;
static int gFilters, gLayouts;
static const int LEVELS[] = { Priority::EMERG, Priority::ALERT, Priority::CRIT, Priority::ERROR, Priority::WARN, Priority::NOTICE, Priority::INFO, Priority::DEBUG, Priority::TRACE };
// behaviours: constant decisions and decisions that depend on the event
enum { DENYALL, NEUTRALALL, ACCEPTALL, DENY_BELOW_WARN, ACCEPT_ERROR, NB };
static const char* BN[] = { "deny", "neutral", "accept", "deny-below-warn", "accept-error" };
static int behave( int b, int prio ) { switch( b ) { case DENYALL: return -1; case NEUTRALALL: return 0; case ACCEPTALL: return 1; case DENY_BELOW_WARN: return prio > Priority::WARN ? -1 : 0; default: return prio <= Priority::ERROR ? 1 : 0; } }
static std::vector< int > gAsked;
struct F : public Filter { int b, pos; F( int bb, int p ) : b( bb ), pos( p ) { ++gFilters; } ~F() { --gFilters; } Decision _decide( const LoggingEvent& e ) { gAsked.push_back( pos ); return (Decision)behave( b, e.priority ); } };
struct CountLayout : public Layout { CountLayout() { ++gLayouts; } ~CountLayout() { --gLayouts; } std::string format( const LoggingEvent& e ) { return "<" + e.message + ">"; } };

static void events( Appender& ap, std::vector< Rec >* rec, int thr, const std::vector< int >& chain, const std::string& what )
{
	for( int l : LEVELS )
	{
		LoggingEvent ev( "cat", vc::fmt( "m%d", l ), "", l );
		size_t before = rec->size(); gAsked.clear();
		ap.doAppend( ev );
		bool pass = thr == Priority::NOTSET || l <= thr; int dec = 0; std::vector< int > asked;
		if( pass ) for( size_t i = 0; i < chain.size() && dec == 0; i++ ) { asked.push_back( (int)i ); dec = behave( chain[ i ], l ); }
		bool e = pass && dec >= 0;
		VC_CHECK( rec->size() == before + e, "acceptance", "%s: level %d %s, expected %s", what.c_str(), l, rec->size() > before ? "emitted" : "dropped", e ? "emitted" : "dropped" );
		if( e && rec->size() > before ) VC_CHECK( rec->back().msg == ev.message && rec->back().prio == l, "event", "wrong event" );
		if( pass ) VC_CHECK( gAsked == asked, "chain-order", "%s: level %d asked %d filters, expected %d", what.c_str(), l, (int)gAsked.size(), (int)asked.size() );
		vc::step(); vc::outcome( vc::fmt( "%d%d%d", pass, dec, e ) );
	}
}
static void chains()
{
	std::vector< std::vector< int > > all( 1 ); size_t from = 0;
	for( int len = 1; len <= vc::pick( 3, 4 ); len++ ) { size_t to = all.size(); for( size_t i = from; i < to; i++ ) for( int b = 0; b < NB; b++ ) { std::vector< int > c = all[ i ]; c.push_back( b ); all.push_back( c ); } from = to; }
	std::vector< int > thr( LEVELS, LEVELS + 9 ); thr.push_back( Priority::NOTSET ); thr.push_back( 450 );
	for( auto& c : all ) for( int t : thr ) for( int how = 0; how < 3; how++ )
	{
		std::string d; for( int b : c ) d += std::string( BN[ b ] ) + " ";
		if( !vc::next( "chain [%s] built %s, threshold %d", d.c_str(), how == 0 ? "by appendChainedFilter" : how == 1 ? "by setChainedFilter" : "back to front", t ) ) continue;
		vc::state(); gFilters = 0;
		{
			RecAppender a( "A" );
			VC_CHECK( a.getThreshold() == Priority::NOTSET && a.getFilter() == 0, "defaults", "threshold %d", a.getThreshold() );
			a.setThreshold( t ); VC_CHECK( a.getThreshold() == t, "threshold", "%d", a.getThreshold() );
			Filter* head = 0;
			if( how == 0 ) for( size_t i = 0; i < c.size(); i++ ) { F* f = new F( c[ i ], (int)i ); if( head ) head->appendChainedFilter( f ); else head = f; VC_CHECK( head->getEndOfChain() == f, "end-of-chain", "wrong end" ); }
			if( how == 1 ) { Filter* tail = 0; for( size_t i = 0; i < c.size(); i++ ) { F* f = new F( c[ i ], (int)i ); if( tail ) tail->setChainedFilter( f ); else head = f; if( tail ) VC_CHECK( tail->getChainedFilter() == f, "chained", "wrong link" ); tail = f; } }
			if( how == 2 ) for( size_t i = c.size(); i-- > 0; ) { F* f = new F( c[ i ], (int)i ); f->setChainedFilter( head ); head = f; }
			a.setFilter( head ); VC_CHECK( a.getFilter() == head, "filter-set", "getFilter" );
			a.setFilter( head ); VC_CHECK( gFilters == (int)c.size(), "filter-reset-same", "%d filters alive after setting the same filter again", gFilters );
			events( a, &a.got, t, c, "fresh" );
			// replacing the filter frees the old chain and takes effect at once
			F* g = new F( ACCEPTALL, 0 ); a.setFilter( g ); VC_CHECK( gFilters == 1, "filter-replaced", "%d filters alive", gFilters );
			events( a, &a.got, t, std::vector< int >( 1, ACCEPTALL ), "replaced" );
			a.setFilter( 0 ); VC_CHECK( gFilters == 0, "filter-removed", "%d filters alive", gFilters );
			a.setThreshold( Priority::NOTSET ); events( a, &a.got, Priority::NOTSET, std::vector< int >(), "cleared" );
			if( !c.empty() ) { Filter* h2 = new F( c[ 0 ], 0 ); h2->setChainedFilter( new F( DENYALL, 1 ) ); h2->setChainedFilter( new F( ACCEPTALL, 1 ) ); VC_CHECK( gFilters == 2, "chained-replaced", "%d filters alive", gFilters ); a.setFilter( h2 ); std::vector< int > cc; cc.push_back( c[ 0 ] ); cc.push_back( ACCEPTALL ); events( a, &a.got, Priority::NOTSET, cc, "rechained" ); }
		}
		VC_CHECK( gFilters == 0, "filter-freed", "%d filters left after the appender is gone", gFilters );
	}
}
// queue appender: all sequences of append / pop / relayout / threshold change
static void queues()
{
	enum { APP_HI, APP_LO, POP, LAYOUT, NOLAYOUT, THR_ON, THR_OFF, REOPEN, CLOSE, NOPS };
	static const char* N[] = { "append-error", "append-debug", "pop", "setLayout", "setLayout(0)", "threshold", "nothreshold", "reopen", "close" };
	int depth = vc::pick( 5, 6 ); long total = 1; for( int i = 0; i < depth; i++ ) total *= NOPS;
	for( long code = 0; code < total; code++ )
	{
		int ops[ 8 ]; long c = code; std::string d; for( int i = 0; i < depth; i++ ) { ops[ i ] = c % NOPS; c /= NOPS; }
		if( vc::S().only >= 0 || vc::S().caseNo % vc::S().nshard == vc::S().shard ) for( int i = 0; i < depth; i++ ) d += std::string( N[ ops[ i ] ] ) + " ";
		if( !vc::next( "queue: %s", d.c_str() ) ) continue;
		vc::state(); gLayouts = 0;
		{
			StringQueueAppender q( "Q" ); std::vector< std::string > model; int layout = 0, thr = Priority::NOTSET, serial = 0;
			VC_CHECK( q.requiresLayout(), "requires-layout", "no" );
			for( int i = 0; i < depth; i++ )
			{
				switch( ops[ i ] )
				{
				case APP_HI: case APP_LO:
				{
					int l = ops[ i ] == APP_HI ? Priority::ERROR : Priority::DEBUG; LoggingEvent e( "c", vc::fmt( "m%d", serial++ ), "n", l ); q.doAppend( e );
					if( thr == Priority::NOTSET || l <= thr )
					{
						std::string s = "<" + e.message + ">";
						if( !layout ) { BasicLayout b; s = b.format( e ); } model.push_back( s );
					}
					break;
				}
				case POP: { std::string g = q.popMessage(), e = model.empty() ? "" : model.front(); if( !model.empty() ) model.erase( model.begin() ); VC_CHECK( g == e, "queue-order", "popped '%s' expected '%s'", g.c_str(), e.c_str() ); break; }
				case LAYOUT: q.setLayout( new CountLayout ); layout = 1; break;
				case NOLAYOUT: q.setLayout( 0 ); layout = 0; break;
				case THR_ON: q.setThreshold( thr = Priority::WARN ); break;
				case THR_OFF: q.setThreshold( thr = Priority::NOTSET ); break;
				case REOPEN: VC_CHECK( q.reopen(), "queue-reopen", "failed" ); break;
				case CLOSE: q.close(); break;
				}
				vc::step(); VC_CHECK( q.queueSize() == model.size(), "queue-size", "%d expected %d", (int)q.queueSize(), (int)model.size() );
				VC_CHECK( gLayouts == layout, "layout-lifetime", "%d layouts alive, expected %d", gLayouts, layout );
			}
			while( !model.empty() ) { std::string g = q.popMessage(); VC_CHECK( g == model.front(), "queue-order", "popped '%s' expected '%s'", g.c_str(), model.front().c_str() ); model.erase( model.begin() ); }
			VC_CHECK( q.popMessage() == "" && q.queueSize() == 0, "queue-drained", "not empty" );
			vc::outcome( vc::fmt( "q%d%d", serial, layout ) );
		}
		VC_CHECK( gLayouts == 0, "layout-freed", "%d", gLayouts );
	}
}
static void body() { chains(); queues(); 	// long chains with the deciding filter at every place, and long queues
	for( int n = 1; n <= vc::pick( 30, 80 ); n++ ) if( vc::next( "a chain of %d filters", n ) ) for( int at = 0; at <= n; at++ ) for( int dec : { (int)ACCEPTALL, (int)DENYALL } )
	{
		gFilters = 0; { RecAppender a( "A" ); std::vector< int > c; Filter* head = 0; for( int i = 0; i < n; i++ ) { c.push_back( i == at ? dec : i > at ? ( dec == ACCEPTALL ? DENYALL : ACCEPTALL ) : NEUTRALALL ); F* f = new F( c.back(), i ); if( head ) head->appendChainedFilter( f ); else head = f; }
		a.setFilter( head ); vc::state(); events( a, &a.got, a.getThreshold(), c, "long chain" ); VC_CHECK( gFilters == n, "chain-kept", "%d of %d filters alive", gFilters, n ); }
		VC_CHECK( gFilters == 0, "filter-freed", "%d filters left", gFilters );
	}
	if( vc::next( "long queues" ) ) for( int n = 1; n <= vc::pick( 300, 2000 ); n = n * 2 + 1 )
	{
		StringQueueAppender q( "Q" ); std::vector< std::string > want; size_t next = 0;
		for( int i = 0; i < n; i++ ) { LoggingEvent e( "c", vc::fmt( "m%d", i ) + std::string( i % 70, 'x' ), "", Priority::INFO ); q.doAppend( e ); want.push_back( e.message ); if( i % 3 == 2 ) { std::string g = q.popMessage(); VC_CHECK( g.find( want[ next ] ) != std::string::npos, "queue-order", "entry %d of %d is '%s'", (int)next, n, g.c_str() ); next++; } vc::step(); }
		VC_CHECK( q.queueSize() == want.size() - next, "queue-size", "%d entries, expected %d", (int)q.queueSize(), (int)( want.size() - next ) );
		for( ; next < want.size(); next++ ) { std::string g = q.popMessage(); VC_CHECK( g.find( want[ next ] ) != std::string::npos, "queue-order", "entry %d of %d is '%s'", (int)next, n, g.c_str() ); }
		VC_CHECK( q.queueSize() == 0 && q.popMessage().empty(), "queue-empty", "the queue is not empty in the end" );
	}
}
VC_MAIN( body() )
