// L01: delivery of log events along the category chain, against a model of levels, additivity and appender sets.
#include "logrec.hpp"
#include <cstdarg>
#include <memory>
namespace log4cpp { CategoryStream& eol( CategoryStream& ); CategoryStream& left( CategoryStream& ); }
using namespace log4cpp;

static const char* NAMES[] = { "", "a", "a.b", "a.b.c", "z" };
enum { NCAT = 5 };
static const int PARENT[] = { -1, 0, 1, 2, 0 };
static const int LEVELS[] = { Priority::EMERG, Priority::ALERT, Priority::CRIT, Priority::ERROR, Priority::WARN, Priority::NOTICE, Priority::INFO, Priority::DEBUG, Priority::TRACE };

struct Model
{
	bool exists[ NCAT ]; int prio[ NCAT ]; bool add[ NCAT ]; bool app[ NCAT ][ 2 ];
	Model() { for( int i = 0; i < NCAT; i++ ) { exists[ i ] = false; prio[ i ] = i ? Priority::NOTSET : Priority::INFO; add[ i ] = true; app[ i ][ 0 ] = app[ i ][ 1 ] = false; } }
	void touch( int c ) { for( ; c >= 0; c = PARENT[ c ] ) exists[ c ] = true; }
	int eff( int c ) const { while( prio[ c ] == Priority::NOTSET ) c = PARENT[ c ]; return prio[ c ]; }
	int copies( int c, int a ) const { int n = 0; for( ; c >= 0; c = add[ c ] ? PARENT[ c ] : -1 ) n += app[ c ][ a ]; return n; }
};
struct Op { int kind, cat, arg; };
enum { PRIO, ADDIT, ADDAPP, REMAPP, REMALL, TOUCH };
static std::string opStr( const Op& o )
{
	switch( o.kind )
	{
	case PRIO: return vc::fmt( "setPriority(%s,%d)", *NAMES[ o.cat ] ? NAMES[ o.cat ] : "root", o.arg );
	case ADDIT: return vc::fmt( "setAdditivity(%s,%d)", *NAMES[ o.cat ] ? NAMES[ o.cat ] : "root", o.arg );
	case ADDAPP: return vc::fmt( "addAppender(%s,A%d)", *NAMES[ o.cat ] ? NAMES[ o.cat ] : "root", o.arg );
	case REMAPP: return vc::fmt( "removeAppender(%s,A%d)", *NAMES[ o.cat ] ? NAMES[ o.cat ] : "root", o.arg );
	case REMALL: return vc::fmt( "removeAllAppenders(%s)", *NAMES[ o.cat ] ? NAMES[ o.cat ] : "root" );
	default: return vc::fmt( "getInstance(%s)", NAMES[ o.cat ] );
	}
}

struct World
{
	HierarchyMaintainer hm; RecAppender a0, a1; Model m;
	World() : a0( "A0" ), a1( "A1" ) {}
	RecAppender& app( int i ) { return i ? a1 : a0; }
	void apply( const Op& o )
	{
		Category& c = hm.getInstance( NAMES[ o.cat ] ); m.touch( o.cat );
		switch( o.kind )
		{
		case PRIO:
		{
			bool thrown = false;
			try { c.setPriority( o.arg ); } catch( const std::invalid_argument& ) { thrown = true; }
			VC_CHECK( thrown == ( o.cat == 0 && o.arg == Priority::NOTSET ), "notset-on-root", "%s: invalid_argument %s", opStr( o ).c_str(), thrown ? "thrown" : "not thrown" );
			if( !thrown ) m.prio[ o.cat ] = o.arg;
			break;
		}
		case ADDIT: c.setAdditivity( o.arg != 0 ); m.add[ o.cat ] = o.arg != 0; break;
		case ADDAPP: c.addAppender( app( o.arg ) ); m.app[ o.cat ][ o.arg ] = true; break;
		case REMAPP: c.removeAppender( &app( o.arg ) ); m.app[ o.cat ][ o.arg ] = false; break;
		case REMALL: c.removeAllAppenders(); m.app[ o.cat ][ 0 ] = m.app[ o.cat ][ 1 ] = false; break;
		}
		vc::step();
	}
	void verifyCat( Category& c, int i )
	{
		VC_CHECK( c.getName() == NAMES[ i ], "name", "category name '%s'", c.getName().c_str() );
		VC_CHECK( c.getPriority() == m.prio[ i ], "own-level", "%s: %d expected %d", NAMES[ i ], c.getPriority(), m.prio[ i ] );
		VC_CHECK( c.getChainedPriority() == m.eff( i ), "effective-level", "%s: %d expected %d", NAMES[ i ], c.getChainedPriority(), m.eff( i ) );
		VC_CHECK( c.getAdditivity() == m.add[ i ], "additivity", "%s", NAMES[ i ] );
		VC_CHECK( ( c.getParent() == 0 ) == ( i == 0 ) && ( i == 0 || c.getParent()->getName() == NAMES[ PARENT[ i ] ] ), "parent", "%s", NAMES[ i ] );
		AppenderSet s = c.getAllAppenders(), e; for( int a = 0; a < 2; a++ ) if( m.app[ i ][ a ] ) e.insert( &app( a ) );
		VC_CHECK( s == e, "appender-set", "%s", NAMES[ i ] );
		for( int l : LEVELS )
		{
			bool en = l <= m.eff( i );
			VC_CHECK( c.isPriorityEnabled( l ) == en, "enabled", "%s level %d effective %d", NAMES[ i ], l, m.eff( i ) );
			a0.got.clear(); a1.got.clear();
			std::string msg = vc::fmt( "m%d-%d", i, l );
			c.log( l, msg );
			for( int a = 0; a < 2; a++ )
			{
				int n = en ? m.copies( i, a ) : 0;
				std::vector< Rec >& g = app( a ).got;
				VC_CHECK( (int)g.size() == n, "delivery", "%s level %d: appender A%d got %d events, expected %d (effective level %d)", NAMES[ i ], l, a, (int)g.size(), n, m.eff( i ) );
				Rec r = { NAMES[ i ], msg, "", l };
				for( auto& x : g ) VC_CHECK( x == r, "event-fields", "%s level %d: got category '%s' message '%s' level %d", NAMES[ i ], l, x.cat.c_str(), x.msg.c_str(), x.prio );
				vc::outcome( vc::fmt( "%d %d %d", i, a, n ) );
			}
		}
	}
	void verify()
	{
		vc::state();
		for( int i = 0; i < NCAT; i++ )
		{
			Category* c = hm.getExistingInstance( NAMES[ i ] );
			VC_CHECK( ( c != 0 ) == m.exists[ i ], "exists", "%s: %d expected %d", NAMES[ i ], c != 0, m.exists[ i ] );
			if( c ) verifyCat( *c, i );
		}
		std::unique_ptr< std::vector< Category* > > cur( hm.getCurrentCategories() );
		size_t n = 0; for( int i = 0; i < NCAT; i++ ) n += m.exists[ i ];
		VC_CHECK( cur->size() == n, "current-categories", "%d expected %d", (int)cur->size(), (int)n );
		// categories created now must see the configuration made before
		for( int i = 0; i < NCAT; i++ ) { Category& c = hm.getInstance( NAMES[ i ] ); VC_CHECK( &c == hm.getExistingInstance( NAMES[ i ] ), "same-instance", "%s", NAMES[ i ] ); m.touch( i ); verifyCat( c, i ); }
	}
};

static void preset( World& w, int p )
{
	static const Op p1[] = { { ADDAPP, 0, 0 }, { ADDAPP, 2, 1 }, { PRIO, 0, Priority::DEBUG } };
	static const Op p2[] = { { ADDAPP, 0, 0 }, { ADDAPP, 1, 0 }, { ADDAPP, 3, 1 }, { ADDIT, 2, 0 }, { PRIO, 1, Priority::ERROR } };
	if( p == 1 ) for( auto& o : p1 ) w.apply( o );
	if( p == 2 ) for( auto& o : p2 ) w.apply( o );
}

static void viaVa( Category& c, int level, const char* f, ... ) { va_list va; va_start( va, f ); c.logva( level, f, va ); va_end( va ); }
template< class F > static void levelMethods( Category& c, RecAppender& a, int level, const char* nm, bool en, F fmtcall, void (Category::*strcall)( const std::string& ) , bool enabledQuery, CategoryStream stream )
{
	a.got.clear(); fmtcall( c ); bool ok = en ? a.got.size() == 1 && a.got[ 0 ].msg == "v=42 w=x" && a.got[ 0 ].prio == level : a.got.empty();
	VC_CHECK( ok, std::string( "method-format-" ) + nm, "enabled %d got %d events, first '%s' level %d", en, (int)a.got.size(), a.got.empty() ? "" : a.got[ 0 ].msg.c_str(), a.got.empty() ? -1 : a.got[ 0 ].prio );
	a.got.clear(); ( c.*strcall )( "100%d %s" ); ok = en ? a.got.size() == 1 && a.got[ 0 ].msg == "100%d %s" && a.got[ 0 ].prio == level : a.got.empty();
	VC_CHECK( ok, std::string( "method-string-" ) + nm, "enabled %d got %d events", en, (int)a.got.size() );
	VC_CHECK( enabledQuery == en, std::string( "method-enabled-" ) + nm, "query %d", enabledQuery );
	a.got.clear(); stream << "s" << 7 << 'c'; VC_CHECK( a.got.empty(), "stream-early", "stream delivered before flush" );
	stream << CategoryStream::ENDLINE; ok = en ? a.got.size() == 1 && a.got[ 0 ].msg == "s7c" && a.got[ 0 ].prio == level : a.got.empty();
	VC_CHECK( ok, std::string( "stream-" ) + nm, "enabled %d got %d events", en, (int)a.got.size() );
	a.got.clear(); stream << "second"; stream.flush(); stream.flush(); ok = en ? a.got.size() == 1 && a.got[ 0 ].msg == "second" : a.got.empty();
	VC_CHECK( ok, std::string( "stream-second-" ) + nm, "enabled %d got %d events", en, (int)a.got.size() );
	vc::step( 5 );
}

static void methods()
{
	int sets[] = { Priority::EMERG, Priority::ALERT, Priority::CRIT, Priority::ERROR, Priority::WARN, Priority::NOTICE, Priority::INFO, Priority::DEBUG, Priority::TRACE, 650, 50 };
	for( int set : sets )
	{
		if( !vc::next( "every logging method with category level %d", set ) ) continue;
		vc::state();
		HierarchyMaintainer hm; RecAppender a( "M" ); Category& c = hm.getInstance( "x.y" ); c.addAppender( a ); c.setPriority( set );
#define LM( lvl, nm, Nm ) { void (Category::*sp)( const std::string& ) = &Category::nm; levelMethods( c, a, lvl, #nm, lvl <= set, []( Category& k ) { k.nm( "v=%d w=%s", 42, "x" ); }, sp, c.is##Nm##Enabled(), c.nm##Stream() ); }
		LM( Priority::DEBUG, debug, Debug ) LM( Priority::INFO, info, Info ) LM( Priority::NOTICE, notice, Notice ) LM( Priority::WARN, warn, Warn )
		LM( Priority::ERROR, error, Error ) LM( Priority::CRIT, crit, Crit ) LM( Priority::ALERT, alert, Alert ) LM( Priority::EMERG, emerg, Emerg ) LM( Priority::FATAL, fatal, Fatal )
		{ bool en = Priority::TRACE <= set; a.got.clear(); c.trace( "v=%d w=%s", 42, "x" ); c.trace( std::string( "100%d" ) );
		  VC_CHECK( en ? a.got.size() == 2 && a.got[ 0 ].msg == "v=42 w=x" && a.got[ 1 ].msg == "100%d" && a.got[ 0 ].prio == Priority::TRACE && a.got[ 1 ].prio == Priority::TRACE : a.got.empty(), "method-trace", "enabled %d got %d", en, (int)a.got.size() ); }
		for( int l : LEVELS )
		{
			bool en = l <= set;
			a.got.clear(); c.log( l, "n %d", 5 ); VC_CHECK( en ? a.got.size() == 1 && a.got[ 0 ].msg == "n 5" && a.got[ 0 ].prio == l : a.got.empty(), "log-format", "level %d got %d", l, (int)a.got.size() );
			a.got.clear(); { c << Priority::Value( l ) << "op" << 1; } VC_CHECK( en ? a.got.size() == 1 && a.got[ 0 ].msg == "op1" && a.got[ 0 ].prio == l : a.got.empty(), "stream-operator", "level %d got %d", l, (int)a.got.size() );
			a.got.clear(); { CategoryStream s = c.getStream( l ); } VC_CHECK( a.got.empty(), "stream-unused", "an unused stream delivered something" );
			for( int len : { 0, 1, 5, 1022, 1023, 1024, 1025, 5000 } ) { std::string big( len, 'x' ); a.got.clear(); viaVa( c, l, "%d-%s-%g", 7, big.c_str(), 0.5 ); VC_CHECK( en ? a.got.size() == 1 && a.got[ 0 ].msg == "7-" + big + "-0.5" && a.got[ 0 ].prio == l : a.got.empty(), "log-arguments", "level %d, %d characters: got %d", l, len, (int)a.got.size() ); }
			// manipulators on enabled and disabled streams
			a.got.clear(); { CategoryStream s = c.getStream( l ); s << "e"; s << log4cpp::eol; } VC_CHECK( en ? a.got.size() == 1 && a.got[ 0 ].msg == "e" : a.got.empty(), "stream-eol", "level %d got %d", l, (int)a.got.size() );
			a.got.clear(); { CategoryStream s = c.getStream( l ); s << log4cpp::eol; s << "f"; s << log4cpp::eol; s << log4cpp::eol; } VC_CHECK( en ? a.got.size() == 1 && a.got[ 0 ].msg == "f" : a.got.empty(), "stream-eol-empty", "level %d got %d", l, (int)a.got.size() );
			a.got.clear(); { CategoryStream s = c.getStream( l ); s.width( 5 ); s << 42; } VC_CHECK( en ? a.got.size() == 1 && a.got[ 0 ].msg == "   42" : a.got.empty(), "stream-width", "level %d got %d", l, (int)a.got.size() );
			a.got.clear(); { CategoryStream s = c.getStream( l ); s << "["; s << log4cpp::left; s.width( 5 ); s << 42; s << "]"; } VC_CHECK( en ? a.got.size() == 1 && a.got[ 0 ].msg == "[42   ]" : a.got.empty(), "stream-left", "level %d got %d", l, (int)a.got.size() );
			vc::outcome( vc::fmt( "m%d", en ) );
			vc::step( 7 );
		}
	}
}

static void fixedContext()
{
	// the fixed-context view of a category delivers like the category itself, with its own context
	int lv[] = { Priority::NOTSET, Priority::ERROR, Priority::DEBUG };
	for( int pr : lv ) for( int own : lv ) for( int when = 0; when < 2; when++ ) for( int add = 0; add < 2; add++ ) for( int kill = 0; kill < 2; kill++ )
	{
		if( !vc::next( "fixed context: parent level %d, own level %d, set %s creation, additive %d, destroyed before reuse %d", pr, own, when ? "after" : "before", add, kill ) ) continue;
		vc::state();
		static int serial = 0; std::string pn = vc::fmt( "fc%d", serial++ ), cn = pn + ".leaf";
		Category &p = Category::getInstance( pn ), &c = Category::getInstance( cn );
		RecAppender a( "FA" ), b( "FB" ); c.addAppender( a ); p.addAppender( b );
		Category::getRoot().setPriority( Priority::INFO );
		if( !when ) { p.setPriority( pr ); c.setPriority( own ); c.setAdditivity( add ); }
		{
			FixedContextCategory f( cn, "ctx" );
			if( when ) { p.setPriority( pr ); c.setPriority( own ); c.setAdditivity( add ); }
			VC_CHECK( f.getContext() == "ctx" && f.getName() == cn, "fixed-context-name", "name %s", f.getName().c_str() );
			VC_CHECK( f.getAllAppenders() == c.getAllAppenders() && f.getAdditivity() == c.getAdditivity(), "fixed-context-delegates", "appenders or additivity differ" );
			for( int l : LEVELS )
			{
				a.got.clear(); b.got.clear();
				int eff = own != Priority::NOTSET ? own : pr != Priority::NOTSET ? pr : Priority::INFO; bool en = l <= eff;
				f.log( l, std::string( "hello" ) );
				Rec r = { cn, "hello", "ctx", l };
				VC_CHECK( a.got.size() == size_t( en ) && ( !en || a.got[ 0 ] == r ), "fixed-context-delivery", "level %d effective %d: %d events", l, eff, (int)a.got.size() );
				VC_CHECK( b.got.size() == size_t( en && add ), "fixed-context-additivity", "level %d: %d events at the parent", l, (int)b.got.size() );
				VC_CHECK( f.isPriorityEnabled( l ) == en, "fixed-context-enabled", "level %d effective %d", l, eff );
			}
			VC_CHECK( f.getAppender() == &a && f.getAppender( "FA" ) == &a && f.getAppender( "FB" ) == 0 && !f.ownsAppender( &a ), "fixed-context-appender", "the appender of the category is not found" );
			f.setContext( "other" ); a.got.clear(); f.log( Priority::EMERG, std::string( "x" ) ); VC_CHECK( a.got.size() == 1 && a.got[ 0 ].ndc == "other", "fixed-context-set", "context not used" );
		}
		// after the view is gone the hierarchy must still be usable
		p.setPriority( Priority::DEBUG ); Category::getRoot().setPriority( Priority::WARN ); Category::getRoot().setPriority( Priority::INFO );
		VC_CHECK( c.getChainedPriority() == ( own != Priority::NOTSET ? own : Priority::DEBUG ), "fixed-context-after", "level %d", c.getChainedPriority() );
		c.removeAllAppenders(); p.removeAllAppenders(); c.setPriority( Priority::NOTSET ); p.setPriority( Priority::NOTSET );
		vc::step( 12 );
	}
}

static void body()
{
	std::vector< Op > ops;
	int pv[] = { Priority::ERROR, Priority::INFO, Priority::TRACE, Priority::NOTSET };
	for( int c = 0; c < 4; c++ ) for( int p : pv ) ops.push_back( Op{ PRIO, c, p } );
	for( int c = 0; c < 4; c++ ) for( int b = 0; b < 2; b++ ) ops.push_back( Op{ ADDIT, c, b } );
	for( int c = 0; c < 4; c++ ) for( int b = 0; b < 2; b++ ) ops.push_back( Op{ ADDAPP, c, b } );
	for( int c = 0; c < 4; c++ ) ops.push_back( Op{ REMAPP, c, 0 } );
	for( int c = 0; c < 4; c++ ) ops.push_back( Op{ REMALL, c, 0 } );
	ops.push_back( Op{ TOUCH, 3, 0 } ); ops.push_back( Op{ TOUCH, 1, 0 } ); ops.push_back( Op{ PRIO, 4, Priority::DEBUG } ); ops.push_back( Op{ ADDAPP, 4, 1 } );
	size_t n = ops.size();
	int depth = vc::pick( 3, 4 );
	for( int pre = 0; pre < 3; pre++ ) for( int d = 0; d <= depth; d++ )
	{
		size_t total = 1; for( int i = 0; i < d; i++ ) total *= n;
		if( d == 4 && pre ) continue;
		if( d == 3 && !vc::thorough() && pre == 1 ) continue;
		for( size_t s = 0; s < total; s++ )
		{
			std::vector< Op > seq; size_t x = s; for( int i = 0; i < d; i++ ) { seq.push_back( ops[ x % n ] ); x /= n; }
			std::string desc; if( vc::S().only >= 0 || vc::S().caseNo % vc::S().nshard == vc::S().shard ) for( auto& o : seq ) desc += " " + opStr( o );
			if( !vc::next( "preset %d:%s", pre, desc.c_str() ) ) continue;
			World w; preset( w, pre );
			for( auto& o : seq ) w.apply( o );
			w.verify();
		}
	}
	methods();
	fixedContext();
	// parents of dotted names
	const char* odd[] = { "a", "a.b", ".a", "a.", "a..b", "..", "x.y.z.w" };
	for( const char* o : odd )
	{
		if( !vc::next( "name '%s'", o ) ) continue;
		HierarchyMaintainer hm; Category& c = hm.getInstance( o ); std::string s( o ); Category* k = &c;
		while( true ) { VC_CHECK( k->getName() == s, "dotted-parent", "got '%s' expected '%s'", k->getName().c_str(), s.c_str() ); if( s.empty() || !k->getParent() ) break; size_t p = s.rfind( '.' ); s = p == std::string::npos ? "" : s.substr( 0, p ); k = k->getParent(); vc::step(); }
		VC_CHECK( s.empty() && !k->getParent(), "dotted-root", "chain of '%s' does not end at the root", o );
	}
	if( vc::next( "default hierarchy" ) )
	{
		RecAppender a( "D" ); Category& r = Category::getRoot(); r.addAppender( a );
		Category::setRootPriority( Priority::WARN ); VC_CHECK( Category::getRootPriority() == Priority::WARN && Category::exists( "nope" ) == 0, "root-priority", "not set" );
		Category& q = Category::getInstance( "dh.q" ); VC_CHECK( Category::exists( "dh" ) == q.getParent() && Category::exists( "dh.q" ) == &q, "default-exists", "lookup" );
		q.warn( "w" ); q.info( "i" ); VC_CHECK( a.got.size() == 1, "default-delivery", "%d", (int)a.got.size() );
		{ std::unique_ptr< std::vector< Category* > > cur( Category::getCurrentCategories() ); int seen[ 3 ] = {}; for( Category* k : *cur ) { seen[ 0 ] += k == &r; seen[ 1 ] += k == q.getParent(); seen[ 2 ] += k == &q; } VC_CHECK( seen[ 0 ] == 1 && seen[ 1 ] == 1 && seen[ 2 ] == 1, "default-categories", "root %d, parent %d, category %d times", seen[ 0 ], seen[ 1 ], seen[ 2 ] ); }
		Category::shutdown(); q.warn( "w" ); VC_CHECK( a.got.size() == 1 && r.getAllAppenders().empty(), "shutdown", "appender still attached" );
		Category::setRootPriority( Priority::INFO );
	}
	// larger hierarchies: chains of every depth with the level, the non-additive link or the appenders at every place
	for( int n = 1; n <= vc::pick( 20, 40 ); n++ ) if( vc::next( "a chain of %d categories", n ) ) for( int at = 0; at <= n; at++ )
	{
		HierarchyMaintainer hm; std::vector< Category* > ch( 1, &hm.getInstance( "" ) ); std::string name; std::vector< std::unique_ptr< RecAppender > > ap;
		for( int i = 1; i <= n; i++ ) { name += ( i > 1 ? "." : "" ) + vc::fmt( "k%d", i ); if( i == n || i % 3 ) ch.push_back( &hm.getInstance( name ) ); else ch.push_back( 0 ); }
		for( int i = n; i > 0; i-- ) if( !ch[ i - 1 ] ) ch[ i - 1 ] = ch[ i ]->getParent();
		for( int i = 0; i <= n; i++ ) { ap.emplace_back( new RecAppender( vc::fmt( "A%d", i ) ) ); ch[ i ]->addAppender( *ap.back() ); }
		ch[ 0 ]->setPriority( Priority::ERROR ); ch[ at ]->setPriority( Priority::NOTICE ); vc::state();
		for( int leaf = 0; leaf <= n; leaf++ )
		{
			bool on = leaf >= at; VC_CHECK( ch[ leaf ]->getChainedPriority() == ( on ? Priority::NOTICE : Priority::ERROR ) && ch[ leaf ]->isNoticeEnabled() == on && !ch[ leaf ]->isInfoEnabled(), "deep-level", "%d categories, level set at %d: effective level %d at %d", n, at, ch[ leaf ]->getChainedPriority(), leaf );
			for( auto& a : ap ) a->got.clear(); ch[ leaf ]->notice( std::string( "m" ) ); vc::step();
			for( int i = 0; i <= n; i++ ) VC_CHECK( ap[ i ]->got.size() == ( on && i <= leaf ? 1u : 0u ), "deep-delivery", "%d categories, level at %d: event at %d reaches appender %d %d times", n, at, leaf, i, (int)ap[ i ]->got.size() );
		}
		ch[ at ]->setAdditivity( false ); for( auto& a : ap ) a->got.clear(); ch[ n ]->error( std::string( "e" ) );
		for( int i = 0; i <= n; i++ ) VC_CHECK( ap[ i ]->got.size() == ( i >= at ? 1u : 0u ), "deep-additivity", "%d categories, not additive at %d: the event reaches appender %d %d times", n, at, i, (int)ap[ i ]->got.size() );
	}
	// many appenders and many siblings
	for( int n = 1; n <= vc::pick( 40, 100 ); n += n < 12 ? 1 : 7 ) if( vc::next( "%d appenders, %d siblings", n, n ) )
	{
		HierarchyMaintainer hm; std::vector< std::unique_ptr< RecAppender > > ap; Category& p = hm.getInstance( "p" ); p.setPriority( Priority::DEBUG ); p.setAdditivity( false ); std::vector< Category* > sib;
		for( int i = 0; i < n; i++ ) { ap.emplace_back( new RecAppender( vc::fmt( "A%d", i ) ) ); p.addAppender( *ap.back() ); sib.push_back( &hm.getInstance( vc::fmt( "p.s%d", i ) ) ); if( i % 2 ) sib.back()->setPriority( Priority::ERROR ); }
		for( int i = 0; i < n; i++ )
		{
			for( auto& a : ap ) a->got.clear(); sib[ i ]->info( std::string( 1 + i * 37, 'm' ) ); vc::state();
			for( int k = 0; k < n; k++ ) VC_CHECK( ap[ k ]->got.size() == ( i % 2 ? 0u : 1u ) && ( i % 2 || ( ap[ k ]->got[ 0 ].msg.size() == (size_t)( 1 + i * 37 ) && ap[ k ]->got[ 0 ].cat == vc::fmt( "p.s%d", i ) ) ), "many-delivery", "%d appenders: event of sibling %d reaches appender %d %d times", n, i, k, (int)ap[ k ]->got.size() );
		}
		p.setPriority( Priority::WARN ); for( int i = 0; i < n; i++ ) VC_CHECK( sib[ i ]->getChainedPriority() == ( i % 2 ? Priority::ERROR : Priority::WARN ), "many-levels", "sibling %d of %d has level %d", i, n, sib[ i ]->getChainedPriority() );
		for( int k = 0; k < n; k++ ) { p.removeAppender( ap[ k ].get() ); for( auto& a : ap ) a->got.clear(); sib[ 0 ]->warn( std::string( "w" ) ); for( int i = 0; i < n; i++ ) VC_CHECK( ap[ i ]->got.size() == ( i > k ? 1u : 0u ), "many-removal", "%d appenders, %d removed: appender %d got %d", n, k + 1, i, (int)ap[ i ]->got.size() ); }
	}
}
VC_MAIN( body() )
