// L02: appender ownership, lifetime and lookup, all operation sequences against an ownership model.  Built with ASan.
#include "logrec.hpp"
#include <memory>
using namespace log4cpp;
enum { NA = 3, NC = 2 };
static const char* NAME[ NA ] = { "x", "y", "x" };   // two appenders share a name
static const char* CAT[ NC ] = { "a", "a.b" };
enum { ADDPTR, ADDREF, REMOVE, DESTROY, REMALL, SHUTDOWN, SETNULL };
struct Op { int kind, c, a; };
static std::string opStr( const Op& o )
{
	const char* k[] = { "addAppender(ptr)", "addAppender(ref)", "removeAppender", "destroy", "removeAllAppenders", "shutdown", "setAppender(0)" };
	return vc::fmt( "%s[%s,A%d:%s]", k[ o.kind ], CAT[ o.c ], o.a, NAME[ o.a ] );
}
static int gAlive[ NA ]; static int gDtor[ NA ], gReopen[ NA ], gClose[ NA ]; static bool gFailReopen[ NA ];
static bool gPool; static std::vector< void* > gFree;   // with the pool on, a new appender takes the place of the one destroyed last
struct Tr : public AppenderSkeleton
{
	static void* operator new( size_t n ) { if( gPool && !gFree.empty() ) { void* p = gFree.back(); gFree.pop_back(); return p; } return ::operator new( n ); }
	static void operator delete( void* p ) { if( gPool ) gFree.push_back( p ); else ::operator delete( p ); }
	int id; int hits;
	Tr( int i ) : AppenderSkeleton( NAME[ i ] ), id( i ), hits( 0 ) { ++gAlive[ i ]; }
	~Tr() { --gAlive[ id ]; ++gDtor[ id ]; }
	void close() { ++gClose[ id ]; } bool reopen() { ++gReopen[ id ]; return !gFailReopen[ id ]; }
	bool requiresLayout() const { return false; } void setLayout( Layout* ) {}
	void _append( const LoggingEvent& ) { ++hits; }
};
struct World
{
	std::unique_ptr< HierarchyMaintainer > hm; Tr* app[ NA ]; bool in[ NC ][ NA ], own[ NC ][ NA ]; std::vector< int > order;  // construction order of living appenders
	int dtor[ NA ];
	World() : hm( new HierarchyMaintainer ) { for( int a = 0; a < NA; a++ ) { app[ a ] = 0; gAlive[ a ] = gDtor[ a ] = dtor[ a ] = 0; for( int c = 0; c < NC; c++ ) in[ c ][ a ] = own[ c ][ a ] = false; } }
	~World() { hm.reset(); for( int a = 0; a < NA; a++ ) if( app[ a ] ) delete app[ a ]; }
	bool owned( int a ) const { for( int c = 0; c < NC; c++ ) if( own[ c ][ a ] ) return true; return false; }
	bool used( int a ) const { for( int c = 0; c < NC; c++ ) if( in[ c ][ a ] ) return true; return false; }
	// caller-side contract: one owner, no living reference to what an owner is told to drop
	bool legal( const Op& o ) const
	{
		switch( o.kind )
		{
		case ADDPTR: for( int c = 0; c < NC; c++ ) if( c != o.c && own[ c ][ o.a ] ) return false; return !( in[ o.c ][ o.a ] && !own[ o.c ][ o.a ] );
		case ADDREF: return true;
		case REMOVE: if( own[ o.c ][ o.a ] ) for( int c = 0; c < NC; c++ ) if( c != o.c && in[ c ][ o.a ] ) return false; return app[ o.a ] != 0;
		case DESTROY: return app[ o.a ] && !used( o.a );
		case REMALL: case SETNULL: for( int a = 0; a < NA; a++ ) if( own[ o.c ][ a ] ) for( int c = 0; c < NC; c++ ) if( c != o.c && in[ c ][ a ] ) return false; return true;
		default: return true;
		}
	}
	void gone( int a ) { app[ a ] = 0; dtor[ a ]++; for( size_t i = 0; i < order.size(); i++ ) if( order[ i ] == a ) { order.erase( order.begin() + i ); break; } }
	void drop( int c, int a ) { if( !in[ c ][ a ] ) return; bool o = own[ c ][ a ]; in[ c ][ a ] = own[ c ][ a ] = false; if( o ) gone( a ); }
	Category& cat( int c ) { return hm->getInstance( CAT[ c ] ); }
	void apply( const Op& o )
	{
		if( ( o.kind == ADDPTR || o.kind == ADDREF ) && !app[ o.a ] ) { app[ o.a ] = new Tr( o.a ); order.push_back( o.a ); }
		switch( o.kind )
		{
		case ADDPTR: cat( o.c ).addAppender( app[ o.a ] ); if( !in[ o.c ][ o.a ] ) { in[ o.c ][ o.a ] = own[ o.c ][ o.a ] = true; } break;
		case ADDREF: cat( o.c ).addAppender( *app[ o.a ] ); in[ o.c ][ o.a ] = true; break;
		case REMOVE: cat( o.c ).removeAppender( app[ o.a ] ); drop( o.c, o.a ); break;
		case DESTROY: delete app[ o.a ]; gone( o.a ); break;
		case REMALL: cat( o.c ).removeAllAppenders(); for( int a = 0; a < NA; a++ ) drop( o.c, a ); break;
		case SETNULL: cat( o.c ).setAppender( (Appender*)0 ); for( int a = 0; a < NA; a++ ) drop( o.c, a ); break;
		case SHUTDOWN: hm->shutdown(); for( int c = 0; c < NC; c++ ) for( int a = 0; a < NA; a++ ) drop( c, a ); break;
		}
		vc::step();
	}
	void verify( const char* when )
	{
		for( int a = 0; a < NA; a++ )
		{
			VC_CHECK( gAlive[ a ] == ( app[ a ] ? 1 : 0 ) && gDtor[ a ] == dtor[ a ], "lifetime", "%s: appender A%d alive %d (expected %d), destroyed %d times (expected %d)", when, a, gAlive[ a ], app[ a ] ? 1 : 0, gDtor[ a ], dtor[ a ] );
		}
		for( int a = 0; a < NA; a++ ) if( gAlive[ a ] != ( app[ a ] ? 1 : 0 ) ) return;
		if( !hm ) return;
		int expect[ NA ] = { 0, 0, 0 };
		for( int c = 0; c < NC; c++ )
		{
			AppenderSet s, g = cat( c ).getAllAppenders(); for( int a = 0; a < NA; a++ ) if( in[ c ][ a ] ) s.insert( app[ a ] );
			VC_CHECK( s == g, "set", "%s: category %s holds %d appenders, expected %d", when, CAT[ c ], (int)g.size(), (int)s.size() );
			Appender* f = cat( c ).getAppender(); VC_CHECK( s.empty() ? f == 0 : s.count( f ) == 1, "first", "%s: getAppender() of %s", when, CAT[ c ] );
			for( int a = 0; a < NA; a++ ) if( app[ a ] )
				VC_CHECK( cat( c ).ownsAppender( app[ a ] ) == own[ c ][ a ], "owns", "%s: category %s, A%d: owns %d expected %d", when, CAT[ c ], a, !own[ c ][ a ], own[ c ][ a ] );
			const char* names[] = { "x", "y", "nope", "" };
			for( const char* n : names )
			{
				Appender* r = cat( c ).getAppender( n ); bool any = false, ok = false;
				for( int a = 0; a < NA; a++ ) if( in[ c ][ a ] && !strcmp( NAME[ a ], n ) ) { any = true; if( r == app[ a ] ) ok = true; }
				VC_CHECK( any ? ok : r == 0, "category-lookup", "%s: getAppender('%s') of category %s returns %s", when, n, CAT[ c ], r ? r->getName().c_str() : "null" );
			}
		}
		for( int a = 0; a < NA; a++ ) { if( in[ 0 ][ a ] ) expect[ a ] += 2; if( in[ 1 ][ a ] ) expect[ a ] += 1; if( app[ a ] ) app[ a ]->hits = 0; }
		cat( 0 ).fatal( "one" ); cat( 1 ).fatal( "two" );
		for( int a = 0; a < NA; a++ ) if( app[ a ] ) VC_CHECK( app[ a ]->hits == expect[ a ], "delivery", "%s: A%d got %d events, expected %d", when, a, app[ a ]->hits, expect[ a ] );
		const char* names[] = { "x", "y", "nope" };
		for( const char* n : names )
		{
			Appender* r = Appender::getAppender( n ), *e = 0; bool known = false, shadowed = false; // newest of that name, if it never was shadowed by a destroyed one
			for( int a : order ) if( !strcmp( NAME[ a ], n ) ) { e = app[ a ]; if( r == app[ a ] ) known = true; }
			(void)shadowed;
			VC_CHECK( e ? r == 0 || known : r == 0, "registry-dangling", "%s: Appender::getAppender('%s') returns an appender that does not exist", when, n );
			int cnt = 0; for( int a : order ) cnt += !strcmp( NAME[ a ], n );
			if( cnt == 1 && newestRegistered( n ) ) VC_CHECK( r == e, "registry", "%s: Appender::getAppender('%s') does not find the living appender", when, n );
		}
		for( int a = 0; a < NA; a++ ) vc::outcome( vc::fmt( "%d%d%d%d%d", app[ a ] != 0, in[ 0 ][ a ], in[ 1 ][ a ], own[ 0 ][ a ], own[ 1 ][ a ] ) );
	}
	// the living appender of that name was constructed after every other appender of the name that has existed
	std::vector< int > everX; // construction sequence for name "x"
	bool newestRegistered( const char* n ) const { if( strcmp( n, "x" ) ) return true; for( int a : order ) if( !strcmp( NAME[ a ], "x" ) ) return lastX == a; return false; }
	int lastX = -1;
};
static std::vector< Op > ALPHA;
static void run( const std::vector< int >& seq )
{
	World w;
	for( int i : seq )
	{
		const Op& o = ALPHA[ i ];
		if( ( o.kind == ADDPTR || o.kind == ADDREF ) && !w.app[ o.a ] && !strcmp( NAME[ o.a ], "x" ) ) w.lastX = o.a;
		w.apply( o );
	}
	w.verify( "after the sequence" ); vc::state();
	w.hm.reset();
	for( int c = 0; c < NC; c++ ) for( int a = 0; a < NA; a++ ) w.drop( c, a );
	w.verify( "after the hierarchy is gone" );
}
// legality depends only on the model; explore legal sequences depth first
struct MW { bool app[ NA ], in[ NC ][ NA ], own[ NC ][ NA ]; };
static bool legal( const MW& m, const Op& o )
{
	switch( o.kind )
	{
	case ADDPTR: for( int c = 0; c < NC; c++ ) if( c != o.c && m.own[ c ][ o.a ] ) return false; return !( m.in[ o.c ][ o.a ] && !m.own[ o.c ][ o.a ] );
	case ADDREF: return true;
	case REMOVE: if( m.own[ o.c ][ o.a ] ) for( int c = 0; c < NC; c++ ) if( c != o.c && m.in[ c ][ o.a ] ) return false; return m.app[ o.a ];
	case DESTROY: return m.app[ o.a ] && !m.in[ 0 ][ o.a ] && !m.in[ 1 ][ o.a ];
	case REMALL: case SETNULL: for( int a = 0; a < NA; a++ ) if( m.own[ o.c ][ a ] ) for( int c = 0; c < NC; c++ ) if( c != o.c && m.in[ c ][ a ] ) return false; return true;
	default: return true;
	}
}
static void drop( MW& m, int c, int a ) { if( m.in[ c ][ a ] && m.own[ c ][ a ] ) m.app[ a ] = false; m.in[ c ][ a ] = m.own[ c ][ a ] = false; }
static void advance( MW& m, const Op& o )
{
	switch( o.kind )
	{
	case ADDPTR: m.app[ o.a ] = true; if( !m.in[ o.c ][ o.a ] ) m.in[ o.c ][ o.a ] = m.own[ o.c ][ o.a ] = true; break;
	case ADDREF: m.app[ o.a ] = true; m.in[ o.c ][ o.a ] = true; break;
	case REMOVE: drop( m, o.c, o.a ); break;
	case DESTROY: m.app[ o.a ] = false; break;
	case REMALL: case SETNULL: for( int a = 0; a < NA; a++ ) drop( m, o.c, a ); break;
	case SHUTDOWN: for( int c = 0; c < NC; c++ ) for( int a = 0; a < NA; a++ ) drop( m, c, a ); break;
	}
}
static void explore( std::vector< int >& seq, const MW& m, int depth )
{
	std::string d; for( int i : seq ) d += opStr( ALPHA[ i ] ) + " ";
	if( vc::next( "%s", d.c_str() ) ) { run( seq ); gPool = true; run( seq ); gPool = false; }
	if( depth == 0 ) return;
	for( size_t i = 0; i < ALPHA.size(); i++ ) if( legal( m, ALPHA[ i ] ) ) { MW n = m; advance( n, ALPHA[ i ] ); seq.push_back( (int)i ); explore( seq, n, depth - 1 ); seq.pop_back(); }
}
static void body()
{
	for( int c = 0; c < NC; c++ ) for( int a = 0; a < NA; a++ ) for( int k = ADDPTR; k <= REMOVE; k++ ) ALPHA.push_back( Op{ k, c, a } );
	for( int a = 0; a < NA; a++ ) ALPHA.push_back( Op{ DESTROY, 0, a } );
	for( int c = 0; c < NC; c++ ) { ALPHA.push_back( Op{ REMALL, c, 0 } ); ALPHA.push_back( Op{ SETNULL, c, 0 } ); }
	ALPHA.push_back( Op{ SHUTDOWN, 0, 0 } );
	std::vector< int > s; MW m; memset( &m, 0, sizeof m ); explore( s, m, vc::pick( 4, 5 ) );
	if( vc::next( "null appender" ) )
	{
		HierarchyMaintainer hm; Category& c = hm.getInstance( "q" ); bool t = false; try { c.addAppender( (Appender*)0 ); } catch( const std::invalid_argument& ) { t = true; }
		VC_CHECK( t, "null-refused", "addAppender(NULL) not refused" ); VC_CHECK( c.getAllAppenders().empty() && !c.ownsAppender( 0 ) && !c.ownsAppender(), "null-refused", "state changed" ); c.removeAppender( 0 );
	}
	// the registry-wide operations reach every living appender, whatever the others answer
	for( int mask = 0; mask < 4; mask++ ) for( int n = 1; n <= 2; n++ ) if( vc::next( "reopenAll/closeAll with %d appenders, failing mask %d", n, mask ) )
	{
		for( int i = 0; i < NA; i++ ) { gReopen[ i ] = gClose[ i ] = 0; gFailReopen[ i ] = false; }
		{
			Tr a( 0 ); std::unique_ptr< Tr > b( n > 1 ? new Tr( 1 ) : 0 ); gFailReopen[ 0 ] = mask & 1; gFailReopen[ 1 ] = mask & 2;
			bool r = Appender::reopenAll(); bool e = !( mask & 1 ) && !( n > 1 && ( mask & 2 ) );
			VC_CHECK( r == e, "reopenAll-result", "%d expected %d", r, e ); VC_CHECK( gReopen[ 0 ] == 1 && gReopen[ 1 ] == n - 1, "reopenAll-all", "reopened %d and %d times", gReopen[ 0 ], gReopen[ 1 ] );
			Appender::closeAll(); VC_CHECK( gClose[ 0 ] == 1 && gClose[ 1 ] == n - 1, "closeAll-all", "closed %d and %d times", gClose[ 0 ], gClose[ 1 ] );
			VC_CHECK( gAlive[ 0 ] == 1 && gAlive[ 1 ] == n - 1, "closeAll-alive", "closing destroyed an appender" );
		}
		vc::step( 2 ); gFailReopen[ 0 ] = gFailReopen[ 1 ] = false;
		Appender::reopenAll(); VC_CHECK( gReopen[ 0 ] == 1, "reopenAll-dead", "a destroyed appender was reopened" );
	}
	// many appenders: owned and referenced ones mixed, removed in several orders, found by name until then
	for( int n = 4; n <= vc::pick( 40, 90 ); n += n < 12 ? 1 : 7 ) for( int order = 0; order < 4; order++ ) for( int own = 1; own <= 4; own++ ) if( vc::next( "%d appenders, every %d-th owned, removal order %d", n, own, order ) )
	{
		vc::state(); int alive = 0; std::vector< std::unique_ptr< RecAppender > > keep; std::vector< RecAppender* > all; std::vector< bool > in( n, true );
		{
			HierarchyMaintainer hm; Category& c = hm.getInstance( "many" ); c.setPriority( Priority::DEBUG );
			for( int i = 0; i < n; i++ ) { RecAppender* a = new RecAppender( vc::fmt( "N%d", i ), &alive ); all.push_back( a ); if( i % own == 0 ) c.addAppender( a ); else { keep.emplace_back( a ); c.addAppender( *a ); } }
			VC_CHECK( alive == n && c.getAllAppenders().size() == (size_t)n, "many", "%d of %d appenders alive, %d attached", alive, n, (int)c.getAllAppenders().size() );
			int left = n, expect = n;
			for( int k = 0; k < n - 2; k++ )
			{
				int i = order == 0 ? k : order == 1 ? n - 1 - k : order == 2 ? ( k % 2 ? n - 1 - k / 2 : k / 2 ) : ( k * 2 < n ? k * 2 : ( k - ( n + 1 ) / 2 ) * 2 + 1 );
				if( !in[ i ] ) continue; VC_CHECK( c.getAppender( vc::fmt( "N%d", i ) ) == all[ i ] && Appender::getAppender( vc::fmt( "N%d", i ) ) == all[ i ] && c.ownsAppender( all[ i ] ) == ( i % own == 0 ), "many-lookup", "appender %d of %d is not found before its removal", i, n );
				c.removeAppender( all[ i ] ); in[ i ] = false; left--; if( i % own == 0 ) expect--; vc::step();
				VC_CHECK( alive == expect && c.getAllAppenders().size() == (size_t)left && c.getAppender( vc::fmt( "N%d", i ) ) == 0 && ( Appender::getAppender( vc::fmt( "N%d", i ) ) != 0 ) == ( i % own != 0 ), "many-removal", "%d appenders, removing %d: %d alive, expected %d, %d attached, expected %d", n, i, alive, expect, (int)c.getAllAppenders().size(), left );
			}
			for( int i = 0; i < n; i++ ) if( in[ i ] ) all[ i ]->got.clear(); c.info( std::string( "x" ) ); for( int i = 0; i < n; i++ ) if( in[ i ] ) VC_CHECK( all[ i ]->got.size() == 1, "many-event", "appender %d of %d got %d events", i, n, (int)all[ i ]->got.size() );
		}
		VC_CHECK( alive == (int)keep.size(), "many-end", "%d appenders alive behind the hierarchy, expected %d", alive, (int)keep.size() );
		keep.clear(); VC_CHECK( alive == 0, "many-end", "%d appenders left", alive );
	}
}
VC_MAIN( body() )
