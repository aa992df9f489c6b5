// D01: measurements: time stamp and payload through every sequence of operations, against an ownership model.
#include "vc.hpp"
#include <utMeasurement/Measurement.h>
#include <map>
#include <list>
using Ubitrack::Measurement::Timestamp;
static long g_live = 0;
struct Payload
{
	int v; Payload* self;
	Payload( int a = -1 ) : v( a ), self( this ) { ++g_live; }
	Payload( const Payload& o ) : v( o.v ), self( this ) { ++g_live; }
	Payload& operator=( const Payload& o ) { v = o.v; return *this; }
	~Payload() { if( self != this ) vc::fail( "lifetime", "payload destroyed twice or moved bytewise" ); self = 0; v = -99; --g_live; }
};
static std::ostream& operator<<( std::ostream& s, const Payload& p ) { return s << "P" << p.v; }
typedef Ubitrack::Measurement::Measurement< Payload > Ms;
typedef Ubitrack::Measurement::Measurement< const Payload > CMs;

struct Cell { int v; };
struct Var { Timestamp t = 0; std::shared_ptr< Cell > c; };
struct World
{
	Ms m[ 3 ]; std::vector< Ms > box; boost::shared_ptr< Payload > ext; Payload value;
	Var r[ 3 ]; std::vector< Var > rbox; std::shared_ptr< Cell > rext;
	World() : value( 70 ) {}
};
static const Timestamp T1 = 1, T2 = 1234567890123456789ull, T3 = ~0ull;
static const Timestamp TS[] = { T1, T2, T3 };
static const int NOP = 58;

static std::string name( int op )
{
	int a = op % 3;
	if( op < 3 ) return vc::fmt( "m%d=M()", a ); if( op < 6 ) return vc::fmt( "m%d=M(t)", a ); if( op < 9 ) return vc::fmt( "m%d=M(ptr)", a );
	if( op < 12 ) return vc::fmt( "m%d=M(value)", a ); if( op < 15 ) return vc::fmt( "m%d=M(t,ptr)", a ); if( op < 18 ) return vc::fmt( "m%d=M(t,value)", a );
	if( op < 24 ) { int k = op - 18, i = k / 2, j = ( i + 1 + k % 2 ) % 3; return vc::fmt( "m%d=m%d", i, j ); }
	if( op < 33 ) { int k = op - 24; return vc::fmt( "m%d=m%d.clone()", k / 3, k % 3 ); }
	if( op < 36 ) return vc::fmt( "*m%d=...", a ); if( op < 39 ) return vc::fmt( "m%d.time(...)", a ); if( op < 42 ) return vc::fmt( "m%d.invalidate()", a );
	if( op < 45 ) return vc::fmt( "m%d.reset()", a ); if( op < 48 ) return vc::fmt( "box.push_back(m%d)", a ); if( op < 51 ) return vc::fmt( "m%d=box.back();pop", a );
	if( op < 52 ) return "swap(m0,m1)"; if( op < 55 ) return vc::fmt( "m%d=const cast of m%d", a, a ); if( op < 56 ) return "m2=copy(m0) via constructor"; if( op < 57 ) return "value=71"; return "ext=new";
}

// returns false when the operation is not applicable
static bool apply( World& w, int op, int depth )
{
	int a = op % 3; int nv = 10 * depth + op;
	if( op < 3 ) { w.m[ a ] = Ms(); w.r[ a ] = Var(); return true; }
	if( op < 6 ) { w.m[ a ] = Ms( TS[ a ] ); w.r[ a ] = Var(); w.r[ a ].t = TS[ a ]; return true; }
	if( op < 9 || ( op >= 12 && op < 15 ) )
	{
		if( !w.ext ) { w.ext.reset( new Payload( nv ) ); w.rext.reset( new Cell ); w.rext->v = nv; }
		bool ts = op >= 12; w.m[ a ] = ts ? Ms( TS[ a ], w.ext ) : Ms( w.ext );
		w.r[ a ] = Var(); w.r[ a ].c = w.rext; if( ts ) w.r[ a ].t = TS[ a ]; return true;
	}
	if( op < 12 || op < 18 )
	{
		bool ts = op >= 15; w.m[ a ] = ts ? Ms( TS[ a ], w.value ) : Ms( w.value );
		w.r[ a ] = Var(); w.r[ a ].c.reset( new Cell ); w.r[ a ].c->v = w.value.v; if( ts ) w.r[ a ].t = TS[ a ]; return true;
	}
	if( op < 24 ) { int k = op - 18, i = k / 2, j = ( i + 1 + k % 2 ) % 3; w.m[ i ] = w.m[ j ]; w.r[ i ] = w.r[ j ]; return true; }
	if( op < 33 )
	{
		int k = op - 24, i = k / 3, j = k % 3; w.m[ i ] = w.m[ j ].clone();
		Var n; n.t = w.r[ j ].t; if( w.r[ j ].c ) { n.c.reset( new Cell ); n.c->v = w.r[ j ].c->v; } w.r[ i ] = n; return true;
	}
	if( op < 36 ) { if( !w.r[ a ].c ) return false; *w.m[ a ] = Payload( nv ); w.r[ a ].c->v = nv; return true; }
	if( op < 39 ) { w.m[ a ].time( TS[ ( a + 1 ) % 3 ] - 1 ); w.r[ a ].t = TS[ ( a + 1 ) % 3 ] - 1; return true; }
	if( op < 42 ) { w.m[ a ].invalidate(); w.r[ a ].t = 0; return true; }
	if( op < 45 ) { w.m[ a ].reset(); w.r[ a ].c.reset(); return true; }
	if( op < 48 ) { w.box.push_back( w.m[ a ] ); w.rbox.push_back( w.r[ a ] ); return true; }
	if( op < 51 ) { if( w.box.empty() ) return false; w.m[ a ] = w.box.back(); w.box.pop_back(); w.r[ a ] = w.rbox.back(); w.rbox.pop_back(); return true; }
	if( op < 52 ) { std::swap( w.m[ 0 ], w.m[ 1 ] ); std::swap( w.r[ 0 ], w.r[ 1 ] ); return true; }
	if( op < 55 )
	{
		CMs c( w.m[ a ].time(), boost::shared_ptr< const Payload >( w.m[ a ] ) );
		VC_CHECK( c.get() == w.m[ a ].get() && c.time() == w.m[ a ].time(), "const-view", "payload or time differs" );
		w.m[ a ] = c.constCast< Payload >(); return true;
	}
	if( op < 56 ) { Ms c( w.m[ 0 ] ); w.m[ 2 ] = c; w.r[ 2 ] = w.r[ 0 ]; return true; }
	if( op < 57 ) { w.value.v = 71; return true; }
	w.ext.reset( new Payload( nv ) ); w.rext.reset( new Cell ); w.rext->v = nv; return true;
}

static void compare( World& w )
{
	std::vector< const Ms* > ms; std::vector< const Var* > vs;
	for( int i = 0; i < 3; i++ ) { ms.push_back( &w.m[ i ] ); vs.push_back( &w.r[ i ] ); }
	VC_CHECK( w.box.size() == w.rbox.size(), "container", "size" );
	for( size_t i = 0; i < w.box.size(); i++ ) { ms.push_back( &w.box[ i ] ); vs.push_back( &w.rbox[ i ] ); }
	std::set< Cell* > cells; std::string oc;
	for( size_t i = 0; i < ms.size(); i++ )
	{
		VC_CHECK( ms[ i ]->time() == vs[ i ]->t, "time-stamp", "variable %zu has %llu, expected %llu", i, (unsigned long long)ms[ i ]->time(), (unsigned long long)vs[ i ]->t );
		VC_CHECK( ms[ i ]->invalid() == ( vs[ i ]->t == 0 ), "validity", "variable %zu", i );
		VC_CHECK( ( ms[ i ]->get() != 0 ) == (bool)vs[ i ]->c, "payload-presence", "variable %zu", i );
		if( vs[ i ]->c && ms[ i ]->get() )
		{
			cells.insert( vs[ i ]->c.get() );
			VC_CHECK( ( **ms[ i ] ).v == vs[ i ]->c->v, "payload-value", "variable %zu holds %d, expected %d", i, ( **ms[ i ] ).v, vs[ i ]->c->v );
			VC_CHECK( ms[ i ]->use_count() == vs[ i ]->c.use_count(), "sharing", "variable %zu: %ld sharers, expected %ld", i, ms[ i ]->use_count(), vs[ i ]->c.use_count() );
		}
		for( size_t j = 0; j < i; j++ )
			VC_CHECK( ( ms[ i ]->get() == ms[ j ]->get() ) == ( vs[ i ]->c == vs[ j ]->c ), "sharing", "variables %zu and %zu", j, i );
		if( vs[ i ]->c || vs[ i ]->t == 0 )
		{
			std::ostringstream os; os << *ms[ i ]; std::string got = os.str();
			std::string exp = vs[ i ]->t == 0 ? std::string( "INVALID" ) : vc::fmt( "P%d ", vs[ i ]->c->v ) + Ubitrack::Measurement::timestampToShortString( vs[ i ]->t );
			VC_CHECK( got == exp, "printing", "got %s expected %s", got.c_str(), exp.c_str() );
		}
		oc += vc::fmt( "%llu,%d,%ld;", (unsigned long long)vs[ i ]->t, vs[ i ]->c ? vs[ i ]->c->v : -1, vs[ i ]->c ? vs[ i ]->c.use_count() : 0l );
	}
	if( w.rext ) cells.insert( w.rext.get() );
	VC_CHECK( g_live == (long)cells.size() + 1, "lifetime", "%ld payloads alive, expected %zu", g_live - 1, cells.size() );
	vc::outcome( oc );
}

static void run( const std::vector< int >& ops )
{
	{
		World w;
		for( size_t i = 0; i < ops.size(); i++ ) { if( !apply( w, ops[ i ], (int)i ) ) return; vc::step(); if( i + 1 >= ops.size() ) compare( w ); }
		vc::state();
	}
	VC_CHECK( g_live == 0, "lifetime", "%ld payloads never destroyed", g_live );
	g_live = 0;
}

static void rec( std::vector< int >& ops, int depth )
{
	if( ops.size() ) run( ops );
	if( !depth ) return;
	for( int o = 0; o < NOP; o++ ) { ops.push_back( o ); rec( ops, depth - 1 ); ops.pop_back(); }
}

static void body()
{
	int depth = vc::pick( 4, 5 );
	for( int a = 0; a < NOP; a++ ) for( int b = 0; b < NOP; b++ )
	{
		if( !vc::next( "%s; %s; every continuation up to depth %d", name( a ).c_str(), name( b ).c_str(), depth ) ) continue;
		std::vector< int > o; o.push_back( a ); if( b == 0 ) run( o );
		o.push_back( b ); rec( o, depth - 2 );
	}
}
VC_MAIN( body() )
