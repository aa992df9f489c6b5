// Stateless exploration of thread interleavings of real code on one OS thread.
//
// Threads are fibers. The code under test is compiled with -fsanitize=thread but linked without the
// sanitizer's runtime: the __tsan_* entry points and the wrapped pthread functions below are the
// scheduling points and feed a vector-clock race detector. Heap blocks freed during an execution stay
// quarantined until its end, so that any access to them is seen.
#ifndef MC_HPP
#define MC_HPP
#include <ucontext.h>
#include <pthread.h>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdio>
#include <new>
#include <map>
#include <string>
#include <vector>
#include <functional>
#define NOT __attribute__(( no_sanitize( "thread" ), noinline ))
namespace mc
{
	enum { MAXT = 4 };
	struct Cell { uintptr_t a; unsigned epoch; bool freed; unsigned wc[ MAXT ], rc[ MAXT ]; unsigned char wm[ MAXT ], rm[ MAXT ]; };
	struct Mutex { int owner, depth; unsigned vc[ MAXT ]; };
	struct Fiber { ucontext_t ctx; char* stack; bool done; void* waits; unsigned vc[ MAXT ]; void* tls[ 64 ]; };
	struct G
	{
		bool on = false;            // an execution is running
		bool quiet = true;          // the harness itself is running: no tracking, no scheduling
		int cur = -1, n = 0; Fiber f[ MAXT ]; ucontext_t main;
		Cell* tab = 0; size_t mask = 0; unsigned epoch = 0;
		const char* bad = 0; char what[ 300 ];
		// schedule
		int bound = 2, preempt = 0; std::vector< int > pick, width; size_t at = 0; bool abort = false; unsigned long points = 0, nondet = 0;
		void ( *dtor[ 64 ] )( void* );
		std::function< void( int ) > run; std::map< void*, Mutex >* mx = 0;
	};
	inline G& g() { static G* x = new G; return *x; }
	extern G* gp; inline bool& setupFlag() { static bool b = false; return b; }
	struct Quiet { bool o; NOT Quiet() : o( gp ? gp->quiet : true ) { if( gp ) gp->quiet = true; } NOT ~Quiet() { gp->quiet = o; } };
	NOT inline void bad( const char* key, const char* text ) { if( gp->bad ) return; gp->bad = key; snprintf( gp->what, sizeof gp->what, "%s", text ); }
	NOT inline bool enabled( int i ) { Fiber& x = gp->f[ i ]; if( x.done ) return false; if( !x.waits ) return true; auto it = gp->mx->find( x.waits ); return it == gp->mx->end() || it->second.owner < 0; }
	// choose the next thread; called on the running fiber (or on the main context at start and at the end of a fiber)
	NOT inline int choose()
	{
		int opt[ MAXT ], k = 0; bool self = gp->cur >= 0 && enabled( gp->cur ); if( self ) opt[ k++ ] = gp->cur; if( !self || gp->preempt < gp->bound ) for( int i = 0; i < gp->n; i++ ) if( i != gp->cur && enabled( i ) ) opt[ k++ ] = i;
		if( !k ) return -1; int c = 0; if( k > 1 ) { if( gp->at < gp->pick.size() ) { c = gp->pick[ gp->at ]; if( gp->width[ gp->at ] != k ) { gp->nondet++; if( c >= k ) c = k - 1; } } else { gp->pick.push_back( 0 ); gp->width.push_back( k ); } gp->at++; } if( self && c ) gp->preempt++; return opt[ c ];
	}
	NOT inline void switchTo( int i ) { Fiber* from = gp->cur >= 0 ? &gp->f[ gp->cur ] : 0; gp->cur = i; swapcontext( from ? &from->ctx : &gp->main, i < 0 ? &gp->main : &gp->f[ i ].ctx ); }
	NOT inline void point()
	{
		if( !gp || !gp->on || gp->cur < 0 || gp->quiet ) return; Quiet q; if( ++gp->points > 20000 ) { bad( "livelock", "more than 20000 steps" ); gp->abort = true; } if( gp->abort ) { switchTo( -1 ); }
		int i = choose(); if( i < 0 ) { gp->abort = true; switchTo( -1 ); } if( i != gp->cur ) { bool o = gp->quiet; switchTo( i ); gp->quiet = o; }
	}
	NOT inline bool onStack( uintptr_t a ) { for( int i = 0; i < gp->n; i++ ) if( gp->f[ i ].stack && a - (uintptr_t)gp->f[ i ].stack < 131072 ) return true; return false; }
	NOT inline Cell* cell( uintptr_t a, bool make ) { size_t h = ( ( a >> 3 ) * 0x9E3779B97F4A7C15ull >> 20 ) & gp->mask; for( ;; h = ( h + 1 ) & gp->mask ) { Cell& c = gp->tab[ h ]; if( c.epoch != gp->epoch ) { if( !make ) return 0; memset( &c, 0, sizeof c ); c.epoch = gp->epoch; c.a = a; return &c; } if( c.a == a ) return &c; } }
	NOT inline void race( const char* what, int t, const char* other, int i ) { Quiet q; char b[ 120 ]; snprintf( b, sizeof b, "%s by thread %d and unordered %s by thread %d", what, t, other, i ); bad( "race", b ); }
	NOT inline void access( uintptr_t a, size_t n, bool w, bool freeing = false )
	{
		if( !gp || !gp->on || gp->cur < 0 || gp->quiet || onStack( a ) ) return; int t = gp->cur; unsigned* my = gp->f[ t ].vc;
		while( n )
		{
			uintptr_t b = a & ~(uintptr_t)7; size_t o = a - b, k = n < 8 - o ? n : 8 - o; unsigned char m = ( ( 1u << k ) - 1 ) << o; Cell* c = cell( b, true );
			if( c->freed ) bad( freeing ? "double-free" : "use-after-free", w ? "write to a deleted object" : "read of a deleted object" );
			for( int i = 0; i < gp->n; i++ ) if( i != t ) { if( ( c->wm[ i ] & m ) && c->wc[ i ] > my[ i ] ) race( freeing ? "deletion" : w ? "write" : "read", t, "write", i ); if( w && ( c->rm[ i ] & m ) && c->rc[ i ] > my[ i ] ) race( freeing ? "deletion" : "write", t, "read", i ); }
			if( w ) { c->wm[ t ] = c->wc[ t ] == my[ t ] ? c->wm[ t ] | m : m; c->wc[ t ] = my[ t ]; } else { c->rm[ t ] = c->rc[ t ] == my[ t ] ? c->rm[ t ] | m : m; c->rc[ t ] = my[ t ]; }
			if( freeing ) c->freed = true; a += k; n -= k;
		}
	}
	NOT inline void fresh( uintptr_t a, size_t n ) { if( gp->on ) for( uintptr_t b = a & ~(uintptr_t)7; b < a + n; b += 8 ) { Cell* c = cell( b, false ); if( c ) { uintptr_t k = c->a; unsigned e = c->epoch; memset( c, 0, sizeof *c ); c->a = k; c->epoch = e; } } }
	NOT inline void acquire( Mutex& m ) { unsigned* v = gp->f[ gp->cur ].vc; for( int i = 0; i < MAXT; i++ ) if( m.vc[ i ] > v[ i ] ) v[ i ] = m.vc[ i ]; }
	NOT inline void release( Mutex& m ) { unsigned* v = gp->f[ gp->cur ].vc; for( int i = 0; i < MAXT; i++ ) if( v[ i ] > m.vc[ i ] ) m.vc[ i ] = v[ i ]; v[ gp->cur ]++; }
	NOT inline Mutex& mutexOf( void* p ) { auto it = gp->mx->find( p ); if( it == gp->mx->end() ) { Mutex m; m.owner = -1; m.depth = 0; memset( m.vc, 0, sizeof m.vc ); it = gp->mx->insert( std::make_pair( p, m ) ).first; } return it->second; }
	NOT inline bool active() { return gp && gp->on && gp->cur >= 0; }
	NOT inline void lock( void* p, bool recursive = false )
	{
		point(); bool o = gp->quiet; gp->quiet = true; Fiber& x = gp->f[ gp->cur ]; Cell* c = cell( (uintptr_t)p & ~(uintptr_t)7, false ); if( c && c->freed ) bad( "use-after-free", "lock of a deleted mutex" ); if( recursive && mutexOf( p ).owner == gp->cur ) { mutexOf( p ).depth++; gp->quiet = o; return; }
		if( mutexOf( p ).owner >= 0 ) { x.waits = p; int i = choose(); if( i < 0 ) { gp->abort = true; bad( "deadlock", "every remaining thread waits for a lock" ); switchTo( -1 ); } if( i != gp->cur ) switchTo( i ); x.waits = 0; }
		Mutex& m = mutexOf( p ); m.owner = gp->cur; acquire( m ); gp->quiet = o;
	}
	// a release commutes with everything other threads can do next, so there is no switch at it
	NOT inline void unlock( void* p ) { { Quiet q; Mutex& m = mutexOf( p ); if( m.owner != gp->cur ) bad( "unlock", "unlock of a mutex the thread does not hold" ); if( m.depth ) { m.depth--; return; } m.owner = -1; release( m ); } }
	NOT inline bool trylock( void* p ) { point(); Quiet q; Mutex& m = mutexOf( p ); if( m.owner >= 0 ) return false; m.owner = gp->cur; acquire( m ); return true; }
	NOT inline void sync( void* p, bool acq, bool rel ) { if( !active() || gp->quiet ) return; point(); Quiet q; Mutex& m = mutexOf( p ); if( acq ) acquire( m ); if( rel ) release( m ); }
	NOT inline void entry( int i )
	{
		gp->quiet = false; gp->run( i ); gp->quiet = true; Fiber& x = gp->f[ i ]; for( int k = 0; k < 64; k++ ) if( x.tls[ k ] && gp->dtor[ k ] ) { void* p = x.tls[ k ]; x.tls[ k ] = 0; gp->quiet = false; gp->dtor[ k ]( p ); gp->quiet = true; }
		x.done = true; int n = choose(); if( n < 0 ) for( int k = 0; k < gp->n; k++ ) if( !gp->f[ k ].done ) bad( "deadlock", "every remaining thread waits for a lock" ); switchTo( n );
	}
	// one execution of the threads, following the choices in pick; true if it ran to its end
	NOT inline bool execute( int n, const std::function< void( int ) >& run )
	{
		G& x = *gp; x.quiet = true; if( !x.tab ) { x.mask = ( 1u << 16 ) - 1; x.tab = (Cell*)calloc( x.mask + 1, sizeof( Cell ) ); x.mx = new std::map< void*, Mutex >; for( auto& f : x.f ) f.stack = (char*)aligned_alloc( 64, 131072 ); } x.epoch++; x.mx->clear(); x.n = n; x.run = run; x.bad = 0; x.preempt = 0; x.at = 0; x.abort = false; x.points = 0; x.cur = -1;
		for( int i = 0; i < n; i++ ) { Fiber& f = x.f[ i ]; f.done = false; f.waits = 0; memset( f.vc, 0, sizeof f.vc ); f.vc[ i ] = 1; memset( f.tls, 0, sizeof f.tls ); getcontext( &f.ctx ); f.ctx.uc_stack.ss_sp = f.stack; f.ctx.uc_stack.ss_size = 131072; f.ctx.uc_link = 0; makecontext( &f.ctx, (void (*)())entry, 1, i ); }
		x.on = true; switchTo( choose() ); x.on = false; x.cur = -1; x.quiet = true; return !x.abort;
	}
	// next choice sequence in depth-first order; false when all have been explored
	NOT inline bool advance() { G& x = *gp; while( !x.pick.empty() ) { if( x.pick.back() + 1 < x.width.back() ) { x.pick.back()++; return true; } x.pick.pop_back(); x.width.pop_back(); } return false; }
	NOT inline std::string schedule() { std::string s; for( int c : gp->pick ) s += (char)( '0' + c ); return s; }
}
extern "C" char __executable_start, _end;
// the guard of a function-local static that is already initialised: never changes again
namespace mc { NOT inline bool guard( uintptr_t a ) { return a >= (uintptr_t)&__executable_start && a < (uintptr_t)&_end && *(const volatile char*)a == 1; } }
mc::G* mc::gp = &mc::g();
extern "C"
{
	int __real_pthread_mutex_lock( pthread_mutex_t* ); int __real_pthread_mutex_unlock( pthread_mutex_t* ); int __real_pthread_mutex_trylock( pthread_mutex_t* ); int __real_pthread_key_create( pthread_key_t*, void ( * )( void* ) ); void* __real_pthread_getspecific( pthread_key_t ); int __real_pthread_setspecific( pthread_key_t, const void* ); pthread_t __real_pthread_self();
	NOT int __wrap_pthread_mutex_lock( pthread_mutex_t* m ) { if( !mc::active() ) return __real_pthread_mutex_lock( m ); if( !mc::gp->quiet ) mc::lock( m, ( m->__data.__kind & 3 ) == PTHREAD_MUTEX_RECURSIVE_NP ); return 0; }
	NOT int __wrap_pthread_rwlock_rdlock( pthread_rwlock_t* m ) { if( mc::active() && !mc::gp->quiet ) mc::lock( m, true ); return 0; } NOT int __wrap_pthread_rwlock_wrlock( pthread_rwlock_t* m ) { if( mc::active() && !mc::gp->quiet ) mc::lock( m ); return 0; } NOT int __wrap_pthread_rwlock_unlock( pthread_rwlock_t* m ) { if( mc::active() && !mc::gp->quiet ) mc::unlock( m ); return 0; }
	NOT int __wrap_pthread_mutex_unlock( pthread_mutex_t* m ) { if( !mc::active() ) return __real_pthread_mutex_unlock( m ); if( !mc::gp->quiet ) mc::unlock( m ); return 0; }
	NOT int __wrap_pthread_mutex_trylock( pthread_mutex_t* m ) { if( !mc::active() ) return __real_pthread_mutex_trylock( m ); return mc::gp->quiet || mc::trylock( m ) ? 0 : 16; }
	NOT int __wrap_pthread_key_create( pthread_key_t* k, void ( *d )( void* ) ) { int r = __real_pthread_key_create( k, d ); if( !mc::gp ) mc::gp = &mc::g(); if( !r && *k < 64 ) mc::gp->dtor[ *k ] = d; return r; }
	NOT void* __wrap_pthread_getspecific( pthread_key_t k ) { return mc::active() && k < 64 ? mc::gp->f[ mc::gp->cur ].tls[ k ] : __real_pthread_getspecific( k ); }
	NOT int __wrap_pthread_setspecific( pthread_key_t k, const void* v ) { if( mc::active() && k < 64 ) { mc::gp->f[ mc::gp->cur ].tls[ k ] = (void*)v; return 0; } return __real_pthread_setspecific( k, v ); }
	NOT pthread_t __wrap_pthread_self() { return mc::active() ? (pthread_t)( 4242 + mc::gp->cur ) : __real_pthread_self(); }
	NOT void __tsan_init() {} NOT void __tsan_func_entry( void* ) {} NOT void __tsan_func_exit( void* ) {}
#define MC_RW( n ) \
	NOT void __tsan_read##n( void* a ) { mc::access( (uintptr_t)a, n, false ); } NOT void __tsan_write##n( void* a ) { mc::access( (uintptr_t)a, n, true ); } \
	NOT void __tsan_unaligned_read##n( void* a ) { mc::access( (uintptr_t)a, n, false ); } NOT void __tsan_unaligned_write##n( void* a ) { mc::access( (uintptr_t)a, n, true ); } \
	NOT void __tsan_volatile_read##n( void* ) { mc::point(); } NOT void __tsan_volatile_write##n( void* ) { mc::point(); } NOT void __tsan_unaligned_volatile_read##n( void* ) { mc::point(); } NOT void __tsan_unaligned_volatile_write##n( void* ) { mc::point(); }
	MC_RW( 1 ) MC_RW( 2 ) MC_RW( 4 ) MC_RW( 8 ) MC_RW( 16 )
	NOT void __tsan_read_range( void* a, long n ) { mc::access( (uintptr_t)a, n, false ); } NOT void __tsan_write_range( void* a, long n ) { mc::access( (uintptr_t)a, n, true ); } NOT void __tsan_vptr_update( void* a, void* ) { mc::access( (uintptr_t)a, 8, true ); } NOT void __tsan_vptr_read( void* a ) { mc::access( (uintptr_t)a, 8, false ); }
#define MC_FN( b, T, R, name, args ) R mc_at##b##_##name args __asm__( "__tsan_atomic" #b "_" #name ); NOT R mc_at##b##_##name args
#define MC_AT( b, T ) \
	MC_FN( b, T, T, load, ( const volatile T* a, int o ) ) { if( sizeof( T ) > 1 || !mc::guard( (uintptr_t)a ) ) mc::sync( (void*)a, o != 0, false ); return *a; } MC_FN( b, T, void, store, ( volatile T* a, T v, int o ) ) { mc::sync( (void*)a, false, o != 0 ); *a = v; } \
	MC_FN( b, T, T, exchange, ( volatile T* a, T v, int ) ) { mc::sync( (void*)a, true, true ); T r = *a; *a = v; return r; } \
	MC_FN( b, T, T, fetch_add, ( volatile T* a, T v, int ) ) { mc::sync( (void*)a, true, true ); T r = *a; *a = r + v; return r; } \
	MC_FN( b, T, T, fetch_sub, ( volatile T* a, T v, int ) ) { mc::sync( (void*)a, true, true ); T r = *a; *a = r - v; return r; } \
	MC_FN( b, T, T, fetch_and, ( volatile T* a, T v, int ) ) { mc::sync( (void*)a, true, true ); T r = *a; *a = r & v; return r; } \
	MC_FN( b, T, T, fetch_or, ( volatile T* a, T v, int ) ) { mc::sync( (void*)a, true, true ); T r = *a; *a = r | v; return r; } \
	MC_FN( b, T, T, fetch_xor, ( volatile T* a, T v, int ) ) { mc::sync( (void*)a, true, true ); T r = *a; *a = r ^ v; return r; } \
	MC_FN( b, T, int, compare_exchange_strong, ( volatile T* a, T* e, T v, int, int ) ) { mc::sync( (void*)a, true, true ); if( *a == *e ) { *a = v; return 1; } *e = *a; return 0; } \
	MC_FN( b, T, int, compare_exchange_weak, ( volatile T* a, T* e, T v, int, int ) ) { mc::sync( (void*)a, true, true ); if( *a == *e ) { *a = v; return 1; } *e = *a; return 0; }
	MC_AT( 8, unsigned char ) MC_AT( 16, unsigned short ) MC_AT( 32, unsigned int ) MC_AT( 64, unsigned long )
	void mc_fence( int ) __asm__( "__tsan_atomic_thread_fence" ); NOT void mc_fence( int ) {} void mc_sfence( int ) __asm__( "__tsan_atomic_signal_fence" ); NOT void mc_sfence( int ) {}
}
// Blocks allocated by the code under test come from an arena in order of allocation, so that addresses (and with
// them the order of pointer-keyed containers) do not depend on earlier executions, and are not reused before the
// next one. The arena restarts when nothing in it is alive.
namespace mc
{
	struct Arena { char* mem = 0; size_t base = 0, at = 0, size = (size_t)1 << 30; long live = 0; bool on = false; };
	inline Arena& arena() { static Arena* a = new( malloc( sizeof( Arena ) ) ) Arena; return *a; }
	struct Blk { size_t n; unsigned arena, dead; };
	NOT inline void arenaStart() { Arena& a = arena(); if( !a.mem ) a.mem = (char*)aligned_alloc( 64, a.size ); if( a.live ) a.base = a.at; a.live = 0; a.at = a.base; a.on = true; }
}
NOT void* operator new( size_t n )
{
	mc::Blk* p = 0; if( mc::gp && mc::arena().on && ( mc::active() ? !mc::gp->quiet : mc::setupFlag() ) ) { mc::Arena& a = mc::arena(); size_t k = ( n + sizeof( mc::Blk ) + 15 ) & ~(size_t)15; if( a.at + k <= a.size ) { p = (mc::Blk*)( a.mem + a.at ); a.at += k; a.live++; p->arena = 1; } }
	if( !p ) { p = (mc::Blk*)malloc( n + sizeof( mc::Blk ) ); if( !p ) throw std::bad_alloc(); p->arena = 0; } p->n = n; p->dead = 0; void* r = p + 1; memset( r, 0xa5, n ); if( mc::active() ) mc::fresh( (uintptr_t)r, n ); return r;
}
NOT void operator delete( void* v ) noexcept
{
	if( !v ) return; mc::Blk* p = (mc::Blk*)v - 1; if( mc::active() && !mc::gp->quiet ) mc::access( (uintptr_t)v, p->n, true, true );
	if( p->arena ) { if( !p->dead ) { p->dead = 1; mc::arena().live--; } return; } if( p->dead ) return; if( mc::active() && !mc::gp->quiet ) { p->dead = 1; return; } free( p );
}
NOT void operator delete( void* v, size_t ) noexcept { operator delete( v ); }
NOT void* operator new[]( size_t n ) { return operator new( n ); }
NOT void operator delete[]( void* v ) noexcept { operator delete( v ); }
NOT void operator delete[]( void* v, size_t ) noexcept { operator delete( v ); }
#endif
