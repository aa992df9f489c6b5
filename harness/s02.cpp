// S02: every truncation of every serialized stream is refused; so are wrong shapes and impossible counts.
#include "ser.hpp"
using namespace ser;

static int tryRead( Proto p, const std::string& s, const std::vector< Item* >& v, std::string* what = 0 )
{
	// exactly sized copy: any read beyond the end is seen by AddressSanitizer
	std::vector< char > exact( s.begin(), s.end() );
	try { readAll( p, std::string( exact.begin(), exact.end() ), v ); return 0; }
	catch( const std::bad_alloc& ) { if( what ) *what = "bad_alloc"; return 2; }
	catch( const std::exception& e ) { if( what ) *what = e.what(); return 1; }
}
static size_t lastTokenStart( const std::string& s ) { size_t e = s.find_last_not_of( " \n" ); return s.find_last_of( ' ', e ); }

static void truncations( ItemP it, int soil )
{
	std::vector< Item* > v = { it.get() };
	for( int p = 0; p < NPROTO; p++ )
	{
		if( p != MSGPACK && !it->boostOk ) continue;
		std::string s = writeAll( (Proto)p, v ), key = std::string( "truncated-" ) + PN[ p ];
		size_t must = p == TEXT ? lastTokenStart( s ) : s.size() - 1;
		for( size_t n = 0; n < s.size(); n++ )
		{
			it->soil( soil ); vc::step();
			int r = tryRead( (Proto)p, s.substr( 0, n ), v );
			if( n <= must ) VC_CHECK( r == 1, key, "%s: the first %zu of %zu bytes are accepted (result %d)", it->type.c_str(), n, s.size(), r );
			vc::checked();
		}
		// a second value behind a complete first one
		ItemP b = item< Math::Pose >( "Pose", plain( 3 ) ); std::vector< Item* > w = { it.get(), b.get() };
		std::string t = writeAll( (Proto)p, w ); size_t from = p == MSGPACK ? s.size() : t.size() - 60 > t.size() ? 0 : t.size() - 60, lim = p == TEXT ? lastTokenStart( t ) : t.size() - 1;
		for( size_t n = from; n <= lim; n++ ) { it->soil( soil ); b->soil( 1 ); vc::step(); int r = tryRead( (Proto)p, t.substr( 0, n ), w ); VC_CHECK( r == 1, key + "-second", "%s then Pose: the first %zu of %zu bytes are accepted (result %d)", it->type.c_str(), n, t.size(), r ); }
		vc::outcome( vc::fmt( "%s %d %zu", it->type.c_str(), p, s.size() ) );
	}
	vc::state();
}

static std::string shape( const msgpack::object& o )
{
	if( o.type == msgpack::type::ARRAY ) { std::string r = "["; for( size_t i = 0; i < o.via.array.size; i++ ) r += shape( o.via.array.ptr[ i ] ); return r + "]"; }
	return "n";
}

// MessagePack trees that differ from a valid one in one place
struct Tree { bool arr; std::vector< Tree > c; std::string leaf; };
static std::string packed( const std::function< void( msgpack::packer< std::ostream >& ) >& f ) { std::ostringstream o; msgpack::packer< std::ostream > p( &o ); f( p ); return o.str(); }
static Tree leaf( const std::string& b ) { Tree t; t.arr = false; t.leaf = b; return t; }
static Tree tree( const msgpack::object& o ) { if( o.type != msgpack::type::ARRAY ) return leaf( packed( [ & ]( msgpack::packer< std::ostream >& p ) { p.pack( o ); } ) ); Tree t; t.arr = true; for( size_t i = 0; i < o.via.array.size; i++ ) t.c.push_back( tree( o.via.array.ptr[ i ] ) ); return t; }
static void bytes( const Tree& t, std::string& o ) { if( !t.arr ) { o += t.leaf; return; } o += packed( [ & ]( msgpack::packer< std::ostream >& p ) { p.pack_array( (uint32_t)t.c.size() ); } ); for( auto& c : t.c ) bytes( c, o ); }
static std::string kinds( const msgpack::object& o )
{
	if( o.type == msgpack::type::ARRAY ) { std::string r = "["; for( size_t i = 0; i < o.via.array.size; i++ ) r += kinds( o.via.array.ptr[ i ] ); return r + "]"; }
	return o.is_nil() ? "z" : o.type == msgpack::type::STR ? "s" : o.type == msgpack::type::BOOLEAN ? "b" : o.type == msgpack::type::MAP ? "m" : "n";
}
static void variants( const Tree& t, const std::function< void( const Tree& ) >& f, int depth = 0 )
{
	static const std::vector< Tree > other = [] { std::vector< Tree > v; v.push_back( leaf( packed( []( msgpack::packer< std::ostream >& p ) { p.pack_nil(); } ) ) ); v.push_back( leaf( packed( []( msgpack::packer< std::ostream >& p ) { p.pack( 7 ); } ) ) ); v.push_back( leaf( packed( []( msgpack::packer< std::ostream >& p ) { p.pack( std::string( "x" ) ); } ) ) );
		v.push_back( leaf( packed( []( msgpack::packer< std::ostream >& p ) { p.pack_map( 0 ); } ) ) ); Tree e; e.arr = true; v.push_back( e ); e.c.push_back( v[ 1 ] ); v.push_back( e ); e.c.push_back( v[ 1 ] ); e.c.push_back( v[ 1 ] ); v.push_back( e ); return v; }();
	for( auto& o : other ) f( o );
	if( !t.arr ) return;
	Tree x = t; if( !t.c.empty() ) { x.c.pop_back(); f( x ); x = t; x.c.erase( x.c.begin() ); f( x ); x = t; x.c.push_back( t.c.back() ); f( x ); x = t; x.c.insert( x.c.begin(), t.c.front() ); f( x ); }
	for( size_t i = 0; i < 4; i++ ) { x = t; x.c.push_back( other[ i ] ); f( x ); } x = t; x.c.insert( x.c.end(), t.c.begin(), t.c.end() ); f( x );
	for( size_t i = 0; i < t.c.size(); i++ ) if( i < 2 || i + 1 == t.c.size() || i == t.c.size() / 2 ) variants( t.c[ i ], [ & ]( const Tree& y ) { Tree z = t; z.c[ i ] = y; f( z ); }, depth + 1 );
}

template< class T > void simpleTrunc( const char* n, Src s )
{
	T t = Make< T >::make( s ); Util::SimpleStringOArchive o; o << t; std::string x = o.str(); size_t last = x.find_last_of( ' ' );
	if( last == std::string::npos ) last = 0;
	for( size_t k = 0; k <= last; k++ )
	{
		Src z = plain( -300 ); T r = Make< T >::make( z ); bool threw = false; vc::step();
		try { Util::SimpleStringIArchive i( x.substr( 0, k ) ); i >> r; } catch( const Util::Exception& ) { threw = true; }
		VC_CHECK( threw, "truncated-simple-string", "%s: '%s' is accepted", n, x.substr( 0, k ).c_str() );
	}
}

static void body()
{
	std::vector< std::pair< std::string, std::function< ItemP( Src ) > > > all;
	forTypes( [ & ]( const char* n, std::function< ItemP( Src ) > mk ) { all.push_back( std::make_pair( std::string( n ), mk ) ); } );
	for( auto& a : all ) for( int f = 0; f < vc::pick( 5, 17 ); f++ )
	{
		if( !vc::next( "%s pattern %d: every truncation in every protocol", a.first.c_str(), f ) ) continue;
		truncations( a.second( f == 0 ? plain( 1 ) : f == 1 ? plain( 2 ) : src( f, ( 3 * f + 1 ) % NA ) ), f % 3 );
	}
	// MessagePack is self-describing: data of another shape is refused
	for( size_t a = 0; a < all.size(); a++ ) if( vc::next( "MessagePack data of %s read as every other type", all[ a ].first.c_str() ) )
		for( int f = 0; f < 3; f++ )
		{
			ItemP w = all[ a ].second( f == 0 ? plain( 1 ) : src( f + 1, f ) ); std::vector< Item* > v = { w.get() }; std::string s = writeAll( MSGPACK, v );
			msgpack::object_handle oh = msgpack::unpack( s.data(), s.size() ); std::string sh = shape( oh.get() );
			for( size_t b = 0; b < all.size(); b++ )
			{
				ItemP r = all[ b ].second( plain( 1 ) ); std::vector< Item* > rv = { r.get() };
				std::string back; std::string what; int res = tryRead( MSGPACK, s, rv, &what ); vc::step(); vc::state();
				if( res == 0 )
				{
					// accepted: then what was read must be the whole of what was written
					static_cast< void >( 0 ); Flat got = r->read(), want = w->value();
					std::string t; std::ostringstream o; // rewrite what was read and compare the data
					struct R : Item {}; VC_CHECK( got.size() + 3 >= want.size() || all[ a ].first == all[ b ].first, "foreign-shape", "%s accepted as %s although values are missing", all[ a ].first.c_str(), all[ b ].first.c_str() );
				}
				else VC_CHECK( res == 1 && all[ a ].first != all[ b ].first, "foreign-shape", "%s refused as %s: %s", all[ a ].first.c_str(), all[ b ].first.c_str(), what.c_str() );
			}
		}
	// one place changed: what is accepted nevertheless is written back in the same shape
	for( size_t a = 0; a < all.size(); a++ ) if( vc::next( "MessagePack data of %s with one place changed", all[ a ].first.c_str() ) )
		for( int f = 0; f < 2; f++ )
		{
			ItemP w = all[ a ].second( f == 0 ? plain( 1 ) : plain( 3 ) ); std::vector< Item* > v = { w.get() }; std::string s = writeAll( MSGPACK, v ); msgpack::object_handle oh = msgpack::unpack( s.data(), s.size() );
			variants( tree( oh.get() ), [ & ]( const Tree& t )
			{
				std::string x; bytes( t, x ); std::string want; { msgpack::object_handle h = msgpack::unpack( x.data(), x.size() ); want = kinds( h.get() ); }
				for( int how = 0; how < 2; how++ )
				{
					w->soil( how ); bool ok = true; vc::step();
					try { if( how == 0 ) readAll( MSGPACK, x, v ); else { msgpack::object_handle h = msgpack::unpack( x.data(), x.size() ); w->mpAs( h.get() ); } } catch( const std::exception& ) { ok = false; }
					if( !ok ) { vc::checked(); continue; }
					std::ostringstream o; w->mpRewrite( o ); std::string y = o.str(); msgpack::object_handle h = msgpack::unpack( y.data(), y.size() ); std::string got = kinds( h.get() );
					VC_CHECK( got == want, "changed-shape", "%s: data of shape %s are accepted (%s) and come back as %s", all[ a ].first.c_str(), want.c_str(), how ? "as<>" : "convert", got.c_str() );
				}
				vc::state();
			} );
		}
	// counts in a camera record
	for( long n : { 7l, 8l, 100l, 1000000l, 4294967296l } ) if( vc::next( "camera intrinsics claiming %ld radial coefficients", n ) )
	{
		{
			std::ostringstream o; { boost::archive::text_oarchive a( o ); for( int i = 0; i < 2; i++ ) { unsigned z = 0; if( !i ) {} } Math::CameraIntrinsics< double > c; a << c; }
			std::string s = o.str(); std::vector< std::string > tok; std::istringstream is( s ); std::string t; while( is >> t ) tok.push_back( t );
			// the last tokens are: ... width height radial_size tan_dim t0 t1
			size_t k = tok.size() - 4; tok[ k ] = vc::fmt( "%ld", n ); std::string x; for( size_t i = 0; i < tok.size(); i++ ) { x += tok[ i ] + " "; if( i == k ) for( int j = 0; j < 12; j++ ) x += "0.5 "; }
			bool threw = false; std::unique_ptr< Math::CameraIntrinsics< double > > c( new Math::CameraIntrinsics< double >() );
			try { std::istringstream in( x ); boost::archive::text_iarchive a( in ); a >> *c; } catch( const std::exception& ) { threw = true; }
			vc::step(); VC_CHECK( threw, "impossible-count-text", "accepted" );
		}
		{
			std::ostringstream o; msgpack::packer< std::ostream > pk( &o ); pk.pack_array( 6 ); pk.pack( 1 ); pk.pack_array( 2 ); pk.pack( 4 ); pk.pack( 4 ); pk.pack_array( 9 ); for( int i = 0; i < 9; i++ ) pk.pack( 1.5 );
			pk.pack( n ); pk.pack_array( 6 ); for( int i = 0; i < 6; i++ ) pk.pack( 0.5 ); pk.pack_array( 2 ); pk.pack( 0.5 ); pk.pack( 0.5 );
			bool threw = false; Math::CameraIntrinsics< double > c; msgpack::unpacker u; feed( u, o.str() );
			try { Serialization::MsgpackArchive::deserialize( u, c ); } catch( const std::exception& ) { threw = true; }
			vc::step(); VC_CHECK( threw && c.radial_size <= 6, "impossible-count-msgpack", "accepted" );
			threw = false; try { msgpack::object_handle oh = msgpack::unpack( o.str().data(), o.str().size() ); c = oh.get().as< Math::CameraIntrinsics< double > >(); } catch( const std::exception& ) { threw = true; }
			VC_CHECK( threw && c.radial_size <= 6, "impossible-count-msgpack", "as<> accepted" );
		}
	}
	for( int k = 0; k < 12; k++ ) if( vc::next( "every truncation of the simple string form, pattern %d", k ) )
	{
		Src s = src( k, 1, true ); vc::state();
		#define SS( ... ) simpleTrunc< __VA_ARGS__ >( #__VA_ARGS__, s );
		SS( Math::Scalar< double > ) SS( Math::Scalar< int > ) SS( Math::Vector< double, 2 > ) SS( Math::Vector< double, 3 > ) SS( Math::Matrix< double, 3, 4 > ) SS( Math::Quaternion ) SS( Math::Pose ) SS( Math::ErrorPose ) SS( Math::ErrorVector< double, 3 > ) SS( Measurement::Pose ) SS( Measurement::Distance ) SS( std::vector< Math::Pose > )
	}
	for( size_t n : { 15, 16, 17, 33, 6, 14, 31, 32, 100 } ) if( n == 15 || n == 16 || n == 17 || n == 33 || vc::thorough() ) for( int soil = 0; soil < 3; soil++ ) if( vc::next( "lists of length %zu over target %d: every truncation in every protocol", n, soil ) ) for( auto& it : listItems( n ) ) truncations( it, soil );
}
VC_MAIN( body() )
