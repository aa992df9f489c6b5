// S01: every value of every type written through every protocol reads back equal.
#include "ser.hpp"
using namespace ser;

static void roundTrip( ItemP it )
{
	std::vector< Item* > v = { it.get() };
	Flat want = it->value();
	for( int p = 0; p < NPROTO; p++ )
	{
		if( p != MSGPACK && !it->boostOk ) continue;
		for( int how = 0; how < ( p == MSGPACK ? 3 : 1 ); how++ )
		{
			std::string key = std::string( PN[ p ] ) + ( how == 2 ? "-object" : "" ) + ":" + it->type;
			try
			{
				std::string s = writeAll( (Proto)p, v, how );
				for( int soil = 0; soil < 3; soil++ )
				{
					it->soil( soil );
					readAll( (Proto)p, s, v, soil ); vc::step();
					VC_CHECK( same( it->read(), want ), key, "read back %s instead of %s", str( it->read() ).c_str(), str( want ).c_str() );
				}
			}
			catch( const std::exception& e ) { vc::fail( key, std::string( "exception: " ) + e.what() ); }
		}
		if( it->boostOk )
		{
			std::string key = std::string( "front:" ) + PN[ p ] + ":" + it->type;
			try { std::ostringstream o; it->front( (Proto)p, o ); it->soil( 1 ); readAll( (Proto)p, o.str(), v ); vc::step(); VC_CHECK( same( it->read(), want ), key, "read back %s instead of %s", str( it->read() ).c_str(), str( want ).c_str() ); }
			catch( const std::exception& e ) { vc::fail( key, std::string( "exception: " ) + e.what() ); }
		}
	}
	try { it->soil( 0 ); it->mpObject(); vc::step(); VC_CHECK( same( it->read(), want ), "msgpack-as:" + it->type, "as<> gives %s instead of %s", str( it->read() ).c_str(), str( want ).c_str() ); }
	catch( const std::exception& e ) { vc::fail( "msgpack-as:" + it->type, std::string( "exception: " ) + e.what() ); }
	vc::outcome( str( want ) ); vc::state();
}

template< class T > void simpleOne( const char* n, Src s )
{
	std::string key = std::string( "simple-string:" ) + n;
	T t = Make< T >::make( s ), r = T(); Src z = plain( -300 ); r = Make< T >::make( z );
	try
	{
		Util::SimpleStringOArchive o; o << t; int end = 4711; o << end;
		Util::SimpleStringIArchive i( o.str() ); i >> r; int e = 0; i >> e; vc::step(); vc::state();
		VC_CHECK( same( flatOf( t ), flatOf( r ) ) && e == 4711, key, "'%s' reads back %s instead of %s", o.str().c_str(), str( flatOf( r ) ).c_str(), str( flatOf( t ) ).c_str() );
	}
	catch( const std::exception& e ) { vc::fail( key, std::string( "exception: " ) + e.what() ); }
}

static void body()
{
	// every type x every fill pattern
	forTypes( []( const char* n, std::function< ItemP( Src ) > mk )
	{
		for( int k = 0; k < NA; k++ ) for( int c = 0; c < NA; c++ )
		{
			if( !vc::next( "%s filled with alphabet[%d+%d*i]", n, c, k ) ) continue;
			roundTrip( mk( src( k, c ) ) );
		}
		if( vc::next( "%s filled with 1,2,3,...", n ) ) roundTrip( mk( plain( 1 ) ) );
		if( vc::next( "%s filled with 2,3,4,...", n ) ) roundTrip( mk( plain( 2 ) ) );
	} );
	// sequences of up to three values of all types in one stream
	std::vector< std::pair< std::string, std::function< ItemP( Src ) > > > all;
	forTypes( [ & ]( const char* n, std::function< ItemP( Src ) > mk ) { all.push_back( std::make_pair( std::string( n ), mk ) ); } );
	for( size_t a = 0; a < all.size(); a++ ) for( size_t b = 0; b < all.size(); b++ )
	{
		if( !vc::next( "sequences %s, %s and every third", all[ a ].first.c_str(), all[ b ].first.c_str() ) ) continue;
		ItemP A = all[ a ].second( src( 1, 1 ) ), B = all[ b ].second( src( 3, 2 ) );
		for( size_t c = 0; c < all.size(); c += vc::pick( 5, 1 ) )
		{
			ItemP C = all[ ( c + a + b ) % all.size() ].second( src( 5, 4 ) );
			std::vector< Item* > v = { A.get(), B.get(), C.get() };
			for( int p = 0; p < NPROTO; p++ )
			{
				if( p != MSGPACK && !( A->boostOk && B->boostOk && C->boostOk ) ) continue;
				for( auto i : v ) i->soil( 2 );
				try
				{
					readAll( (Proto)p, writeAll( (Proto)p, v ), v, c % 4 ); vc::step( 3 ); vc::state();
					for( auto i : v ) VC_CHECK( same( i->read(), i->value() ), std::string( "sequence:" ) + PN[ p ], "with %s: %s differs", C->type.c_str(), i->type.c_str() );
				}
				catch( const std::exception& e ) { vc::fail( std::string( "sequence:" ) + PN[ p ], C->type + ": " + e.what() ); }
			}
		}
	}
	// several archives one after the other in one stream
	for( size_t a = 0; a < all.size(); a++ ) if( vc::next( "three archives in one stream, first %s", all[ a ].first.c_str() ) )
		for( size_t b = 0; b < all.size(); b++ ) for( int p = 0; p < 2; p++ )
		{
			ItemP A = all[ a ].second( src( 1, 1 ) ), B = all[ b ].second( src( 3, 2 ) ), C = all[ a ].second( src( 2, 5 ) ); if( !A->boostOk || !B->boostOk ) continue;
			std::stringstream st; std::vector< Item* > v = { A.get(), B.get(), C.get() };
			try
			{
				for( auto i : v ) i->front( (Proto)p, st );
				for( auto i : v ) { i->soil( 1 ); if( p == TEXT ) { boost::archive::text_iarchive ia( st ); i->textIn( ia ); } else { boost::archive::binary_iarchive ia( st ); i->binIn( ia ); } vc::step();
					VC_CHECK( same( i->read(), i->value() ), std::string( "archives:" ) + PN[ p ], "%s differs", i->type.c_str() ); }
			}
			catch( const std::exception& e ) { vc::fail( std::string( "archives:" ) + PN[ p ], B->type + ": " + e.what() ); }
		}
	// measurement without a payload
	if( vc::next( "a measurement without payload through msgpack" ) )
		for( unsigned long long ts : { 0ull, 5ull } )
		{
			Measurement::Pose m( ts ), r( 7, Math::Pose() ); std::ostringstream o; Serialization::MsgpackArchive::serialize( o, m ); msgpack::unpacker u; feed( u, o.str() );
			Serialization::MsgpackArchive::deserialize( u, r ); VC_CHECK( r.invalid() && !r.get(), "msgpack-empty-measurement", "reads back with a payload or time" );
			msgpack::zone z; msgpack::object ob( m, z ); r = ob.as< Measurement::Pose >(); VC_CHECK( r.invalid() && !r.get(), "msgpack-empty-measurement", "as<> gives a payload or time" );
		}
	// simple string form (six significant digits)
	for( int k = 0; k < 12; k++ ) for( int c = 0; c < 12; c++ )
	{
		if( !vc::next( "simple string form of every type filled with simple[%d+%d*i]", c, k ) ) continue;
		Src s = src( k, c, true );
		#define SS( ... ) simpleOne< __VA_ARGS__ >( #__VA_ARGS__, s );
		SS( Math::Scalar< double > ) SS( Math::Scalar< int > ) SS( Math::Vector< double, 2 > ) SS( Math::Vector< double, 3 > ) SS( Math::Vector< float, 4 > ) SS( Math::Matrix< double, 3, 3 > ) SS( Math::Matrix< double, 3, 4 > ) SS( Math::Matrix< double, 4, 2 > )
		SS( Math::Quaternion ) SS( Math::Pose ) SS( Math::ErrorPose ) SS( Math::ErrorVector< double, 3 > ) SS( Math::RotationVelocity )
		SS( Measurement::Pose ) SS( Measurement::ErrorPosition ) SS( Measurement::Distance ) SS( Measurement::Button ) SS( Measurement::Matrix3x4 )
		SS( std::vector< Math::Pose > ) SS( std::vector< Math::Scalar< int > > ) SS( Measurement::PositionList )
	}
	// lists of every length up to 40 and around the sizes where the encodings change
	for( size_t n = 0; n <= 40; n++ ) if( vc::next( "lists of length %zu", n ) ) for( auto& it : listItems( n ) ) roundTrip( it );
	for( size_t n : { 127, 128, 255, 256, 257, 300, 32767, 32768, 65535, 65536, 65537 } ) if( n < 1000 || vc::thorough() || n == 65535 || n == 65536 ) if( vc::next( "lists of length %zu", n ) ) for( auto& it : listItems( n ) ) roundTrip( it );
}
VC_MAIN( body() )
