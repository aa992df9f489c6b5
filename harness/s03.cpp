// S03: calibration files: round trips, every truncation, every interrupted write, unreadable and unwritable places.
#include "ser.hpp"
#include <utUtil/CalibFile.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <dirent.h>
#include <csignal>
using namespace ser;
static std::string g_dir;
static std::string slurp( const std::string& p ) { std::ifstream f( p.c_str(), std::ios::binary ); std::ostringstream o; o << f.rdbuf(); return o.str(); }
static void spit( const std::string& p, const std::string& s ) { std::ofstream f( p.c_str(), std::ios::binary | std::ios::trunc ); f.write( s.data(), s.size() ); }
static int entries() { int n = 0; DIR* d = opendir( g_dir.c_str() ); while( dirent* e = readdir( d ) ) if( e->d_name[ 0 ] != '.' ) n++; closedir( d ); return n; }
enum Fmt { TXT, BIN, DROP };

// 0 ok, 1 library exception, 2 anything else
template< class F > int guard( F f, std::string& what )
{
	try { f(); return 0; }
	catch( const Util::Exception& e ) { what = e.what(); return 1; }
	catch( const std::exception& e ) { what = std::string( "foreign exception: " ) + e.what(); return 2; }
	catch( ... ) { what = "foreign exception"; return 2; }
}

template< class T > struct Case
{
	const char* name; T t;
	template< class W > void one( const W& w, Fmt f )
	{
		std::string path = g_dir + "/f.cal", what; static const char* FN[] = { "text", "binary", "drop" }; std::string key = FN[ f ];
		int wr = guard( [ & ] { if( f == BIN ) Util::writeBinaryCalibFile( path, w ); else Util::writeCalibFile( path, w ); }, what );
		VC_CHECK( wr == 0, "write-" + key, "%s: %s", name, what.c_str() );
		std::string data = slurp( path );
		auto fresh = [ & ]( int k ) { Src s = plain( -200 + k ); return Make< T >::make( s ); };
		auto rd = [ & ]( W& r, T& tr ) { return guard( [ & ] { if( f == BIN ) Util::readBinaryCalibFile( path, r ); else if( f == TXT ) Util::readCalibFile( path, r ); else Util::readCalibFileDropMeasurement( path, tr ); }, what ); };
		for( int k = 0; k < 2; k++ )
		{
			W r = W(); T tr = fresh( k ); Src s = plain( -100 ); if( k ) r = Make< W >::make( s );
			W kept( r ); Flat was = k && f == TXT ? flatOf( kept ) : Flat();
			int res = rd( r, tr ); vc::step();
			if( k && f == TXT ) VC_CHECK( same( flatOf( kept ), was ), "kept-copy", "%s: a copy of the value that was replaced became %s", name, str( flatOf( kept ) ).c_str() );
			Flat got = f == DROP ? flatOf( tr ) : flatOf( r ), want = f == DROP ? flatOf( t ) : flatOf( w );
			VC_CHECK( res == 0 && same( got, want ), "round-trip-" + key, "%s: %s", name, res ? what.c_str() : ( "read " + str( got ) + " instead of " + str( want ) ).c_str() );
			VC_CHECK( slurp( path ) == data && entries() == 1, "reader-modifies-" + key, "%s", name );
		}
		// every truncation
		size_t must = data.size() - 1; if( f != BIN ) { size_t e = data.find_last_not_of( " \n" ); must = data.find_last_of( ' ', e ); }
		for( size_t n = 0; n <= must; n++ )
		{
			if( n ) spit( path, data.substr( 0, n ) ); else spit( path, "" );
			W r = W(); T tr = fresh( 0 ); Flat before = flatOf( tr ); int res = rd( r, tr ); vc::step(); vc::state();
			VC_CHECK( res == 1, "truncated-" + key, "%s: the first %zu of %zu bytes give %s", name, n, data.size(), res == 0 ? "a value" : what.c_str() );
			if( f == DROP ) VC_CHECK( same( flatOf( tr ), before ), "partial-value-" + key, "%s: target changed by a failed read", name );
		}
		// writing interrupted by lack of space at every byte
		struct rlimit old; getrlimit( RLIMIT_FSIZE, &old );
		size_t stepBy = data.size() > 1500 && !vc::thorough() ? 37 : 1;
		for( size_t n = 0; n < data.size(); n += ( n < 40 || n + 40 > data.size() ) ? 1 : stepBy )
		{
			unlink( path.c_str() );
			struct rlimit lim = old; lim.rlim_cur = n; setrlimit( RLIMIT_FSIZE, &lim );
			int res = guard( [ & ] { if( f == BIN ) Util::writeBinaryCalibFile( path, w ); else Util::writeCalibFile( path, w ); }, what );
			setrlimit( RLIMIT_FSIZE, &old ); vc::step(); vc::state();
			VC_CHECK( res == 1, "interrupted-write-" + key, "%s: only %zu of %zu bytes could be written, result %s", name, n, data.size(), res == 0 ? "success" : what.c_str() );
		}
		unlink( path.c_str() ); vc::outcome( data );
	}
};

template< class T > void type( const char* n )
{
	for( int k = 0; k < vc::pick( 4, 17 ); k++ )
	{
		Src s = k == 0 ? plain( 1 ) : k == 1 ? plain( 3 ) : src( k, ( 5 * k + 2 ) % NA );
		if( vc::next( "%s pattern %d, value and measurement, text/binary/drop formats, every truncation and interrupted write", n, k ) )
		{
			Case< T > c; c.name = n; c.t = Make< T >::make( s );
			Measurement::Measurement< T > m( k == 1 ? 0ull : 1700000000123456789ull + k, c.t );
			c.one( c.t, TXT ); c.one( c.t, BIN ); c.one( m, TXT ); c.one( m, BIN ); c.one( m, DROP );
		}
	}
}

template< class F > void badPlace( const char* what, F f, const std::string& path )
{
	std::string w; int res = guard( f, w ); vc::step();
	VC_CHECK( res == 1, std::string( "bad-place-" ) + what, "%s: %s", path.c_str(), res == 0 ? "accepted" : w.c_str() );
}

static void body()
{
	signal( SIGXFSZ, SIG_IGN );
	const char* sc = getenv( "VC_SCRATCH" ); g_dir = std::string( sc ? sc : "." ) + "/cal"; ::mkdir( g_dir.c_str(), 0755 );
	log4cpp::Category::getRoot().setPriority( log4cpp::Priority::EMERG );
	// lists of many lengths
	for( int n : { 6, 9, 15, 16, 17, 31, 32, 33, 64, 100, 127, 128, 129, 200, 255, 256, 257, 400, 1000 } ) if( n < 40 || n == 100 || n == 256 || vc::thorough() ) if( vc::next( "a file with a list of %d values", n ) )
	{
		Case< std::vector< Math::Vector< double, 2 > > > c; c.name = "long list"; for( int i = 0; i < n; i++ ) { Src s = src( 1 + i % 5, i % NA ); c.t.push_back( Make< Math::Vector< double, 2 > >::make( s ) ); }
		Measurement::Measurement< std::vector< Math::Vector< double, 2 > > > m( 1700000000123456789ull, c.t );
		if( n <= 40 ) { c.one( c.t, TXT ); c.one( c.t, BIN ); c.one( m, TXT ); c.one( m, BIN ); c.one( m, DROP ); }
		else for( int f = 0; f < 2; f++ )
		{
			std::string path = g_dir + "/long.cal"; std::vector< Math::Vector< double, 2 > > r; if( f ) { Util::writeBinaryCalibFile( path, c.t ); Util::readBinaryCalibFile( path, r ); } else { Util::writeCalibFile( path, c.t ); Util::readCalibFile( path, r ); } vc::step(); vc::state();
			VC_CHECK( same( flatOf( r ), flatOf( c.t ) ), "long-list", "a list of %d values comes back changed (%s)", n, f ? "binary" : "text" ); unlink( path.c_str() );
		}
	}
	#define TY( ... ) type< __VA_ARGS__ >( #__VA_ARGS__ );
	TY( Math::Pose ) TY( Math::ErrorPose ) TY( Math::Vector< double, 3 > ) TY( Math::Matrix< double, 3, 3 > ) TY( Math::Matrix< double, 3, 4 > ) TY( Math::CameraIntrinsics< double > )
	TY( Math::Quaternion ) TY( Math::Scalar< double > ) TY( Math::Scalar< int > ) TY( std::vector< Math::Pose > ) TY( std::vector< Math::Vector< double, 2 > > ) TY( std::vector< Math::Scalar< unsigned long > > ) TY( Math::ErrorVector< double, 3 > )
	::mkdir( ( g_dir + "/sub" ).c_str(), 0755 );
	std::vector< std::string > bad = { g_dir + "/none.cal", g_dir + "/none/x.cal", "", g_dir + "/sub" };
	for( auto& p : bad ) if( vc::next( "reading and writing the place '%s'", p.substr( p.size() > g_dir.size() ? g_dir.size() : 0 ).c_str() ) )
	{
		Math::Pose v; Measurement::Pose m; bool wr = p != g_dir + "/none.cal";
		badPlace( "read-text", [ & ] { Util::readCalibFile( p, v ); }, p ); badPlace( "read-binary", [ & ] { Util::readBinaryCalibFile( p, v ); }, p );
		badPlace( "read-measurement", [ & ] { Util::readCalibFile( p, m ); }, p ); badPlace( "read-drop", [ & ] { Util::readCalibFileDropMeasurement( p, v ); }, p );
		if( wr ) { badPlace( "write-text", [ & ] { Util::writeCalibFile( p, v ); }, p ); badPlace( "write-binary", [ & ] { Util::writeBinaryCalibFile( p, v ); }, p ); }
		vc::state();
	}
	if( vc::next( "writing to a full device" ) ) { Math::Pose v; badPlace( "full-text", [ & ] { Util::writeCalibFile( "/dev/full", v ); }, "/dev/full" ); badPlace( "full-binary", [ & ] { Util::writeBinaryCalibFile( "/dev/full", v ); }, "/dev/full" ); }
	// foreign content
	std::vector< std::string > foreign = { "\n", " ", "hello world", "<xml/>", "22 serialization::archive", "22 serialization::archive 19 ", "22 serialization::archiv3 19 0 0 1 2 3", std::string( 64, '\0' ), std::string( 300, '\xff' ), "22 serialization::archive 19 0 0 0 0 x y z" };
	for( size_t i = 0; i < foreign.size(); i++ ) if( vc::next( "foreign content %zu: '%s'", i, foreign[ i ].c_str() ) )
	{
		std::string p = g_dir + "/sub/foreign.cal"; spit( p, foreign[ i ] ); Math::Pose v; Measurement::Pose m;
		badPlace( "foreign-text", [ & ] { Util::readCalibFile( p, v ); }, p ); badPlace( "foreign-binary", [ & ] { Util::readBinaryCalibFile( p, v ); }, p );
		badPlace( "foreign-measurement", [ & ] { Util::readCalibFile( p, m ); }, p ); badPlace( "foreign-drop", [ & ] { Util::readCalibFileDropMeasurement( p, v ); }, p );
		VC_CHECK( slurp( p ) == foreign[ i ], "reader-modifies", "foreign file changed" ); vc::state();
	}
	// matching format only: text read as binary and the reverse
	if( vc::next( "text read as binary and binary read as text" ) )
	{
		std::string p = g_dir + "/sub/x.cal"; Math::Pose v; Measurement::Pose m( 5, v );
		Util::writeCalibFile( p, v ); badPlace( "text-as-binary", [ & ] { Util::readBinaryCalibFile( p, v ); }, p );
		Util::writeBinaryCalibFile( p, v ); badPlace( "binary-as-text", [ & ] { Util::readCalibFile( p, v ); }, p ); badPlace( "binary-as-text", [ & ] { Util::readCalibFile( p, m ); }, p ); badPlace( "binary-as-text", [ & ] { Util::readCalibFileDropMeasurement( p, v ); }, p );
	}
}
VC_MAIN( body() )
