// D04: globbing every directory content over a name alphabet with every pattern.
#include "vc.hpp"
#include <utUtil/GlobFiles.h>
#include <utUtil/Exception.h>
#include <functional>
#include <algorithm>
#include <sys/stat.h>
namespace fs = boost::filesystem;
using Ubitrack::Util::globFiles;
enum Kind { FILE_, DIR_, LINK_FILE, LINK_DIR, LINK_DEAD };
struct Entry { const char* name; Kind kind; };
static const Entry E[] = {
	{ "a.jpg", FILE_ }, { "b.JPG", FILE_ }, { "c.cal", FILE_ }, { "B.cal", LINK_FILE }, { "d.BoostBinary", FILE_ }, { "d.cal.bak", FILE_ }, { ".cal", FILE_ },
	{ "sub.png", DIR_ }, { "subdir", DIR_ }, { "x y.bmp", FILE_ }, { "e.jpeg", FILE_ }, { "lnk", LINK_DIR }, { "z.cal", LINK_DEAD },
};
static const int NE = sizeof E / sizeof *E;
static bool ends( const std::string& s, const std::string& e ) { return s.size() >= e.size() && s.compare( s.size() - e.size(), e.size(), e ) == 0; }
struct Pat { std::string text; int fixed; bool dirs; std::function< bool( const std::string& ) > match; };

static std::string g_root;
static void put( const std::string& dir, const Entry& e )
{
	std::string p = dir + "/" + e.name;
	switch( e.kind )
	{
	case FILE_: { FILE* f = fopen( p.c_str(), "w" ); if( f ) fclose( f ); break; }
	case DIR_: { ::mkdir( p.c_str(), 0755 ); FILE* f = fopen( ( p + "/inner.cal" ).c_str(), "w" ); if( f ) fclose( f ); break; }
	case LINK_FILE: if( ::symlink( ( g_root + "/target.cal" ).c_str(), p.c_str() ) ) {} break;
	case LINK_DIR: if( ::symlink( ( g_root + "/targetdir" ).c_str(), p.c_str() ) ) {} break;
	case LINK_DEAD: if( ::symlink( ( g_root + "/nowhere" ).c_str(), p.c_str() ) ) {} break;
	}
}
static bool isDir( Kind k ) { return k == DIR_ || k == LINK_DIR; }
static void clean( const std::string& d ) { boost::system::error_code ec; fs::remove_all( d, ec ); }
static std::string listing( const std::string& d )
{ std::vector< std::string > v; for( fs::recursive_directory_iterator i( d ), e; i != e; ++i ) v.push_back( i->path().string() ); std::sort( v.begin(), v.end() ); std::string r; for( auto& s : v ) r += s + "\n"; return r; }

static void body()
{
	const char* sc = getenv( "VC_SCRATCH" ); g_root = std::string( sc ? sc : "." ) + "/glob"; clean( g_root ); ::mkdir( g_root.c_str(), 0755 );
	fclose( fopen( ( g_root + "/target.cal" ).c_str(), "w" ) ); ::mkdir( ( g_root + "/targetdir" ).c_str(), 0755 ); fclose( fopen( ( g_root + "/targetdir/t.cal" ).c_str(), "w" ) );
	auto img = []( const std::string& s ) { for( const char* x : { ".jpg", ".JPG", ".png", ".PNG", ".bmp", ".BMP" } ) if( ends( s, x ) ) return true; return false; };
	auto cal = []( const std::string& s ) { return ends( s, ".cal" ); };
	std::vector< Pat > pats = {
		{ "IMAGES", Ubitrack::Util::PATTERN_OPENCV_IMAGE_FILES, false, img }, { "CALIB", Ubitrack::Util::PATTERN_UBITRACK_CALIBRATION_FILES, false, cal },
		{ "DIRECTORIES", Ubitrack::Util::PATTERN_DIRECTORIES, true, []( const std::string& ) { return false; } },
		{ "BOOSTBINARY", Ubitrack::Util::PATTERN_UBITRACK_BOOST_BINARY, false, []( const std::string& s ) { return ends( s, ".BoostBinary" ); } },
		{ ".*", -1, false, []( const std::string& ) { return true; } }, { ".*", -1, true, []( const std::string& ) { return true; } },
		{ "[a-c]\\..*", -1, false, []( const std::string& s ) { return s.size() > 1 && s[ 0 ] >= 'a' && s[ 0 ] <= 'c' && s[ 1 ] == '.'; } },
		{ "a|d.*|\\.cal", -1, true, []( const std::string& s ) { return s == "a" || s[ 0 ] == 'd' || s == ".cal"; } },
		{ ".*cal", -1, false, []( const std::string& s ) { return ends( s, "cal" ); } }, { "cal", -1, false, []( const std::string& s ) { return s == "cal"; } },
		{ "", -1, false, []( const std::string& ) { return false; } }, { ".*\\.cal.*", -1, false, []( const std::string& s ) { return s.find( ".cal" ) != std::string::npos; } },
	};
	int n = vc::pick( 12, NE );
	for( int mask = 0; mask < ( 1 << n ); mask++ )
	{
		// quick leaves one of the links to a dead target in place of the linked directory alternately
		std::vector< Entry > in; for( int i = 0; i < n; i++ ) if( mask >> i & 1 ) in.push_back( E[ i ] );
		if( n < NE && __builtin_popcount( mask ) % 2 ) in.push_back( E[ NE - 1 ] );
		std::string d; for( auto& e : in ) d += std::string( e.name ) + " ";
		if( !vc::next( "directory { %s}, all patterns", d.c_str() ) ) continue;
		std::string dir = g_root + "/d"; clean( dir ); ::mkdir( dir.c_str(), 0755 );
		if( mask & 1 ) for( auto& e : in ) put( dir, e ); else for( size_t i = in.size(); i--; ) put( dir, in[ i ] );
		std::string before = listing( g_root );
		for( int pi = 0; pi < (int)pats.size() * 2; pi++ )
		{
			Pat& p = pats[ pi / 2 ]; bool slash = pi % 2 && mask % 3 == 0, pre = pi % 2 && mask % 3 == 1; if( pi % 2 && !slash && !pre ) continue;
			vc::state();
			std::string arg = dir + ( slash ? "/" : "" );
			std::list< fs::path > got; std::vector< std::string > exp;
			if( pre ) { got.push_back( fs::path( dir ) / "b0" ); exp.push_back( "b0" ); }
			for( auto& e : in ) if( e.kind != LINK_DEAD ) { if( isDir( e.kind ) ? p.dirs : p.match( e.name ) ) exp.push_back( e.name ); }
			std::sort( exp.begin(), exp.end() );
			bool threw = false;
			try { if( p.fixed >= 0 ) globFiles( arg, (Ubitrack::Util::FilePattern)p.fixed, got ); else globFiles( arg, p.text, got, p.dirs ); }
			catch( const Ubitrack::Util::Exception& ) { threw = true; }
			VC_CHECK( threw == exp.empty(), "empty-result-refused", "pattern %s: %s", p.text.c_str(), threw ? "refused although files match" : "accepted although nothing matches" );
			std::string g, x; size_t k = 0; bool same = got.size() == exp.size();
			for( auto& q : got ) { g += q.filename().string() + " "; if( same && ( k >= exp.size() || q.filename().string() != exp[ k ] || q.parent_path() != fs::path( dir ) ) ) same = false; k++; }
			for( auto& q : exp ) x += q + " ";
			if( !threw ) VC_CHECK( same, pre ? "appends-to-list" : "exact-files", "pattern %s dirs %d: got %sexpected %s", p.text.c_str(), p.dirs, g.c_str(), x.c_str() );
			vc::step(); vc::outcome( p.text + ":" + g );
		}
		VC_CHECK( listing( g_root ) == before, "untouched", "the directory changed" );
		// a path naming a single entry
		for( auto& e : in ) if( !isDir( e.kind ) )
		{
			std::list< fs::path > got; bool threw = false; std::string p = dir + "/" + e.name;
			try { globFiles( p, std::string( "nomatch" ), got ); } catch( const Ubitrack::Util::Exception& ) { threw = true; }
			if( e.kind == LINK_DEAD ) VC_CHECK( threw && got.empty(), "missing-place", "a dead link is accepted" );
			else VC_CHECK( !threw && got.size() == 1 && got.front() == fs::path( p ), "single-file", "%s", e.name );
			vc::step();
		}
	}
	for( const char* bad : { "", "/nowhere-at-all", "d/none", "./d/none/" } ) if( vc::next( "missing place '%s'", bad ) )
	{
		for( int pre = 0; pre < 2; pre++ ) for( int f = 0; f < 5; f++ )
		{
			std::list< fs::path > got; if( pre ) got.push_back( "keep" ); bool threw = false;
			try { if( f < 4 ) globFiles( bad, (Ubitrack::Util::FilePattern)f, got ); else globFiles( bad, std::string( ".*" ), got, true ); } catch( const Ubitrack::Util::Exception& ) { threw = true; }
			VC_CHECK( threw && got.size() == (size_t)pre, "missing-place", "accepted" ); vc::step();
		}
	}
	// directories of many files, names of many lengths
	for( int n = 1; n <= vc::pick( 150, 600 ); n += n < 20 ? 1 : 13 ) for( int kind = 0; kind < 3; kind++ ) if( vc::next( "%d files named by scheme %d", n, kind ) )
	{
		std::string dir = g_root + "/many"; clean( dir ); ::mkdir( dir.c_str(), 0755 ); std::vector< std::string > exp; vc::state();
		for( int i = 0; i < n; i++ )
		{
			int k = ( i * 37 + 11 ) % 601; std::string name = kind == 0 ? vc::fmt( "img%d", k ) : kind == 1 ? std::string( 1 + k % 240, 'a' + k % 26 ) + vc::fmt( "%d", k ) : vc::fmt( "%c%c %d", k % 2 ? 'A' : 'z', k % 3 ? '_' : '-', k ); name += i % 3 == 0 ? ".cal" : i % 3 == 1 ? ".cal.bak" : ".png";
			put( dir, Entry{ name.c_str(), FILE_ } ); if( i % 3 == 0 ) exp.push_back( name );
		}
		std::string before = listing( dir ); std::sort( exp.begin(), exp.end() );
		std::list< fs::path > got; bool threw = false; try { globFiles( dir, Ubitrack::Util::PATTERN_UBITRACK_CALIBRATION_FILES, got ); } catch( const Ubitrack::Util::Exception& ) { threw = true; } vc::step();
		bool same = !threw && got.size() == exp.size(); size_t k = 0; if( same ) for( auto& q : got ) if( q != fs::path( dir ) / exp[ k++ ] ) same = false;
		VC_CHECK( same && listing( dir ) == before, "many-files", "%d files: %zu found, %zu expected%s", n, got.size(), exp.size(), threw ? " (refused)" : "" );
		got.clear(); try { globFiles( dir, std::string( ".*" ), got, true ); } catch( const Ubitrack::Util::Exception& ) {} VC_CHECK( got.size() == (size_t)n && std::is_sorted( got.begin(), got.end() ) && std::adjacent_find( got.begin(), got.end() ) == got.end(), "many-files-all", "%d files: %zu found", n, got.size() );
		clean( dir );
	}
	clean( g_root );
}
VC_MAIN( body() )
