// X01: print / parse round trips of all small documents, through every printing and every parsing entry point.
#include "xm.hpp"
#include <memory>
#include <signal.h>
#include <unistd.h>
#include <sys/resource.h>
using namespace xm;

static std::string slurp( const std::string& fn ) { FILE* f = fopen( fn.c_str(), "rb" ); std::string r; if( !f ) return "<cannot open>"; char b[ 4096 ]; size_t n; while( ( n = fread( b, 1, sizeof b, f ) ) > 0 ) r.append( b, n ); fclose( f ); return r; }
static std::string printTo( const TiXmlDocument& d, int how )
{
	std::string r;
	switch( how )
	{
	case 0: r << d; break;
	case 1: { std::ostringstream o; o << d; r = o.str(); break; }
	case 2: { TiXmlPrinter p; d.Accept( &p ); r = p.Str(); break; }
	case 3: { TiXmlPrinter p; p.SetIndent( "\t" ); p.SetLineBreak( "\r\n" ); d.Accept( &p ); r = p.CStr(); if( p.Size() != r.size() ) vc::fail( "printer-size", "Size() differs from the text" ); break; }
	case 4: { char* buf = 0; size_t n = 0; FILE* f = open_memstream( &buf, &n ); d.Print( f ); fclose( f ); r.assign( buf, n ); free( buf ); break; }
	case 5: d.SaveFile( "out.xml" ); r = slurp( "out.xml" ); break;
	}
	return r;
}
static const char* PRINT[] = { "string <<", "ostream <<", "TiXmlPrinter", "TiXmlPrinter tabs/CRLF", "Print(FILE)", "SaveFile" };
static const char* PARSE[] = { "Parse", "stream >>", "LoadFile(name)", "LoadFile(FILE*)", "Parse UTF-8" };
static bool parseFrom( TiXmlDocument& d, const std::string& t, int how )
{
	switch( how )
	{
	case 0: { char* p = (char*)malloc( t.size() + 1 ); memcpy( p, t.c_str(), t.size() + 1 ); d.Parse( p ); free( p ); break; }
	case 1: { std::istringstream s( t ); s >> d; break; }
	case 2: { FILE* f = fopen( "in.xml", "wb" ); fwrite( t.data(), 1, t.size(), f ); fclose( f ); if( d.LoadFile( "in.xml" ) == d.Error() ) vc::fail( "loadfile-result", "LoadFile's result contradicts Error()" ); break; }
	case 3: { FILE* f = fopen( "in.xml", "wb+" ); fwrite( t.data(), 1, t.size(), f ); if( d.LoadFile( f ) == d.Error() ) vc::fail( "loadfile-result", "LoadFile's result contradicts Error()" ); fclose( f ); break; }
	case 4: d.Parse( t.c_str(), 0, TIXML_ENCODING_UTF8 ); break;
	}
	return !d.Error();
}

static void roundTrip( const N& doc, bool files, bool streamOk, int onlyPrint = -1 )
{
	TiXmlDocument* d = (TiXmlDocument*)build( doc );
	std::string bad; N self = read( *d, &bad );
	VC_CHECK( self == doc && bad.empty(), "build", "built tree reads back as %s %s", str( self ).c_str(), bad.c_str() );
	for( int pr = 0; pr < 6; pr++ )
	{
		if( onlyPrint >= 0 && pr > onlyPrint ) break;
		if( !files && pr == 5 ) break;
		std::string text = printTo( *d, pr );
		for( int pa = 0; pa < 5; pa++ )
		{
			if( !files && ( pa == 2 || pa == 3 ) ) continue;
			if( pa == 1 && !streamOk ) continue;
			if( pr == 3 && ( pa == 0 || pa == 1 || pa == 4 ) ) { /* CRLF is not normalised in memory; it is only white space here */ }
			TiXmlDocument b; bool ok = parseFrom( b, text, pa ); vc::step();
			VC_CHECK( ok, "parse-error", "%s then %s: %s in %s", PRINT[ pr ], PARSE[ pa ], b.ErrorDesc(), esc( text ).c_str() );
			if( !ok ) continue;
			bad.clear(); N got = read( b, &bad );
			VC_CHECK( bad.empty(), "links", "%s then %s: %s", PRINT[ pr ], PARSE[ pa ], bad.c_str() );
			VC_CHECK( got == doc, "round-trip", "%s then %s: %s from %s", PRINT[ pr ], PARSE[ pa ], str( got ).c_str(), esc( text ).c_str() );
			std::string again = printTo( b, pr );
			VC_CHECK( again == text, "reprint", "%s: %s became %s", PRINT[ pr ], esc( text ).c_str(), esc( again ).c_str() );
			if( pa == 0 ) vc::outcome( text );
		}
	}
	TiXmlDocument copy( *d ); bad.clear();
	VC_CHECK( read( copy, &bad ) == doc && bad.empty(), "copy", "copy constructed document differs: %s", bad.c_str() );
	TiXmlDocument as; as.LinkEndChild( new TiXmlElement( "old" ) ); as = *d; bad.clear();
	VC_CHECK( read( as, &bad ) == doc && bad.empty(), "assign", "assigned document differs: %s", bad.c_str() );
	TiXmlNode* cl = static_cast< TiXmlNode* >( d )->Clone(); bad.clear();
	VC_CHECK( read( cl, 0, &bad ) == doc && bad.empty(), "clone", "cloned document differs: %s", bad.c_str() );
	delete cl; delete d;
}

static bool textOk( const std::string& s, bool condensed )
{
	if( s.empty() || s.find( "&#x" ) != std::string::npos ) return false;
	bool blank = true; for( unsigned char c : s ) if( !isspace( c ) ) blank = false;
	if( blank ) return false;
	if( condensed && ( s[ 0 ] == ' ' || s[ s.size() - 1 ] == ' ' || s.find( "  " ) != std::string::npos ) ) return false;
	return true;
}
static bool attrOk( const std::string& s ) { return s.find( "&#x" ) == std::string::npos; }
static bool cdataOk( const std::string& s ) { return s.find( "]]>" ) == std::string::npos; }
static bool commentOk( const std::string& s ) { return s.find( "--" ) == std::string::npos && ( s.empty() || s[ s.size() - 1 ] != '-' ); }

static void strings( const std::string& alpha, int maxLen, std::vector< std::string >& out )
{ out.push_back( "" ); size_t lo = 0; for( int l = 0; l < maxLen; l++ ) { size_t hi = out.size(); for( size_t i = lo; i < hi; i++ ) for( char c : alpha ) out.push_back( out[ i ] + c ); lo = hi; } }

// all forests with n nodes
static std::vector< std::vector< N > > forests( int n, int depth )
{
	std::vector< std::vector< N > > r;
	if( n == 0 ) { r.push_back( std::vector< N >() ); return r; }
	for( int first = 1; first <= n; first++ )
	{
		std::vector< N > heads;
		if( first == 1 ) { heads.push_back( N( 'T', "t &<x" ) ); heads.push_back( N( 'A', " c <&]>" ) ); heads.push_back( N( 'C', " k <a>&amp; " ) ); heads.push_back( N( 'E', "e" ) ); N at( 'E', "n:m" ); at.at.push_back( std::make_pair( "p", "1 '2'" ) ); at.at.push_back( std::make_pair( "q", "" ) ); heads.push_back( at ); heads.push_back( N( 'U', "!U x" ) ); }
		else if( depth > 0 )
			for( auto& sub : forests( first - 1, depth - 1 ) ) { N e( 'E', first % 2 ? "e" : "f" ); e.c = sub; heads.push_back( e ); if( first == 2 ) { e.at.push_back( std::make_pair( "z", "\"" ) ); heads.push_back( e ); } }
		std::vector< std::vector< N > > tails = forests( n - first, depth );
		for( auto& h : heads ) for( auto& t : tails )
		{
			if( h.k == 'T' && !t.empty() && t[ 0 ].k == 'T' ) continue;   // adjacent texts are one text to a parser
			std::vector< N > f; f.push_back( h ); f.insert( f.end(), t.begin(), t.end() ); r.push_back( f );
		}
	}
	return r;
}
static std::string utf8( unsigned long c )
{
	std::string r;
	if( c < 0x80 ) r += (char)c;
	else if( c < 0x800 ) { r += (char)( 0xc0 | c >> 6 ); r += (char)( 0x80 | ( c & 63 ) ); }
	else if( c < 0x10000 ) { r += (char)( 0xe0 | c >> 12 ); r += (char)( 0x80 | ( c >> 6 & 63 ) ); r += (char)( 0x80 | ( c & 63 ) ); }
	else { r += (char)( 0xf0 | c >> 18 ); r += (char)( 0x80 | ( c >> 12 & 63 ) ); r += (char)( 0x80 | ( c >> 6 & 63 ) ); r += (char)( 0x80 | ( c & 63 ) ); }
	return r;
}

static void body()
{
	// (a) every short string as text, attribute value, CDATA and comment content
	std::vector< std::string > ss; strings( "&<>\"';#xa \n\t]-", vc::pick( 4, 5 ), ss );
	{ const char* extra[] = { "&amp;", "&lt;&gt;", "&quot;x&apos;", "&#65;", "a&#65;b", "&&&&", "\x01\x1f!", "\xc3\xa9", "x\xe2\x82\xac\xf0\x9f\x98\x80y", "&bogus;", "a&", "&#", "]]", "]] >", "<![CDATA[", "<!-- x ", "%s%d%n", "a\rb", "0123456789012345678901234567890123456789" };
	for( const char* e : extra ) ss.push_back( e ); }
	for( size_t i = 0; i < ss.size(); i += 16 )
	{
		if( !vc::next( "strings %zu.. first '%s' as text, attribute, CDATA and comment", i, esc( ss[ i ] ).c_str() ) ) continue;
		for( size_t j = i; j < i + 16 && j < ss.size(); j++ )
		{
			const std::string& s = ss[ j ]; vc::state();
			bool files = j % 97 == 0 || j + 40 > ss.size();
			N d( 'D' ), r( 'E', "r" );
			if( textOk( s, true ) ) { N e( 'E', "a" ); e.c.push_back( N( 'T', s ) ); r.c.push_back( e ); }
			if( attrOk( s ) ) { N e( 'E', "b" ); e.at.push_back( std::make_pair( "one", s ) ); e.at.push_back( std::make_pair( "two", "x" + s ) ); r.c.push_back( e ); }
			// CR is line-end normalised when a file is loaded, so CDATA and comments with CR cannot come back unchanged
			if( s.find( '\r' ) == std::string::npos )
			{
				if( cdataOk( s ) ) { N e( 'E', "c" ); e.c.push_back( N( 'A', s ) ); r.c.push_back( e ); }
				if( commentOk( s ) ) r.c.push_back( N( 'C', s ) );
			}
			if( textOk( s, true ) ) { r.c.push_back( N( 'T', s ) ); r.c.push_back( N( 'E', "z" ) ); }
			d.c.push_back( r );
			roundTrip( d, files, true );
			if( textOk( s, false ) )
			{
				// white space kept: only the unindented forms put nothing between the nodes
				N d2( 'D' ), r2( 'E', "r" ), e( 'E', "a" ); e.c.push_back( N( 'T', s ) ); r2.c.push_back( e ); r2.c.push_back( N( 'T', s ) ); r2.c.push_back( N( 'E', "b" ) ); d2.c.push_back( r2 );
				TiXmlBase::SetCondenseWhiteSpace( false ); roundTrip( d2, false, true, 1 ); TiXmlBase::SetCondenseWhiteSpace( true );
			}
		}
	}
	// (b) every small tree shape
	for( int n = 1; n <= vc::pick( 5, 6 ); n++ )
	{
		std::vector< std::vector< N > > fs = forests( n, 3 );
		for( size_t i = 0; i < fs.size(); i += 16 )
		{
			if( !vc::next( "trees of %d nodes below the root, %zu..", n, i ) ) continue;
			for( size_t j = i; j < i + 16 && j < fs.size(); j++ )
			{
				vc::state(); N d( 'D' ), r( 'E', "root" ); r.c = fs[ j ];
				if( j % 2 ) { N x( 'X' ); x.at.push_back( std::make_pair( "v", "1.0" ) ); x.at.push_back( std::make_pair( "e", j % 4 == 1 ? "UTF-8" : "" ) ); x.at.push_back( std::make_pair( "s", j % 3 ? "yes" : "" ) ); d.c.push_back( x ); }
				if( j % 3 == 0 ) d.c.push_back( N( 'C', " top > " ) );
				if( j % 5 == 0 ) d.c.push_back( N( 'U', "!DOCTYPE root" ) );
				d.c.push_back( r );
				bool tail = j % 7 == 0; if( tail ) d.c.push_back( N( 'C', "tail" ) );
				roundTrip( d, j % 13 == 0, !tail );
			}
		}
	}
	// (c) numeric and named character references
	std::vector< unsigned long > cps; for( unsigned long c = 1; c < 0x820; c++ ) cps.push_back( c );
	{ unsigned long e[] = { 0xfff, 0x1000, 0x20ac, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0xfffff, 0x100000, 0x10ffff }; for( unsigned long c : e ) cps.push_back( c ); }
	for( size_t i = 0; i < cps.size(); i += 32 )
	{
		if( !vc::next( "character references from code point %lx", cps[ i ] ) ) continue;
		for( size_t j = i; j < i + 32 && j < cps.size(); j++ )
		{
			unsigned long c = cps[ j ]; vc::state();
			std::string forms[] = { vc::fmt( "&#%lu;", c ), vc::fmt( "&#x%lx;", c ), vc::fmt( "&#x%lX;", c ), vc::fmt( "&#x00%lX;", c ), vc::fmt( "&#000%lu;", c ) };
			for( auto& f : forms ) for( int enc = 0; enc < 2; enc++ )
			{
				std::string want = enc ? utf8( c ) : std::string( 1, (char)c );
				if( !enc && c > 255 ) continue;
				TiXmlDocument d; std::string t = "<r a='[" + f + "]'>(" + f + ")</r>";
				d.Parse( t.c_str(), 0, enc ? TIXML_ENCODING_UTF8 : TIXML_ENCODING_LEGACY ); vc::step();
				VC_CHECK( !d.Error() && d.RootElement() && d.RootElement()->Attribute( "a" ) && *d.RootElement()->Attribute( std::string( "a" ) ) == "[" + want + "]", "char-ref-attribute", "%s encoding %d", f.c_str(), enc );
				const char* tx = d.RootElement() ? d.RootElement()->GetText() : 0;
				VC_CHECK( tx && "(" + want + ")" == tx, "char-ref-text", "%s encoding %d gives %s", f.c_str(), enc, tx ? esc( tx ).c_str() : "nothing" );
			}
		}
	}
	// (d) line ends of files: CR LF and CR become LF
	std::vector< std::string > ls; strings( "\r\na", vc::pick( 6, 8 ), ls );
	for( size_t i = 0; i < ls.size(); i += 32 )
	{
		if( !vc::next( "line ends %zu..", i ) ) continue;
		for( size_t j = i; j < i + 32 && j < ls.size(); j++ )
		{
			std::string want; for( size_t k = 0; k < ls[ j ].size(); k++ ) { if( ls[ j ][ k ] == '\r' ) { want += '\n'; if( k + 1 < ls[ j ].size() && ls[ j ][ k + 1 ] == '\n' ) k++; } else want += ls[ j ][ k ]; }
			for( int how = 2; how < 4; how++ )
			{
				TiXmlDocument d; vc::step(); vc::state();
				VC_CHECK( parseFrom( d, "<r><![CDATA[" + ls[ j ] + "]]></r>", how ) && d.RootElement()->GetText() && want == d.RootElement()->GetText(), "line-ends", "'%s' read as '%s'", esc( ls[ j ] ).c_str(), d.RootElement() && d.RootElement()->GetText() ? esc( d.RootElement()->GetText() ).c_str() : "nothing" );
			}
		}
	}
	// (e) white space between and around the parts of a tag never matters
	const char* ws[] = { "", " ", "\n", "\t \r\n" };
	for( int a = 1; a < 4; a++ ) for( int b = 0; b < 4; b++ ) for( int c = 0; c < 4; c++ ) for( int e = 0; e < 4; e++ ) for( int q = 0; q < 2; q++ ) for( int bom = 0; bom < 2; bom++ )
	{
		if( !vc::next( "white space variant %d%d%d%d quote %d bom %d", a, b, c, e, q, bom ) ) continue;
		std::string Q = q ? "\"" : "'";
		std::string t = std::string( bom ? "\xef\xbb\xbf" : "" ) + ws[ e ] + "<?xml version=" + Q + "1.0" + Q + ws[ a ] + "encoding=" + Q + "UTF-8" + Q + ws[ b ] + "?>" + ws[ c ] + "<r" + ws[ a ] + "x" + ws[ b ] + "=" + ws[ c ] + Q + " v " + Q + ws[ a ] + "y=" + Q + Q + ws[ e ] + ">" + ws[ b ] + "one" + ws[ a ] + "two" + ws[ c ] + "<k" + ws[ e ] + "/>" + ws[ b ] + "<!-- c -->" + ws[ a ] + "</r>" + ws[ c ];
		N d( 'D' ), x( 'X' ), r( 'E', "r" ); x.at.push_back( std::make_pair( "v", "1.0" ) ); x.at.push_back( std::make_pair( "e", "UTF-8" ) ); x.at.push_back( std::make_pair( "s", "" ) );
		r.at.push_back( std::make_pair( "x", " v " ) ); r.at.push_back( std::make_pair( "y", "" ) ); r.c.push_back( N( 'T', "one two" ) ); r.c.push_back( N( 'E', "k" ) ); r.c.push_back( N( 'C', " c " ) ); d.c.push_back( x ); d.c.push_back( r );
		for( int how = 0; how < 5; how++ )
		{
			if( how == 1 && bom ) continue;
			TiXmlDocument doc; std::string bad; bool ok = parseFrom( doc, t, how ); N got = read( doc, &bad ); vc::step(); vc::state();
			VC_CHECK( ok && bad.empty() && got == d, "white-space", "%s: %s%s %s from %s", PARSE[ how ], doc.ErrorDesc(), bad.c_str(), str( got ).c_str(), esc( t ).c_str() );
			if( bom && ( how == 0 || how == 2 ) ) { doc.SaveFile( "bom.xml" ); VC_CHECK( slurp( "bom.xml" ).substr( 0, 3 ) == "\xef\xbb\xbf", "bom-kept", "byte order mark not written back" ); }
			if( !bom ) { doc.SaveFile( "bom.xml" ); VC_CHECK( slurp( "bom.xml" )[ 0 ] == '<', "bom-added", "a byte order mark appears in the file of a document without" ); }
		}
	}
	// a document built in the program: the file holds exactly its printed form, whatever the memory held before
	for( int fill = 0; fill < 3; fill++ ) for( int ctor = 0; ctor < 4; ctor++ ) if( vc::next( "constructor %d over memory %d", ctor, fill ) )
	{
		alignas( 16 ) static char mem[ sizeof( TiXmlDocument ) ]; memset( mem, fill == 0 ? 0 : fill == 1 ? 0xff : 0xa5, sizeof mem );
		TiXmlDocument base( "named" ); TiXmlDocument* d = ctor == 0 ? new( mem ) TiXmlDocument : ctor == 1 ? new( mem ) TiXmlDocument( "named" ) : ctor == 2 ? new( mem ) TiXmlDocument( std::string( "named" ) ) : new( mem ) TiXmlDocument( base );
		VC_CHECK( !d->Error() && d->ErrorId() == 0 && d->TabSize() == 4 && d->NoChildren() && !d->Parent() && d->Row() == base.Row() && d->Column() == base.Column() && !d->GetUserData(), "fresh-document", "constructor %d: a new document is not empty and free of errors", ctor );
		TiXmlElement e( "r" ); e.SetAttribute( "a", "1" ); d->InsertEndChild( e ); std::string t = printTo( *d, 4 ), f = printTo( *d, 5 ); vc::state();
		VC_CHECK( t == f && !t.empty() && t[ 0 ] == '<', "file-content", "the file holds %s, the printed form is %s", esc( f ).c_str(), esc( t ).c_str() );
		d->~TiXmlDocument();
	}
	// larger documents: many children, attributes and levels, long names and contents of every length
	for( int n = 1; n <= 90; n += n < 20 ? 1 : vc::pick( 7, 3 ) ) if( vc::next( "documents of size %d", n ) )
	{
		N d( 'D' ), r( 'E', "root" ); vc::state();
		for( int i = 0; i < n; i++ ) { N k( 'E', vc::fmt( "k%d", i ) ); if( i % 3 == 0 ) k.c.push_back( N( 'T', vc::fmt( "t%d &<>\"'", i ) ) ); if( i % 3 == 1 ) k.at.push_back( std::make_pair( vc::fmt( "a%d", i ), vc::fmt( "<%d>", i ) ) ); r.c.push_back( k ); if( i % 4 == 3 ) r.c.push_back( N( 'C', vc::fmt( " c%d ", i ) ) ); }
		for( int i = 0; i < n; i++ ) r.at.push_back( std::make_pair( vc::fmt( "at%d", i ), std::string( i * 5, 'a' + i % 26 ) + "&" ) );
		d.c.push_back( r ); roundTrip( d, n % 9 == 0, true );
		N deep( 'D' ), in( 'T', "core" ); for( int i = n; i > 0; i-- ) { N e( 'E', vc::fmt( "l%d", i ) ); if( i % 5 == 0 ) e.at.push_back( std::make_pair( "x", vc::fmt( "%d", i ) ) ); e.c.push_back( in ); in = e; } deep.c.push_back( in ); roundTrip( deep, n % 9 == 0, true );
	}
	for( int n = 1; n <= 4200; n += n < 40 || n % 64 >= 61 || n % 64 < 2 ? 1 : 61 - n % 64 ) if( vc::next( "contents of length %d", n ) )
	{
		N d( 'D' ), r( 'E', "r" ), e( 'E', std::string( n, 'n' ) ), c( 'E', "c" ); vc::state(); std::string body; for( int i = 0; i < n; i++ ) body += i % 50 == 49 ? '&' : (char)( 'a' + i % 26 );
		e.c.push_back( N( 'T', body ) ); e.at.push_back( std::make_pair( std::string( n, 'm' ), body ) ); c.c.push_back( N( 'A', body ) ); r.c.push_back( e ); r.c.push_back( c ); r.c.push_back( N( 'C', body ) ); d.c.push_back( r ); roundTrip( d, n % 7 == 0, true );
	}
	// saving reports whether the whole document reached the file, wherever the space runs out
	for( int kids = 0; kids < vc::pick( 40, 400 ); kids = kids * 4 + 1 ) if( vc::next( "saving a document of %d children with room for every number of bytes", kids ) )
	{
		N d( 'D' ), r( 'E', "r" ); for( int i = 0; i < kids; i++ ) { N k( 'E', vc::fmt( "k%d", i ) ); k.c.push_back( N( 'T', "text & more" ) ); r.c.push_back( k ); } d.c.push_back( r );
		std::unique_ptr< TiXmlDocument > doc( static_cast< TiXmlDocument* >( build( d ) ) ); std::string want = printTo( *doc, 4 ); doc->SetValue( "room.xml" ); signal( SIGXFSZ, SIG_IGN ); vc::state();
		struct rlimit old; getrlimit( RLIMIT_FSIZE, &old );
		for( size_t n = 0; n <= want.size(); n += want.size() > 3000 && n > 20 && n + 20 < want.size() ? 17 : 1 ) for( int how = 0; how < 4; how++ )
		{
			unlink( "room.xml" ); struct rlimit lim = old; lim.rlim_cur = n; setrlimit( RLIMIT_FSIZE, &lim ); bool ok;
			if( how == 0 ) ok = doc->SaveFile( "room.xml" ); else if( how == 1 ) ok = doc->SaveFile( std::string( "room.xml" ) ); else if( how == 2 ) ok = doc->SaveFile(); else { FILE* f = fopen( "room.xml", "w" ); setvbuf( f, 0, _IONBF, 0 ); ok = doc->SaveFile( f ); fclose( f ); }
			setrlimit( RLIMIT_FSIZE, &old ); vc::step(); std::string got = slurp( "room.xml" );
			VC_CHECK( ok == ( got == want ), ok ? "save-lost" : "save-refused", "room for %zu of %zu bytes, way %d: saving reports %s although the file holds %zu bytes", n, want.size(), how, ok ? "success" : "failure", got.size() );
			VC_CHECK( ok == ( n >= want.size() ), "save-result", "room for %zu of %zu bytes, way %d: %s", n, want.size(), how, ok ? "success" : "failure" );
		}
		unlink( "room.xml" ); VC_CHECK( !doc->SaveFile( "no-such-place/x.xml" ) && !doc->SaveFile( "." ), "save-nowhere", "saving to a place that does not exist succeeds" );
	}
}
VC_MAIN( body() )
