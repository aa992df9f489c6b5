// X02: malformed input.  Every input lives in an exactly sized heap block, so reading outside it is caught by ASan.
#include "xm.hpp"
using namespace xm;

static const char* GOOD = "<?xml version=\"1.0\"?><ok a=\"1\"><b>t</b></ok>";
static void usableAgain( TiXmlDocument& d, const char* how )
{
	d.Clear(); d.Parse( GOOD ); std::string bad; N n = read( d, &bad );
	VC_CHECK( !d.Error() && bad.empty() && n.c.size() == 2 && n.c[ 1 ].v == "ok" && n.c[ 1 ].c.size() == 1, "usable-after", "%s: after the input a valid document gives %s", how, str( n ).c_str() );
}
// 0: no error, 1: error
static int parseMem( TiXmlDocument& d, const std::string& t, TiXmlEncoding enc )
{
	char* p = (char*)malloc( t.size() + 1 ); memcpy( p, t.c_str(), t.size() + 1 );
	const char* r = d.Parse( p, 0, enc ); vc::step();
	VC_CHECK( r == 0 || ( r >= p && r <= p + t.size() ), "end-pointer", "the returned end of input lies outside the input %s", esc( t ).c_str() );
	free( p );
	return d.Error();
}
static void errorReport( TiXmlDocument& d, const std::string& t )
{
	if( !d.Error() ) { VC_CHECK( d.ErrorId() == 0, "error-id", "no error, but error id %d", d.ErrorId() ); return; }
	VC_CHECK( d.ErrorId() > 0 && d.ErrorDesc() && d.ErrorDesc()[ 0 ], "error-description", "error without description for %s", esc( t ).c_str() );
	int rows = 1, maxCol = 0, col = 0; for( size_t i = 0; i < t.size(); i++ ) { if( t[ i ] == '\n' || t[ i ] == '\r' ) { rows++; col = 0; } else col++; } maxCol = 4 * (int)t.size(); (void)col; { }
	VC_CHECK( d.ErrorRow() >= 0 && d.ErrorRow() <= rows && d.ErrorCol() >= 0 && d.ErrorCol() <= maxCol + 1, "error-position", "%s: error at row %d column %d", esc( t ).c_str(), d.ErrorRow(), d.ErrorCol() );
}
static void tryAll( const std::string& t, bool mustFail, bool again )
{
	vc::state();
	for( int enc = 0; enc < 3; enc++ )
	{
		TiXmlDocument d; parseMem( d, t, enc == 0 ? TIXML_ENCODING_UNKNOWN : enc == 1 ? TIXML_ENCODING_UTF8 : TIXML_ENCODING_LEGACY );
		errorReport( d, t );
		std::string bad; N n = read( d, &bad ); VC_CHECK( bad.empty(), "links", "%s: %s", esc( t ).c_str(), bad.c_str() );
		if( mustFail ) VC_CHECK( d.Error(), "unreported", "no error for %s", esc( t ).c_str() );
		if( enc == 0 ) vc::outcome( str( n ) + vc::fmt( "%d", d.ErrorId() ) );
		if( again ) usableAgain( d, "memory" );
	}
	{
		TiXmlDocument d; std::istringstream s( t ); s >> d; vc::step();
		errorReport( d, t );
		if( mustFail ) VC_CHECK( d.Error(), "unreported-stream", "no error for %s read from a stream", esc( t ).c_str() );
		if( again ) usableAgain( d, "stream" );
	}
}
// reference reading of a token string: does the parser have to report an error?
struct Ref
{
	const std::vector< int >* t; size_t i; bool err;
	// tokens: 0 <a> 1 <b> 2 </a> 3 </b> 4 <a/> 5 text 6 comment 7 cdata
	void element( int name )
	{
		for( ;; )
		{
			if( i >= t->size() ) { err = true; return; }
			int k = ( *t )[ i ];
			if( k == 0 || k == 1 ) { i++; element( k ); if( err ) return; }
			else if( k == 2 || k == 3 ) { if( k - 2 != name ) { err = true; return; } i++; return; }
			else i++;
		}
	}
	bool run() { i = 0; err = false; bool any = false; while( i < t->size() && !err ) { int k = ( *t )[ i ]; if( k == 5 ) { return any ? err : true; } any = true; i++; if( k == 0 || k == 1 ) element( k ); } return err || !any; }
};
// the offset at which the root element starts / is complete
static void body()
{
	// (a) all short strings over the markup alphabet
	const std::string alpha = "<>/a=\"'!-[]?&;# \n\xef\xc3";
	int L = vc::pick( 4, 5 );
	std::vector< std::string > prefixes; prefixes.push_back( "" ); { size_t lo = 0; for( int l = 0; l < L - 2; l++ ) { size_t hi = prefixes.size(); for( size_t i = lo; i < hi; i++ ) for( char c : alpha ) prefixes.push_back( prefixes[ i ] + c ); lo = hi; } }
	const char* heads[] = { "", "<a>", "<a b=", "<!--", "<![CDATA[", "<?xml ", "<a b=\"", "<r>x&", "<r><!" };
	for( int h = 0; h < 9; h++ ) for( size_t i = 0; i < prefixes.size(); i++ )
	{
		if( !vc::next( "'%s' + '%s' + every string of length 0..2", esc( heads[ h ] ).c_str(), esc( prefixes[ i ] ).c_str() ) ) continue;
		std::string b = heads[ h ] + prefixes[ i ];
		tryAll( b, false, false );
		if( (int)prefixes[ i ].size() == L - 2 ) for( char c : alpha ) { tryAll( b + c, false, false ); for( char e : alpha ) tryAll( b + c + e, false, false ); }
	}
	// (b) all token strings against the reference reading
	static const char* TOK[] = { "<a>", "<b>", "</a>", "</b>", "<a/>", "t", "<!--c-->", "<![CDATA[x]]>" };
	int TL = vc::pick( 5, 7 ); std::vector< int > tk;
	for( int len = 1; len <= TL; len++ )
	{
		size_t total = 1; for( int k = 0; k < len; k++ ) total *= 8;
		for( size_t base = 0; base < total; base += 64 )
		{
			if( !vc::next( "token strings of length %d from %zu", len, base ) ) continue;
			for( size_t c = base; c < base + 64 && c < total; c++ )
			{
				tk.clear(); size_t x = c; std::string t; for( int k = 0; k < len; k++ ) { tk.push_back( x % 8 ); t += TOK[ x % 8 ]; x /= 8; }
				Ref r; r.t = &tk; bool want = r.run(); vc::state();
				TiXmlDocument d; bool got = parseMem( d, t, TIXML_ENCODING_UNKNOWN );
				VC_CHECK( got == want, want ? "unreported" : "false-error", "%s: error %d expected %d (%s)", t.c_str(), got, want, d.ErrorDesc() );
				errorReport( d, t ); vc::outcome( (uint64_t)( c * 2 + got ) );
			}
		}
	}
	// (c) all prefixes and all single-character edits of a document set
	const char* docs[] = { "<r a=\"1\" b='x'><k>text &amp; more</k><!-- c --><e/>tail</r>", "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\" ?>\n<root>\n\t<x y=\"&#x41;&#66;\">\xc3\xa9\xe2\x82\xac</x>\n\t<![CDATA[ <&> ]]>\n</root>\n",
		"<!DOCTYPE r><!-- top --><r><a><b><c d='e'/></b></a></r>", "<r>\r\n <a\n b = \"c\"\n/>\r\n</r>", "<r x=y z=\"\"/>", "<a:b c-d=\"&lt;&quot;&apos;\">\xef\xbb\xbf\xef\xbf\xbe z</a:b>" };
	size_t rootAt[] = { 0, 58, 26, 0, 0, 0 };
	for( int k = 0; k < 6; k++ )
	{
		std::string t = docs[ k ]; size_t endRoot = t.find_last_of( '>' ); rootAt[ k ] = t.find( k == 1 ? "<root" : k == 5 ? "<a:b" : "<r" );
		if( vc::next( "document %d itself", k ) )
		{
			for( int enc = 0; enc < 3; enc++ ) { TiXmlDocument d; VC_CHECK( !parseMem( d, t, enc == 0 ? TIXML_ENCODING_UNKNOWN : enc == 1 ? TIXML_ENCODING_UTF8 : TIXML_ENCODING_LEGACY ), "false-error", "%s: %s", esc( t ).c_str(), d.ErrorDesc() ); }
			TiXmlDocument d; std::istringstream s( t ); s >> d; VC_CHECK( !d.Error(), "false-error-stream", "%s: %s", esc( t ).c_str(), d.ErrorDesc() );
			TiXmlDocument e; e.Parse( t.c_str() ); const TiXmlElement* re = e.RootElement(); int row = 1, col = 1; for( size_t i = 0; i < rootAt[ k ]; i++ ) { if( t[ i ] == '\n' ) { row++; col = 1; } else col++; }
			VC_CHECK( re && re->Row() == row && re->Column() == col, "row-column", "document %d root at row %d column %d", k, re ? re->Row() : -1, re ? re->Column() : -1 );
		}
		for( size_t n = 0; n <= t.size(); n++ )
		{
			if( !vc::next( "document %d truncated after %zu bytes, and with every edit at that place", k, n ) ) continue;
			std::string p = t.substr( 0, n );
			tryAll( p, n >= rootAt[ k ] + 2 && n <= endRoot, true );
			{
				FILE* f = fopen( "cut.xml", "wb" ); fwrite( p.data(), 1, p.size(), f ); fclose( f );
				TiXmlDocument d( "cut.xml" ); bool ok = d.LoadFile(); vc::step();
				VC_CHECK( ok == !d.Error(), "loadfile-result", "LoadFile's result contradicts Error()" );
				if( n >= rootAt[ k ] + 2 && n <= endRoot ) VC_CHECK( !ok, "unreported-file", "no error for the file %s", esc( p ).c_str() );
				if( n > endRoot ) VC_CHECK( ok, "false-error-file", "%s: %s", esc( p ).c_str(), d.ErrorDesc() );
			}
			if( n == t.size() ) continue;
			tryAll( t.substr( 0, n ) + t.substr( n + 1 ), false, n % 8 == 0 );
			for( char c : alpha + std::string( 1, '\0' ) + "x\t\xf0\xbf" )
			{
				std::string rep = t; rep[ n ] = c; tryAll( rep, false, false );
				std::string ins = t; ins.insert( n, 1, c ); tryAll( ins, false, false );
				if( vc::thorough() ) for( size_t m = n + 1; m < t.size(); m++ ) { std::string two = rep; two.erase( m, 1 ); tryAll( two, false, false ); }
			}
		}
	}
	// (d) duplicated attributes, stray quotes, unknown entities, long names
	struct { const char* t; int err; } odd[] = { { "<r a='1' a='2'><b/></r>", -1 }, { "<r a='1' a='2'", 1 }, { "<r><k a='1' a='2'></k>", 1 }, { "<r a='1' a='2'>", 1 }, { "<r a=b'/>", 1 }, { "<r a/>", 1 }, { "<r =1/>", 1 }, { "<r a='1/>", 1 }, { "<r></r", 1 }, { "<r></x>", 1 }, { "", 1 }, { "   \n", 1 }, { "just text", 1 }, { "<r>&bogus;</r>", 0 }, { "<r>&#xZZ;</r>", -1 }, { "<r>&#99", 1 }, { "<r>&#x", 1 }, { "<r></r >", -1 } };
	for( auto& o : odd ) if( vc::next( "odd document %s", o.t ) )
	{ TiXmlDocument d; bool e = parseMem( d, o.t, TIXML_ENCODING_UNKNOWN ); if( o.err >= 0 ) VC_CHECK( e == ( o.err == 1 ), o.err ? "unreported" : "false-error", "%s: error %d (%s)", o.t, e, d.ErrorDesc() ); errorReport( d, o.t ); usableAgain( d, o.t ); tryAll( o.t, o.err == 1 && o.t[ 0 ] == '<', true ); }
	for( int n = 1; n <= 1100; n = n * 3 + 1 ) if( vc::next( "nesting and name length %d", n ) )
	{
		std::string open, close, name( n, 'q' ); for( int i = 0; i < n; i++ ) { open += "<a>"; close = "</a>" + close; }
		TiXmlDocument d; VC_CHECK( !parseMem( d, open + close, TIXML_ENCODING_UNKNOWN ), "false-error", "nesting %d: %s", n, d.ErrorDesc() );
		tryAll( open, true, true );
		TiXmlDocument e; VC_CHECK( !parseMem( e, "<" + name + " " + name + "=\"" + name + "\">" + name + "</" + name + ">", TIXML_ENCODING_UNKNOWN ) && e.RootElement()->Attribute( name ) && *e.RootElement()->Attribute( name ) == name, "false-error", "long name %d: %s", n, e.ErrorDesc() );
	}
	// (e) rows and columns: every sequence of line ends, tabs and characters of one to four bytes before a node
	{
		struct Piece { const char* t; int kind; };   // 0 character, 1 line end, 2 tab, 3 nothing (zero width)
		static const Piece P[] = { { "a", 0 }, { "\xc3\xa9", 0 }, { "\xe2\x82\xac", 0 }, { "\xf0\x9f\x98\x80", 0 }, { "\xef\xbc\xa1", 0 }, { "\xef\xbf\xbe", 3 }, { "\r\n", 1 }, { "\n", 1 }, { "\t", 2 } };
		const int np = 9, depth = vc::thorough() ? 5 : 4; size_t total = 1; for( int i = 0; i < depth; i++ ) total *= np;
		for( int tab : { 1, 3, 4, 8 } ) for( size_t base = 0; base < total; base += 729 ) if( vc::next( "positions behind the pieces from %zu, tabs of %d", base, tab ) )
			for( size_t c = base; c < base + 729 && c < total; c++ )
			{
				std::string t = "<r><!--"; int row = 1, col = 7; size_t x = c;
				for( int i = 0; i < depth; i++, x /= np ) { const Piece& p = P[ x % np ]; t += p.t; if( p.kind == 0 ) col++; else if( p.kind == 1 ) { row++; col = 0; } else if( p.kind == 2 ) col = ( col / tab + 1 ) * tab; }
				t += "--><k b='1'/></r>"; TiXmlDocument d; d.SetTabSize( tab ); d.Parse( t.c_str(), 0, TIXML_ENCODING_UTF8 ); vc::state();
				const TiXmlElement* k = d.RootElement() ? d.RootElement()->FirstChildElement() : 0;
				VC_CHECK( k && k->Row() == row && k->Column() == col + 4, "position", "%s: the element is at row %d column %d, reported %d %d", esc( t ).c_str(), row, col + 4, k ? k->Row() : -1, k ? k->Column() : -1 );
				std::string bad = t; bad.replace( bad.find( "<k" ), 10, "<k =/>" ); // the position of the error
				TiXmlDocument e; e.SetTabSize( tab ); e.Parse( bad.c_str(), 0, TIXML_ENCODING_UTF8 ); VC_CHECK( e.Error() && ( e.ErrorRow() == 0 || e.ErrorRow() == row ), "error-row", "%s: error in row %d reported in row %d", esc( bad ).c_str(), row, e.ErrorRow() );
			}
		if( vc::next( "every leading byte counts as one column" ) ) for( int lead = 0xc2; lead <= 0xf4; lead++ )
		{
			std::string ch( 1, (char)lead ); int n = lead < 0xe0 ? 1 : lead < 0xf0 ? 2 : 3; for( int i = 0; i < n; i++ ) ch += i == 0 ? ( lead == 0xe0 ? '\xa1' : lead == 0xf0 ? '\x91' : '\x81' ) : '\x85';
			for( int enc = 0; enc < 2; enc++ )
			{
				TiXmlDocument d; d.Parse( ( "<r>" + ch + "<k/></r>" ).c_str(), 0, enc ? TIXML_ENCODING_LEGACY : TIXML_ENCODING_UTF8 ); const TiXmlElement* k = d.RootElement() ? d.RootElement()->FirstChildElement() : 0; vc::state();
				VC_CHECK( k && k->Row() == 1 && k->Column() == ( enc ? 4 + (int)ch.size() : 5 ), "column", "the element behind the character led by %02x is reported in column %d", lead, k ? k->Column() : -1 );
				const char* tx = d.RootElement() ? d.RootElement()->GetText() : 0; VC_CHECK( tx && ch == tx, "text", "the character led by %02x is not kept", lead );
			}
		}
		if( vc::next( "a tab size of zero turns positions off" ) ) { TiXmlDocument d; d.SetTabSize( 0 ); d.Parse( "\n<r>\n <k/></r>" ); VC_CHECK( !d.Error() && d.RootElement() && d.RootElement()->FirstChildElement() && d.RootElement()->Row() == d.RootElement()->FirstChildElement()->Row() && d.TabSize() == 0, "tabsize-zero", "positions are tracked although the tab size is 0" ); }
	}
}
VC_MAIN( body() )
