// X03: all edit sequences on a small tree against an ordered-tree model; allocations are balanced, memory is checked by ASan.
#include <algorithm>
#include "xm.hpp"
#include <new>
using namespace xm;
static long gLive = 0;
void* operator new( size_t n ) { void* p = malloc( n ? n : 1 ); if( !p ) throw std::bad_alloc(); ++gLive; return p; }
void* operator new[]( size_t n ) { return ::operator new( n ); }
void operator delete( void* p ) noexcept { if( p ) { --gLive; free( p ); } }
void operator delete[]( void* p ) noexcept { ::operator delete( p ); }
void operator delete( void* p, size_t ) noexcept { ::operator delete( p ); }
void operator delete[]( void* p, size_t ) noexcept { ::operator delete( p ); }

enum { END, BEFORE, AFTER, REPLACE, LINK, REMOVE, CLEAR, SETATTR, SETINT, DELATTR, RENAME, GRAFT, DOCCOPY, FOREIGN, ASSIGN };
struct Op { int kind, where, pos, proto; };
static const char* KIND[] = { "InsertEndChild", "InsertBeforeChild", "InsertAfterChild", "ReplaceChild", "LinkEndChild", "RemoveChild", "Clear", "SetAttribute", "SetAttribute(int)", "RemoveAttribute", "SetValue", "InsertEndChild(copy of a relative)", "assign document", "insert at a foreign child", "element assignment" };
static std::string opStr( const Op& o ) { return vc::fmt( "%s[where %d pos %d proto %d] ", KIND[ o.kind ], o.where, o.pos, o.proto ); }
static N proto( int k )
{
	switch( k )
	{
	case 0: { N e( 'E', "e" ); e.at.push_back( std::make_pair( "p", "1" ) ); N t( 'T', "in" ); e.c.push_back( t ); return e; }
	case 1: return N( 'T', "txt" );
	case 2: return N( 'C', "com" );
	case 3: return N( 'D' );
	case 4: return N( 'E', "k" );
	default: return N( 'A', "cd" );
	}
}
// node addressed by where: 0 document, 1 first element of the document, 2 first element below that, 3 last element child of 1
template< class T > struct Sel {};
static N* mAt( N& d, int w )
{
	if( w == 0 ) return &d;
	N* r = 0; for( auto& c : d.c ) if( c.k == 'E' ) { r = &c; break; }
	if( w == 1 || !r ) return r;
	N* s = 0; for( auto& c : r->c ) if( c.k == 'E' ) { s = &c; if( w == 2 ) break; }
	return s;
}
static TiXmlNode* rAt( TiXmlDocument& d, int w )
{
	if( w == 0 ) return &d;
	TiXmlElement* r = d.RootElement(); if( w == 1 || !r ) return r;
	if( w == 2 ) return r->FirstChildElement();
	TiXmlElement* s = 0; for( TiXmlElement* e = r->FirstChildElement(); e; e = e->NextSiblingElement() ) s = e; return s;
}
static int idx( const N& n, int pos ) { int k = (int)n.c.size(); if( !k ) return -1; return pos == 0 ? 0 : pos == 1 ? k - 1 : k / 2; }
static TiXmlNode* rChild( TiXmlNode* n, int i ) { TiXmlNode* c = n->FirstChild(); while( c && i-- > 0 ) c = c->NextSibling(); return c; }
static bool legal( const N& doc, const Op& o )
{
	N& d = const_cast< N& >( doc ); N* n = mAt( d, o.where ); if( !n ) return false;
	if( o.kind == BEFORE || o.kind == AFTER || o.kind == REPLACE || o.kind == REMOVE ) return idx( *n, o.pos ) >= 0;
	if( ( o.kind == SETATTR || o.kind == SETINT || o.kind == DELATTR || o.kind == RENAME || o.kind == ASSIGN ) && n->k != 'E' ) return false;
	if( o.kind == GRAFT ) return mAt( d, o.pos ) && mAt( d, o.pos )->k == 'E' && doc.count() < 14;
	if( o.kind == DOCCOPY ) return doc.count() < 14;
	return true;
}
static void setA( N* n, const std::string& k, const std::string& v ) { for( auto& a : n->at ) if( a.first == k ) { a.second = v; return; } n->at.push_back( std::make_pair( k, v ) ); }
static void apply( TiXmlDocument& d, N& m, const Op& o, const std::string& hist )
{
	N* n = mAt( m, o.where ); TiXmlNode* r = rAt( d, o.where );
	VC_CHECK( r != 0, "address", "%s: node not found", hist.c_str() ); if( !r ) return;
	vc::step();
	int i = idx( *n, o.pos ); N pm = proto( o.proto ); TiXmlNode* ret = 0; bool doc = pm.k == 'D';
	TiXmlNode* p = ( o.kind <= LINK || o.kind == FOREIGN ) ? build( pm ) : 0; bool keep = false;
	switch( o.kind )
	{
	case END: ret = r->InsertEndChild( *p ); if( !doc ) { n->c.push_back( pm ); VC_CHECK( ret && ret == r->LastChild(), "result", "%s: wrong node returned", hist.c_str() ); } break;
	case BEFORE: { TiXmlNode* at = rChild( r, i ); ret = r->InsertBeforeChild( at, *p ); if( !doc ) { n->c.insert( n->c.begin() + i, pm ); VC_CHECK( ret && at->PreviousSibling() == ret, "result", "%s: wrong node returned", hist.c_str() ); } break; }
	case AFTER: { TiXmlNode* at = rChild( r, i ); ret = r->InsertAfterChild( at, *p ); if( !doc ) { n->c.insert( n->c.begin() + i + 1, pm ); VC_CHECK( ret && at->NextSibling() == ret, "result", "%s: wrong node returned", hist.c_str() ); } break; }
	case REPLACE: ret = r->ReplaceChild( rChild( r, i ), *p ); if( !doc ) { n->c[ i ] = pm; VC_CHECK( ret && ret == rChild( r, i ), "result", "%s: wrong node returned", hist.c_str() ); } break;
	case LINK: keep = true; ret = r->LinkEndChild( p ); if( !doc ) { n->c.push_back( pm ); VC_CHECK( ret == p, "result", "%s: wrong node returned", hist.c_str() ); } break;
	case REMOVE: { bool ok = r->RemoveChild( rChild( r, i ) ); n->c.erase( n->c.begin() + i ); VC_CHECK( ok, "result", "%s: not removed", hist.c_str() ); break; }
	case CLEAR: r->Clear(); n->c.clear(); break;
	case SETATTR: r->ToElement()->SetAttribute( o.pos ? "q" : "p", o.proto ? "x<>" : "" ); setA( n, o.pos ? "q" : "p", o.proto ? "x<>" : "" ); break;
	case SETINT: r->ToElement()->SetAttribute( std::string( o.pos ? "q" : "p" ), -17 ); setA( n, o.pos ? "q" : "p", "-17" ); break;
	case DELATTR: r->ToElement()->RemoveAttribute( o.pos ? "q" : "p" ); for( size_t k = 0; k < n->at.size(); k++ ) if( n->at[ k ].first == ( o.pos ? "q" : "p" ) ) { n->at.erase( n->at.begin() + k ); break; } break;
	case RENAME: r->SetValue( o.pos ? "k" : "renamed" ); n->v = o.pos ? "k" : "renamed"; break;
	case GRAFT: { N sub = *mAt( m, o.pos ); TiXmlNode* src = rAt( d, o.pos ); ret = r->InsertEndChild( *src ); n->c.push_back( sub ); break; }
	case DOCCOPY: { TiXmlDocument t( d ); if( o.pos ) { d.Clear(); d = t; } else { TiXmlDocument u; u = d; d = u; } break; }
	case FOREIGN:
	{
		TiXmlElement other( "other" ); TiXmlNode* fc = other.InsertEndChild( TiXmlText( "f" ) );
		VC_CHECK( !r->InsertBeforeChild( fc, *p ) && !r->InsertAfterChild( fc, *p ) && !r->InsertBeforeChild( 0, *p ) && !r->InsertAfterChild( 0, *p ) && !r->ReplaceChild( fc, *p ) && !r->RemoveChild( fc ), "foreign-child", "%s: an edit relative to another node's child was accepted", hist.c_str() );
		std::string bad; N o2 = read( &other, 0, &bad ); VC_CHECK( bad.empty() && o2.c.size() == 1, "foreign-child", "%s: the other tree was changed", hist.c_str() );
		break;
	}
	case ASSIGN: { TiXmlElement src( "as" ); src.SetAttribute( "z", "9" ); src.InsertEndChild( TiXmlText( "b" ) ); *r->ToElement() = src; n->v = "as"; n->at.clear(); n->at.push_back( std::make_pair( "z", "9" ) ); n->c.clear(); n->c.push_back( N( 'T', "b" ) ); break; }
	}
	if( o.kind <= LINK && doc ) { VC_CHECK( ret == 0, "document-inside", "%s: a document was accepted as a child", hist.c_str() ); d.ClearError(); }
	if( p && !keep ) delete p;
}
static void compare( TiXmlDocument& d, const N& m, const std::string& hist )
{
	std::string bad; N got = read( d, &bad );
	VC_CHECK( bad.empty(), "links", "%s: %s", hist.c_str(), bad.c_str() );
	VC_CHECK( got == m, "tree", "%s: %s expected %s", hist.c_str(), str( got ).c_str(), str( m ).c_str() );
	// lookups by value and handles
	for( int w = 0; w < 2; w++ )
	{
		const N* n = mAt( const_cast< N& >( m ), w ); TiXmlNode* r = rAt( d, w ); if( !n || !r ) continue;
		const char* names[] = { "e", "k", "txt", "nope" };
		for( const char* nm : names )
		{
			std::vector< int > ix, el; for( size_t i = 0; i < n->c.size(); i++ ) if( n->c[ i ].v == nm ) { ix.push_back( i ); if( n->c[ i ].k == 'E' ) el.push_back( i ); }
			VC_CHECK( r->FirstChild( nm ) == ( ix.empty() ? 0 : rChild( r, ix[ 0 ] ) ) && r->LastChild( nm ) == ( ix.empty() ? 0 : rChild( r, ix.back() ) ), "find-child", "%s: first/last child '%s'", hist.c_str(), nm );
			VC_CHECK( r->FirstChildElement( nm ) == ( el.empty() ? 0 : rChild( r, el[ 0 ] )->ToElement() ), "find-element", "%s: first element '%s'", hist.c_str(), nm );
			TiXmlHandle h( r );
			for( size_t k = 0; k < 3; k++ )
			{
				VC_CHECK( h.Child( nm, (int)k ).ToNode() == ( k < ix.size() ? rChild( r, ix[ k ] ) : 0 ), "handle", "%s: handle child '%s' %zu", hist.c_str(), nm, k );
				VC_CHECK( h.ChildElement( nm, (int)k ).ToElement() == ( k < el.size() ? rChild( r, el[ k ] )->ToElement() : 0 ), "handle", "%s: handle element '%s' %zu", hist.c_str(), nm, k );
				VC_CHECK( h.Child( (int)k ).ToNode() == rChild( r, (int)k ), "handle", "%s: handle child %zu", hist.c_str(), k );
			}
			if( ix.size() > 1 )
			{
				VC_CHECK( rChild( r, ix[ 0 ] )->NextSibling( nm ) == rChild( r, ix[ 1 ] ) && rChild( r, ix[ 1 ] )->PreviousSibling( nm ) == rChild( r, ix[ 0 ] ), "find-sibling", "%s: sibling '%s'", hist.c_str(), nm );
				TiXmlNode* it = 0; size_t c = 0; while( ( it = r->IterateChildren( nm, it ) ) && c <= ix.size() ) c++;
				VC_CHECK( c == ix.size(), "iterate", "%s: %zu children '%s' visited", hist.c_str(), c, nm );
			}
		}
		if( TiXmlElement* e = r->ToElement() ) { const char* t = e->GetText(); bool want = !n->c.empty() && ( n->c[ 0 ].k == 'T' || n->c[ 0 ].k == 'A' ); VC_CHECK( want ? t && n->c[ 0 ].v == t : t == 0, "get-text", "%s: text", hist.c_str() ); }
	}
}
static N start()
{ N d( 'D' ), r( 'E', "r" ), a( 'E', "k" ), b( 'E', "e" ); a.at.push_back( std::make_pair( "p", "0" ) ); b.c.push_back( N( 'T', "x" ) ); r.c.push_back( a ); r.c.push_back( N( 'T', "mid" ) ); r.c.push_back( b ); d.c.push_back( r ); return d; }
static std::vector< Op > OPS;
static void explore( const std::vector< Op >& seq, const N& m, int depth )
{
	{
		// replay the whole history on a fresh document (its last state is compared; shorter histories are compared on their own)
		std::string hist; for( auto& o : seq ) hist += opStr( o );
		long before = gLive; uint64_t h = 0;
		{
			N mm = start(); TiXmlDocument d; for( auto& c : mm.c ) d.LinkEndChild( build( c ) );
			for( auto& o : seq ) apply( d, mm, o, hist );
			vc::state(); compare( d, mm, hist ); { std::string t = str( mm ); h = vc::hashBytes( t.data(), t.size() ); }
			if( seq.size() == 2 ) { TiXmlDocument c( d ); compare( c, mm, hist + "(copy)" ); }
		}
		VC_CHECK( gLive == before, "freed-once", "%s: %ld allocations outstanding", hist.c_str(), gLive - before ); vc::outcome( h );
	}
	if( depth == 0 ) return;
	for( auto& o : OPS )
	{
		if( !legal( m, o ) ) continue;
		N m2 = m;
		// the model alone moves forward
		{ N* n = mAt( m2, o.where ); int i = idx( *n, o.pos ); N pm = proto( o.proto ); bool doc = pm.k == 'D';
		switch( o.kind ) { case END: case LINK: if( !doc ) n->c.push_back( pm ); break; case BEFORE: if( !doc ) n->c.insert( n->c.begin() + i, pm ); break; case AFTER: if( !doc ) n->c.insert( n->c.begin() + i + 1, pm ); break; case REPLACE: if( !doc ) n->c[ i ] = pm; break;
		case REMOVE: n->c.erase( n->c.begin() + i ); break; case CLEAR: n->c.clear(); break; case GRAFT: { N sub = *mAt( m2, o.pos ); n->c.push_back( sub ); break; } case RENAME: n->v = o.pos ? "k" : "renamed"; break;
		case ASSIGN: n->v = "as"; n->at.clear(); n->c.assign( 1, N( 'T', "b" ) ); break; default: break; } }
		std::vector< Op > s2 = seq; s2.push_back( o ); explore( s2, m2, depth - 1 );
	}
}
static void typed()
{
	struct { const char* v; bool isInt; int i; bool isD; double d; } V[] = { { "0", true, 0, true, 0 }, { "-17", true, -17, true, -17 }, { "2147483647", true, 2147483647, true, 2147483647.0 }, { "3.25", true, 3, true, 3.25 }, { "1e3", true, 1, true, 1000 }, { "abc", false, 0, false, 0 }, { "", false, 0, false, 0 }, { " 5", true, 5, true, 5 }, { "-", false, 0, false, 0 } };
	for( auto& v : V ) if( vc::next( "typed queries of '%s'", v.v ) )
	{
		TiXmlElement e( "e" ); e.SetAttribute( "n", v.v ); e.SetAttribute( "other", "1" ); int i = 99; double d = 99; float f = 99;
		int ri = e.QueryIntAttribute( "n", &i ), rd = e.QueryDoubleAttribute( "n", &d ), rf = e.QueryFloatAttribute( "n", &f ); vc::step( 3 ); vc::state();
		VC_CHECK( ri == ( v.isInt ? TIXML_SUCCESS : TIXML_WRONG_TYPE ) && i == ( v.isInt ? v.i : 99 ), "query-int", "'%s': result %d value %d", v.v, ri, i );
		VC_CHECK( rd == ( v.isD ? TIXML_SUCCESS : TIXML_WRONG_TYPE ) && d == ( v.isD ? v.d : 99 ), "query-double", "'%s': result %d value %g", v.v, rd, d );
		VC_CHECK( rf == rd && f == (float)( v.isD ? v.d : 99 ), "query-float", "'%s': result %d value %g", v.v, rf, f );
		i = 99; d = 99; ri = e.QueryIntAttribute( std::string( "n" ), &i ); rd = e.QueryDoubleAttribute( std::string( "n" ), &d );
		VC_CHECK( ri == ( v.isInt ? TIXML_SUCCESS : TIXML_WRONG_TYPE ) && i == ( v.isInt ? v.i : 99 ) && rd == ( v.isD ? TIXML_SUCCESS : TIXML_WRONG_TYPE ) && d == ( v.isD ? v.d : 99 ), "query-string-name", "'%s'", v.v );
		i = 99; int rv = e.QueryValueAttribute( "n", &i ); if( v.isInt ) VC_CHECK( rv == TIXML_SUCCESS && i == v.i, "query-value", "'%s': %d", v.v, i ); else VC_CHECK( rv == TIXML_WRONG_TYPE, "query-value", "'%s'", v.v );
		int j = -1; const char* s = e.Attribute( "n", &j ); VC_CHECK( s && std::string( s ) == v.v && j == ( v.isInt ? v.i : 0 ), "attribute-int", "'%s': %d", v.v, j );
		double g = -1; s = e.Attribute( "n", &g ); VC_CHECK( s && g == ( v.isD ? v.d : 0 ), "attribute-double", "'%s': %g", v.v, g );
		TiXmlAttribute* a = e.FirstAttribute(); VC_CHECK( a->IntValue() == ( v.isInt ? v.i : 0 ) && a->DoubleValue() == ( v.isD ? v.d : 0 ), "attribute-values", "'%s'", v.v );
	}
	if( vc::next( "absent attributes" ) )
	{
		TiXmlElement e( "e" ); e.SetAttribute( "n", "1" ); int i = 99; double d = 99; float f = 99; vc::state();
		VC_CHECK( e.QueryIntAttribute( "m", &i ) == TIXML_NO_ATTRIBUTE && e.QueryDoubleAttribute( "m", &d ) == TIXML_NO_ATTRIBUTE && e.QueryFloatAttribute( "m", &f ) == TIXML_NO_ATTRIBUTE && e.QueryIntAttribute( std::string( "m" ), &i ) == TIXML_NO_ATTRIBUTE && e.QueryDoubleAttribute( std::string( "m" ), &d ) == TIXML_NO_ATTRIBUTE && e.QueryValueAttribute( "m", &i ) == TIXML_NO_ATTRIBUTE && i == 99 && d == 99 && f == 99, "absent", "absent attribute" );
		VC_CHECK( !e.Attribute( "m" ) && !e.Attribute( std::string( "m" ) ) && !e.Attribute( "m", &i ) && i == 0 && !e.Attribute( "m", &d ) && d == 0 && !e.Attribute( "", &i ), "absent-lookup", "absent attribute" );
	}
	const int ints[] = { 0, 1, -1, 7, -2147483647 - 1, 2147483647, 65536 };
	for( int v : ints ) if( vc::next( "integer attribute %d", v ) )
	{ TiXmlElement e( "e" ); int o = 0; e.SetAttribute( "n", v ); VC_CHECK( e.QueryIntAttribute( "n", &o ) == TIXML_SUCCESS && o == v, "int-round-trip", "%d", o ); e.SetAttribute( std::string( "m" ), v ); o = 0; VC_CHECK( e.QueryIntAttribute( "m", &o ) == TIXML_SUCCESS && o == v, "int-round-trip", "%d", o ); e.FirstAttribute()->SetIntValue( v ^ 1 ); VC_CHECK( e.FirstAttribute()->IntValue() == ( v ^ 1 ), "int-round-trip", "SetIntValue" ); vc::step( 3 ); vc::state(); }
	const double ds[] = { 0, 1, -1.5, 3.141592, 1e10, -123456.789, 0.000001, 1e15 };
	for( double v : ds ) if( vc::next( "double attribute %g", v ) )
	{ TiXmlElement e( "e" ); double o = 9; e.SetDoubleAttribute( "n", v ); VC_CHECK( e.QueryDoubleAttribute( "n", &o ) == TIXML_SUCCESS && std::fabs( o - v ) < 1e-6, "double-round-trip", "%g", o ); e.FirstAttribute()->SetDoubleValue( v + 1 ); VC_CHECK( std::fabs( e.FirstAttribute()->DoubleValue() - v - 1 ) < 1e-6 * ( 1 + std::fabs( v ) * 1e-6 ), "double-round-trip", "SetDoubleValue" ); vc::step( 2 ); vc::state(); }
	// attribute sets: all sequences of set/remove over three names
	for( int code = 0; code < 6 * 6 * 6 * 6 * 6; code++ ) if( vc::next( "attribute sequence %d", code ) )
	{
		long before = gLive; uint64_t h = 0; { TiXmlElement e( "e" ); std::vector< std::pair< std::string, std::string > > m; int c = code; const char* nm[] = { "a", "ab", "b" };
		for( int k = 0; k < 5; k++ ) { int o = c % 6; c /= 6; std::string n = nm[ o % 3 ]; if( o < 3 ) { std::string v = vc::fmt( "%d", k ); e.SetAttribute( n, v ); bool f = false; for( auto& x : m ) if( x.first == n ) { x.second = v; f = true; } if( !f ) m.push_back( std::make_pair( n, v ) ); } else { e.RemoveAttribute( n.c_str() ); for( size_t q = 0; q < m.size(); q++ ) if( m[ q ].first == n ) { m.erase( m.begin() + q ); break; } } vc::step(); }
		std::string bad; N r = read( &e, 0, &bad ); VC_CHECK( bad.empty() && r.at == m, "attribute-set", "%s %s", bad.c_str(), str( r ).c_str() ); h = vc::hashBytes( str( r ).data(), str( r ).size() ); vc::state();
		TiXmlElement cp( e ); N r2 = read( &cp, 0, &bad ); VC_CHECK( bad.empty() && r2 == r, "attribute-copy", "%s", str( r2 ).c_str() ); }
		vc::checked(); VC_CHECK( gLive == before, "freed-once", "%ld allocations outstanding", gLive - before ); vc::outcome( h );
	}
}
static void body()
{
	for( int w = 0; w < 3; w++ )
	{
		for( int p = 0; p < 5; p++ ) { if( w && p == 4 ) continue; Op e = { END, w, 0, p }; OPS.push_back( e ); Op l = { LINK, w, 0, p }; if( p == 0 || p == 3 ) OPS.push_back( l ); }
		for( int k = BEFORE; k <= REPLACE; k++ ) for( int pos = 0; pos < ( w == 1 ? 3 : 2 ); pos++ ) for( int p = 0; p < 4; p++ ) { if( p == 2 && w != 1 ) continue; Op o = { k, w, pos, p }; OPS.push_back( o ); }
		for( int pos = 0; pos < ( w == 1 ? 3 : 2 ); pos++ ) { Op o = { REMOVE, w, pos, 0 }; OPS.push_back( o ); }
		Op c = { CLEAR, w, 0, 0 }; OPS.push_back( c );
		Op f = { FOREIGN, w, 0, 0 }; OPS.push_back( f );
	}
	Op more[] = { { SETATTR, 1, 0, 1 }, { SETATTR, 2, 0, 0 }, { SETATTR, 2, 1, 1 }, { SETINT, 2, 0, 0 }, { DELATTR, 2, 0, 0 }, { DELATTR, 1, 1, 0 }, { RENAME, 2, 0, 0 }, { RENAME, 1, 1, 0 }, { GRAFT, 1, 2, 0 }, { GRAFT, 2, 1, 0 }, { GRAFT, 0, 2, 0 }, { DOCCOPY, 0, 0, 0 }, { DOCCOPY, 0, 1, 0 }, { ASSIGN, 2, 0, 0 } };
	for( auto& o : more ) OPS.push_back( o );
	N s = start();
	if( vc::next( "starting tree" ) ) explore( std::vector< Op >(), s, 0 );
	for( size_t i = 0; i < OPS.size(); i++ )
	{
		if( !legal( s, OPS[ i ] ) ) continue;
		for( size_t j = 0; j <= OPS.size(); j++ )
		{
			if( !vc::next( "%s then %s, then every sequence up to the depth", opStr( OPS[ i ] ).c_str(), j < OPS.size() ? opStr( OPS[ j ] ).c_str() : "nothing" ) ) continue;
			// advance the model through the first operations by running them once
			TiXmlDocument d; N m = s; for( auto& c : m.c ) d.LinkEndChild( build( c ) );
			apply( d, m, OPS[ i ], "prefix" ); std::vector< Op > seq( 1, OPS[ i ] );
			if( j == OPS.size() ) { explore( seq, m, 0 ); continue; }
			if( !legal( m, OPS[ j ] ) ) continue;
			apply( d, m, OPS[ j ], "prefix" ); seq.push_back( OPS[ j ] );
			explore( seq, m, vc::pick( 1, 2 ) );
		}
	}
	typed();
	// many children and attributes: insertion, lookup and removal at every place
	for( int n = 1; n <= vc::pick( 40, 90 ); n += n < 20 ? 1 : 5 ) if( vc::next( "%d children and attributes", n ) ) for( int at = 0; at < n; at++ )
	{
		TiXmlElement p( "p" ); std::vector< std::string > want; std::vector< TiXmlNode* > kid; vc::state();
		for( int i = 0; i < n; i++ ) { kid.push_back( p.LinkEndChild( new TiXmlElement( vc::fmt( "k%d", i ) ) ) ); want.push_back( vc::fmt( "k%d", i ) ); p.SetAttribute( vc::fmt( "a%d", i ), i ); }
		TiXmlElement b( "before" ), a( "after" ), rp( "instead" );
		p.InsertBeforeChild( kid[ at ], b ); p.InsertAfterChild( kid[ at ], a ); want.insert( want.begin() + at, "before" ); want.insert( want.begin() + at + 2, "after" );
		if( at % 3 == 0 ) { p.RemoveChild( kid[ at ] ); want.erase( want.begin() + at + 1 ); } else if( at % 3 == 1 ) { p.ReplaceChild( kid[ at ], rp ); want[ at + 1 ] = "instead"; }
		p.RemoveAttribute( vc::fmt( "a%d", at ).c_str() ); vc::step();
		std::vector< std::string > f, l; for( TiXmlNode* k = p.FirstChild(); k; k = k->NextSibling() ) { f.push_back( k->ValueStr() ); VC_CHECK( k->Parent() == &p, "many-parent", "%d children: wrong parent of %s", n, k->Value() ); }
		for( TiXmlNode* k = p.LastChild(); k; k = k->PreviousSibling() ) l.push_back( k->ValueStr() ); std::reverse( l.begin(), l.end() );
		VC_CHECK( f == want && l == want, "many-order", "%d children, changes at %d: %zu forwards, %zu backwards, %zu expected", n, at, f.size(), l.size(), want.size() );
		for( auto& w : want ) VC_CHECK( p.FirstChildElement( w ) && p.FirstChildElement( w )->ValueStr() == w, "many-lookup", "%d children: %s is not found", n, w.c_str() );
		int count = 0; for( const TiXmlAttribute* t = p.FirstAttribute(); t; t = t->Next() ) count++; for( int i = 0; i < n; i++ ) { int v = -7, r = p.QueryIntAttribute( vc::fmt( "a%d", i ), &v ); VC_CHECK( i == at ? r == TIXML_NO_ATTRIBUTE && v == -7 : r == TIXML_SUCCESS && v == i, "many-attributes", "%d attributes without %d: a%d is %d (result %d)", n, at, i, v, r ); }
		VC_CHECK( count == n - 1, "many-attributes", "%d attributes left of %d", count, n );
		TiXmlElement copy( p ); std::vector< std::string > g; for( TiXmlNode* k = copy.FirstChild(); k; k = k->NextSibling() ) g.push_back( k->ValueStr() ); int cc = 0; for( const TiXmlAttribute* t = copy.FirstAttribute(); t; t = t->Next() ) cc++; VC_CHECK( g == want && cc == n - 1, "many-copy", "the copy has %zu children and %d attributes", g.size(), cc );
		p.Clear(); VC_CHECK( p.NoChildren() && !p.LastChild(), "many-clear", "children left" );
	}
}
VC_MAIN( body() )
