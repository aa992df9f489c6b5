// model of an XML tree and the comparison of a TinyXML tree with it (every link of the real tree is checked on the way)
#ifndef XM_HPP
#define XM_HPP
#include "vc.hpp"
#include <tinyxml.h>
#include <utility>
namespace xm {
struct N
{
	char k; std::string v; std::vector< std::pair< std::string, std::string > > at; std::vector< N > c;   // D ocument E lement T ext C omment A (cdata) U nknown X (declaration)
	N( char K = 'E', const std::string& V = "" ) : k( K ), v( V ) {}
	bool operator==( const N& o ) const { return k == o.k && v == o.v && at == o.at && c == o.c; }
	size_t count() const { size_t n = 1; for( auto& x : c ) n += x.count(); return n; }
};
inline std::string esc( const std::string& s )
{ std::string r; for( unsigned char ch : s ) { if( ch < 32 || ch > 126 ) r += vc::fmt( "\\x%02x", ch ); else r += ch; } return r; }
inline std::string str( const N& n )
{
	std::string r( 1, n.k ); r += "'" + esc( n.v ) + "'";
	for( auto& a : n.at ) r += " " + esc( a.first ) + "=[" + esc( a.second ) + "]";
	if( !n.c.empty() ) { r += "("; for( size_t i = 0; i < n.c.size(); i++ ) r += ( i ? "," : "" ) + str( n.c[ i ] ); r += ")"; }
	return r;
}
inline TiXmlNode* build( const N& n )
{
	TiXmlNode* r = 0;
	switch( n.k )
	{
	case 'D': r = new TiXmlDocument(); break;
	case 'E': { TiXmlElement* e = new TiXmlElement( n.v.c_str() ); for( auto& a : n.at ) e->SetAttribute( a.first.c_str(), a.second.c_str() ); r = e; break; }
	case 'T': r = new TiXmlText( n.v.c_str() ); break;
	case 'A': { TiXmlText* t = new TiXmlText( n.v ); t->SetCDATA( true ); r = t; break; }
	case 'C': { TiXmlComment* t = new TiXmlComment(); t->SetValue( n.v ); r = t; break; }
	case 'U': { TiXmlUnknown* t = new TiXmlUnknown(); t->SetValue( n.v ); r = t; break; }
	case 'X': r = new TiXmlDeclaration( n.at[ 0 ].second.c_str(), n.at[ 1 ].second.c_str(), n.at[ 2 ].second.c_str() ); break;
	}
	for( auto& c : n.c ) r->LinkEndChild( build( c ) );
	return r;
}
// the model of a real tree; *bad receives the first broken link
inline N read( const TiXmlNode* n, const TiXmlNode* parent, std::string* bad, int depth = 0 )
{
	N r;
	if( n->ToDocument() ) r.k = 'D';
	else if( const TiXmlElement* e = n->ToElement() )
	{
		r = N( 'E', n->Value() ); size_t guard = 0;
		for( const TiXmlAttribute* a = e->FirstAttribute(); a && ++guard < 100; a = a->Next() ) r.at.push_back( std::make_pair( std::string( a->Name() ), a->ValueStr() ) );
		std::vector< std::pair< std::string, std::string > > rev; guard = 0;
		for( const TiXmlAttribute* a = e->LastAttribute(); a && ++guard < 100; a = a->Previous() ) rev.insert( rev.begin(), std::make_pair( std::string( a->Name() ), a->ValueStr() ) );
		if( rev != r.at && bad->empty() ) *bad = "attributes read backwards differ from forwards";
		for( auto& a : r.at ) if( ( !e->Attribute( a.first.c_str() ) || a.second.c_str() != std::string( e->Attribute( a.first.c_str() ) ) && a.second.find( (char)0 ) == std::string::npos || !e->Attribute( a.first ) || *e->Attribute( a.first ) != a.second ) && bad->empty() ) *bad = "attribute lookup by name fails";
	}
	else if( const TiXmlText* t = n->ToText() ) r = N( t->CDATA() ? 'A' : 'T', n->ValueStr() );
	else if( n->ToComment() ) r = N( 'C', n->ValueStr() );
	else if( const TiXmlDeclaration* d = n->ToDeclaration() )
	{ r.k = 'X'; r.v = ""; r.at.push_back( std::make_pair( "v", std::string( d->Version() ) ) ); r.at.push_back( std::make_pair( "e", std::string( d->Encoding() ) ) ); r.at.push_back( std::make_pair( "s", std::string( d->Standalone() ) ) ); }
	else if( n->ToUnknown() ) r = N( 'U', n->ValueStr() );
	else r.k = '?';
	if( n->Parent() != parent && bad->empty() ) *bad = "parent link wrong at " + esc( n->ValueStr() );
	int casts = ( n->ToDocument() != 0 ) + ( n->ToElement() != 0 ) + ( n->ToText() != 0 ) + ( n->ToComment() != 0 ) + ( n->ToDeclaration() != 0 ) + ( n->ToUnknown() != 0 );
	if( casts != 1 && bad->empty() ) *bad = "node is not exactly one kind";
	const TiXmlNode* prev = 0; size_t guard = 0; const TiXmlElement* lastElem = 0; bool any = false;
	for( const TiXmlNode* c = n->FirstChild(); c; c = c->NextSibling() )
	{
		any = true;
		if( ++guard > 1000 || depth > 5000 ) { *bad = "child list is cyclic"; return r; }
		if( c->PreviousSibling() != prev && bad->empty() ) *bad = "previous-sibling link wrong at " + esc( c->ValueStr() );
		if( n->IterateChildren( prev ) != c && bad->empty() ) *bad = "IterateChildren skips a child";
		if( c->GetDocument() != n->GetDocument() && bad->empty() ) *bad = "child belongs to another document";
		if( c->ToElement() )
		{
			const TiXmlElement* want = lastElem ? lastElem->NextSiblingElement() : n->FirstChildElement();
			if( want != c->ToElement() && bad->empty() ) *bad = "element iteration wrong";
			lastElem = c->ToElement();
		}
		r.c.push_back( read( c, n, bad, depth + 1 ) );
		prev = c;
	}
	if( n->LastChild() != prev && bad->empty() ) *bad = "last-child link wrong";
	if( n->NoChildren() == any && bad->empty() ) *bad = "NoChildren wrong";
	return r;
}
inline N read( const TiXmlDocument& d, std::string* bad ) { return read( &d, 0, bad ); }
}
#endif
