// G04: poses form a group acting on points.
#include "ut.hpp"
#include <cstring>
#include <sstream>
using namespace ut;
using Ubitrack::Math::Matrix; using Ubitrack::Math::Vector;
static const double TOL = 1e-7;
struct G { Pose p; M3 R; V3 t; std::string s; };

static V3 act( const G& g, const V3& x ) { return add( mul( g.R, x ), g.t ); }
static G comp( const G& a, const G& b ) { G r; r.R = mul( a.R, b.R ); r.t = act( a, b.t ); return r; }
static bool near( const Pose& p, const G& g ) { return poseDist( p, g.R, g.t ) < TOL * ( 1 + norm( g.t ) ); }

static void body()
{
	std::vector< Rot > rots = rotLattice( vc::thorough() ? 1 : 0 );
	V3 ts[] = { v3( 0, 0, 0 ), v3( 1, 0, 0 ), v3( 0, -2, 0 ), v3( 0.5, 3, -7 ), v3( -100, 20, 0.25 ) };
	std::vector< G > gens;
	for( size_t i = 0; i < rots.size(); i++ ) for( int k = 0; k < 5; k++ )
	{
		if( !vc::thorough() && i % 5 != (size_t)k && k != 3 ) continue;
		G g; g.p = Pose( qOf( rots[ i ], ( i + k ) % 2 ? 1 : -1 ), u3( ts[ k ] ) ); g.R = rots[ i ].R; g.t = ts[ k ]; g.s = str( rots[ i ] ) + " t " + str( ts[ k ] ); gens.push_back( g );
	}
	V3 pts[] = { v3( 0, 0, 0 ), v3( 1, 0, 0 ), v3( 0, 1, 0 ), v3( 0, 0, 1 ), v3( -3, 2, 5 ) };
	G id; id.R = ident(); id.t = v3( 0, 0, 0 );
	if( vc::next( "default pose" ) )
	{
		Pose d; VC_CHECK( near( d, id ), "default-identity", "default pose is not the identity" );
	}
	for( size_t i = 0; i < gens.size(); i++ )
	{
		if( !vc::next( "single pose %s", gens[ i ].s.c_str() ) ) continue;
		vc::state();
		const G& g = gens[ i ];
		for( const V3& x : pts )
		{
			V3 e = act( g, x ), r = fromU( g.p * u3( x ) );
			VC_CHECK( dist( e, r ) < TOL * ( 1 + norm( e ) ), "action", "%s -> %s expected %s", str( x ).c_str(), str( r ).c_str(), str( e ).c_str() );
			VC_CHECK( dist( fromU( ( ~g.p ) * u3( e ) ), x ) < TOL * ( 1 + norm( e ) ), "inverse-action", "point %s", str( x ).c_str() );
		}
		G gi; gi.R = trans( g.R ); gi.t = mulS( mul( gi.R, g.t ), -1 );
		VC_CHECK( near( ~g.p, gi ), "inverse", "wrong inverse" );
		VC_CHECK( near( ~( ~g.p ), g ), "inverse-twice", "inverse of inverse" );
		VC_CHECK( near( g.p * ( ~g.p ), id ) && near( ( ~g.p ) * g.p, id ), "inverse-product", "not the identity" );
		VC_CHECK( near( g.p * Pose(), g ) && near( Pose() * g.p, g ), "identity", "identity changes the pose" );
		// the printed text shows translation and rotation, for one pose and for a list
		{
			std::vector< Pose > l( 1 + i % 3, g.p ); std::ostringstream o1, o2, oq; o1.precision( 17 ); o2.precision( 17 ); oq.precision( 17 ); o1 << g.p; o2 << l; oq << g.p.rotation(); auto numbers = []( std::string t ) { for( char& c : t ) if( !std::strchr( "+-.0123456789einfa", c ) ) c = ' '; std::istringstream in( t ); std::vector< double > v; std::string w; while( in >> w ) { char* e; double x = std::strtod( w.c_str(), &e ); if( *e == 0 ) v.push_back( x ); } return v; };
			std::vector< double > w = { g.p.translation()( 0 ), g.p.translation()( 1 ), g.p.translation()( 2 ), g.p.rotation().x(), g.p.rotation().y(), g.p.rotation().z(), g.p.rotation().w() }, wl, wq( w.begin() + 3, w.end() ); for( size_t k = 0; k < l.size(); k++ ) wl.insert( wl.end(), w.begin(), w.end() ); vc::step();
			VC_CHECK( numbers( o1.str() ) == w, "printed", "%s", o1.str().c_str() ); VC_CHECK( numbers( o2.str() ) == wl, "printed-list", "%s", o2.str().c_str() ); VC_CHECK( numbers( oq.str() ) == wq, "printed-rotation", "%s", oq.str().c_str() );
		}
		// matrices
		Matrix< double, 4, 4 > m4( g.p ); Matrix< double, 3, 4 > m34( g.p );
		bool ok = true; for( int r = 0; r < 3; r++ ) { for( int c = 0; c < 3; c++ ) ok = ok && std::fabs( m4( r, c ) - g.R.m[ r ][ c ] ) < TOL && std::fabs( m34( r, c ) - g.R.m[ r ][ c ] ) < TOL; ok = ok && m4( r, 3 ) == g.t[ r ] && m34( r, 3 ) == g.t[ r ] && m4( 3, r ) == 0; }
		VC_CHECK( ok && m4( 3, 3 ) == 1, "to-matrix", "homogeneous matrix differs" );
		{
			Matrix< double, 4, 4 > q4( g.p.rotation(), u3( g.t ) ); Matrix< double, 3, 4 > q34( g.p.rotation(), u3( g.t ) ); Matrix< double, 3, 3 > q33( g.p.rotation() );
			Matrix< float, 4, 4 > f4( g.p ), g4( g.p.rotation(), u3( g.t ) ); Matrix< float, 3, 4 > f34( g.p ), g34( g.p.rotation(), u3( g.t ) );
			bool ok2 = true;
			for( int r = 0; r < 4; r++ ) for( int c = 0; c < 4; c++ )
			{
				const double e = r == 3 ? ( c == 3 ) : c == 3 ? g.t[ r ] : g.R.m[ r ][ c ], ft = 1e-5 * ( 1 + std::fabs( e ) );
				ok2 = ok2 && std::fabs( q4( r, c ) - e ) < TOL * ( 1 + std::fabs( e ) ) && std::fabs( f4( r, c ) - e ) < ft && std::fabs( g4( r, c ) - e ) < ft;
				if( r < 3 ) ok2 = ok2 && std::fabs( q34( r, c ) - e ) < TOL * ( 1 + std::fabs( e ) ) && std::fabs( f34( r, c ) - e ) < ft && std::fabs( g34( r, c ) - e ) < ft;
				if( r < 3 && c < 3 ) ok2 = ok2 && std::fabs( q33( r, c ) - e ) < TOL;
			}
			VC_CHECK( ok2, "to-matrix-parts", "matrix made from a rotation and a translation, or of floats, differs" );
		}
		VC_CHECK( near( Pose( m4 ), g ), "from-matrix44", "does not round trip" );
		VC_CHECK( near( Pose( m34 ), g ), "from-matrix34", "does not round trip" );
		Vector< double, 7 > v; g.p.toVector( v );
		VC_CHECK( v( 0 ) == g.t[ 0 ] && v( 1 ) == g.t[ 1 ] && v( 2 ) == g.t[ 2 ] && v( 3 ) == g.p.rotation().x() && v( 4 ) == g.p.rotation().y() && v( 5 ) == g.p.rotation().z() && v( 6 ) == g.p.rotation().w(), "to-vector", "parameter order" );
		VC_CHECK( Pose::fromVector( v ) == g.p && !( Pose::fromVector( v ) != g.p ), "from-vector", "does not round trip" );
		Pose sc( g.p ); sc.scalePose( 2.5 ); G gs = g; gs.t = mulS( g.t, 2.5 );
		VC_CHECK( near( sc, gs ), "scale", "scaling changes more than the translation" );
		Pose cp( g.p ), as; as = g.p;
		VC_CHECK( cp == g.p && as == g.p && !( cp != g.p ), "equality", "copy differs" );
		for( int k = 0; k < 3; k++ ) { V3 t2 = g.t; t2[ k ] += 0.5; Pose o( g.p.rotation(), u3( t2 ) ); VC_CHECK( !( o == g.p ) && o != g.p, "inequality", "translation component %d ignored", k ); }
		for( int k = 0; k < 4; k++ ) { Q q = g.p.rotation(); Q q2( q.x() + ( k == 0 ) * .25, q.y() + ( k == 1 ) * .25, q.z() + ( k == 2 ) * .25, q.w() + ( k == 3 ) * .25 ); Pose o( q2, u3( g.t ) ); VC_CHECK( !( o == g.p ) && o != g.p, "inequality-rotation", "rotation component %d ignored", k ); }
		vc::step( 16 );
		vc::outcome( g.s );
	}
	for( size_t i = 0; i < gens.size(); i++ ) for( size_t j = 0; j < gens.size(); j++ )
	{
		if( !vc::next( "%s  *  %s (and every third factor)", gens[ i ].s.c_str(), gens[ j ].s.c_str() ) ) continue;
		vc::state();
		const G &a = gens[ i ], &b = gens[ j ];
		G ab = comp( a, b ); Pose p = a.p * b.p;
		VC_CHECK( near( p, ab ), "composition", "off by %g", poseDist( p, ab.R, ab.t ) );
		Matrix< double, 4, 4 > ma( a.p ), mb( b.p ); Matrix< double, 4, 4 > mm( boost::numeric::ublas::prod( ma, mb ) );
		VC_CHECK( near( Pose( mm ), ab ), "matrix-composition", "matrix product disagrees" );
		for( const V3& x : pts )
		{
			V3 e = act( a, act( b, x ) ), r1 = fromU( p * u3( x ) ), r2 = fromU( a.p * ( b.p * u3( x ) ) );
			VC_CHECK( dist( e, r1 ) < TOL * ( 1 + norm( e ) ) && dist( e, r2 ) < TOL * ( 1 + norm( e ) ), "composition-action", "point %s", str( x ).c_str() );
		}
		G gi; gi.R = trans( ab.R ); gi.t = mulS( mul( gi.R, ab.t ), -1 );
		VC_CHECK( near( ~p, gi ) && near( ( ~b.p ) * ( ~a.p ), gi ), "inverse-of-product", "order of factors" );
		VC_CHECK( near( ( ~a.p ) * p, b ) && near( p * ( ~b.p ), a ), "cancellation", "does not cancel" );
		vc::step( 8 );
		size_t stride = vc::thorough() ? 7 : 5;
		for( size_t k = ( i + j ) % stride; k < gens.size(); k += stride )
		{
			vc::state();
			G abc = comp( ab, gens[ k ] );
			VC_CHECK( near( p * gens[ k ].p, abc ) && near( a.p * ( b.p * gens[ k ].p ), abc ), "associativity", "third %s", gens[ k ].s.c_str() );
			Pose conj = ( ~gens[ k ].p ) * p * gens[ k ].p; G gk; gk.R = trans( gens[ k ].R ); gk.t = mulS( mul( gk.R, gens[ k ].t ), -1 );
			VC_CHECK( near( conj, comp( comp( gk, ab ), gens[ k ] ) ), "conjugation", "third %s", gens[ k ].s.c_str() );
			vc::step( 3 );
		}
		vc::outcome( vc::fmt( "%.2f %.2f %.2f %.2f", ab.R.m[ 0 ][ 0 ], ab.R.m[ 1 ][ 2 ], ab.t[ 0 ], ab.t[ 2 ] ) );
	}
}
VC_MAIN( body() )
