// G01: unit quaternions act, compose and invert exactly like rotation matrices.
#include "ut.hpp"
using namespace ut;
static const double TOL = 1e-8;

static void body()
{
	std::vector< Rot > rots = rotLattice( 2 );
	std::vector< V3 > pts;
	for( int x = -1; x <= 2; x++ ) for( int y = -2; y <= 1; y++ ) for( int z = -1; z <= 1; z++ ) pts.push_back( v3( x, y * 1.5, z * 10 ) );
	// single rotations, both signs
	for( size_t i = 0; i < rots.size(); i++ ) for( int sg = -1; sg <= 1; sg += 2 )
	{
		const Rot& r = rots[ i ];
		if( !vc::next( "single: %s sign %d", str( r ).c_str(), sg ) ) continue;
		vc::state();
		Q q = qOf( r, sg );
		// library constructor from axis and angle stands for the same rotation
		Q qa( u3( r.axis ), r.angle );
		VC_CHECK( maxDiff( matOf( qa ), r.R ) < TOL, "axis-angle-constructor", "matrix differs by %g", maxDiff( matOf( qa ), r.R ) );
		VC_CHECK( std::fabs( qnorm( qa ) - 1 ) < TOL, "axis-angle-constructor-norm", "norm %g", qnorm( qa ) );
		// toMatrix
		Ubitrack::Math::Matrix< double, 3, 3 > m; q.toMatrix( m );
		M3 R = m3( m );
		VC_CHECK( maxDiff( R, r.R ) < TOL, "to-matrix", "differs by %g", maxDiff( R, r.R ) );
		VC_CHECK( maxDiff( mul( R, trans( R ) ), ident() ) < TOL && std::fabs( det( R ) - 1 ) < TOL, "matrix-proper", "det %g", det( R ) );
		Ubitrack::Math::Matrix< double, 3, 3 > mc( q );
		VC_CHECK( maxDiff( m3( mc ), r.R ) < TOL, "matrix-constructor", "differs" );
		Ubitrack::Math::Matrix< double, 4, 4 > m4( q, u3( v3( 1, -2, 3 ) ) );
		VC_CHECK( maxDiff( m3( m4 ), r.R ) < TOL, "matrix44-constructor", "differs" );
		VC_CHECK( m4( 0, 3 ) == 1 && m4( 1, 3 ) == -2 && m4( 2, 3 ) == 3 && m4( 3, 0 ) == 0 && m4( 3, 1 ) == 0 && m4( 3, 2 ) == 0 && m4( 3, 3 ) == 1, "matrix44-constructor-translation", "wrong last column or row" );
		Ubitrack::Math::Matrix< double, 3, 4 > m34( q, u3( v3( 1, -2, 3 ) ) );
		VC_CHECK( maxDiff( m3( m34 ), r.R ) < TOL && m34( 0, 3 ) == 1 && m34( 1, 3 ) == -2 && m34( 2, 3 ) == 3, "matrix34-constructor", "differs" );
		Ubitrack::Math::Matrix< float, 3, 3 > mf; q.toMatrix( mf );
		VC_CHECK( maxDiff( m3( mf ), r.R ) < 1e-5, "to-matrix-float", "differs by %g", maxDiff( m3( mf ), r.R ) );
		// action on points
		for( size_t k = 0; k < pts.size(); k++ )
		{
			V3 e = mul( r.R, pts[ k ] ), g = fromU( q * u3( pts[ k ] ) );
			VC_CHECK( dist( e, g ) < TOL * 20, "action", "point %s -> %s expected %s", str( pts[ k ] ).c_str(), str( g ).c_str(), str( e ).c_str() );
			V3 back = fromU( ( ~q ) * u3( g ) );
			VC_CHECK( dist( back, pts[ k ] ) < TOL * 20, "inverse-action", "not undone" );
			vc::step();
		}
		// inverse
		Q inv = ~q; Q inv2 = q; Q& ret = inv2.invert();
		VC_CHECK( maxDiff( matOf( inv ), trans( r.R ) ) < TOL, "inverse", "not the transposed rotation" );
		VC_CHECK( &ret == &inv2 && maxDiff( matOf( inv2 ), trans( r.R ) ) < TOL, "invert-in-place", "not the transposed rotation" );
		VC_CHECK( maxDiff( matOf( Q( q * inv ) ), ident() ) < TOL && maxDiff( matOf( Q( inv * q ) ), ident() ) < TOL, "inverse-product", "q * ~q is not the identity" );
		// normalisation
		double scales[] = { 1e-3, 0.5, 2, 1000 };
		for( double s : scales )
		{
			Q qs( q.x() * s, q.y() * s, q.z() * s, q.w() * s ); Q& rn = qs.normalize();
			VC_CHECK( &rn == &qs && std::fabs( qnorm( qs ) - 1 ) < TOL && maxDiff( matOf( qs ), r.R ) < TOL, "normalize", "scaled by %g", s );
			Ubitrack::Math::Matrix< double, 3, 3 > mn; qs.toMatrix( mn );
			VC_CHECK( maxDiff( m3( mn ), r.R ) < TOL, "normalize-matrix", "scaled by %g", s );
		}
		// component accessors and vector form
		Ubitrack::Math::Vector< double, 4 > v4; q.toVector( v4 );
		VC_CHECK( v4( 0 ) == q.x() && v4( 1 ) == q.y() && v4( 2 ) == q.z() && v4( 3 ) == q.w(), "to-vector", "component order" );
		Q fv = Q::fromVector( v4 );
		VC_CHECK( fv == q, "from-vector", "does not round trip" );
		VC_CHECK( q.R_component_1() == q.w() && q.R_component_2() == q.x() && q.R_component_3() == q.y() && q.R_component_4() == q.z(), "components", "accessors disagree" );
		vc::outcome( vc::fmt( "%.3f %.3f %.3f", R.m[ 0 ][ 0 ], R.m[ 0 ][ 1 ], R.m[ 2 ][ 1 ] ) );
	}
	// products of two
	for( size_t i = 0; i < rots.size(); i++ )
	{
		if( !vc::next( "products: left %s with every right rotation", str( rots[ i ] ).c_str() ) ) continue;
		for( size_t j = 0; j < rots.size(); j++ ) for( int sg = -1; sg <= 1; sg += 2 )
		{
			vc::state();
			Q a = qOf( rots[ i ] ), b = qOf( rots[ j ], sg );
			Q ab( a * b );
			M3 e = mul( rots[ i ].R, rots[ j ].R );
			double d = maxDiff( matOf( ab ), e );
			VC_CHECK( d < TOL, "product", "right %s sign %d: differs by %g", str( rots[ j ] ).c_str(), sg, d );
			VC_CHECK( std::fabs( qnorm( ab ) - 1 ) < TOL, "product-norm", "right %s", str( rots[ j ] ).c_str() );
			U3 p( 1, -2, 3 );
			V3 g1 = fromU( ab * p ), g2 = fromU( a * ( b * p ) ), ee = mul( e, fromU( p ) );
			VC_CHECK( dist( g1, ee ) < TOL * 10 && dist( g2, ee ) < TOL * 10, "product-action", "right %s: %s / %s expected %s", str( rots[ j ] ).c_str(), str( g1 ).c_str(), str( g2 ).c_str(), str( ee ).c_str() );
			Q abi = ~ab, biai( ( ~b ) * ( ~a ) );
			VC_CHECK( maxDiff( matOf( abi ), matOf( biai ) ) < TOL, "inverse-of-product", "right %s", str( rots[ j ] ).c_str() );
			Q nc = a.negateIfCloser( b );
			double dp = nc.x() * b.x() + nc.y() * b.y() + nc.z() * b.z() + nc.w() * b.w();
			VC_CHECK( dp >= -1e-12 && maxDiff( matOf( nc ), rots[ i ].R ) < TOL, "negate-if-closer", "right %s: dot %g", str( rots[ j ] ).c_str(), dp );
			vc::step( 4 );
			vc::outcome( vc::fmt( "%.2f %.2f %.2f", e.m[ 0 ][ 0 ], e.m[ 0 ][ 1 ], e.m[ 2 ][ 1 ] ) );
		}
	}
	// words of length 3 (thorough: 4) over a generator set
	std::vector< Rot > gen = rotLattice( vc::thorough() ? 1 : 0 );
	for( size_t i = 0; i < gen.size(); i++ ) for( size_t j = 0; j < gen.size(); j++ )
	{
		if( !vc::next( "words: %s * %s * every generator", str( gen[ i ] ).c_str(), str( gen[ j ] ).c_str() ) ) continue;
		for( size_t k = 0; k < gen.size(); k++ )
		{
			vc::state();
			Q a = qOf( gen[ i ] ), b = qOf( gen[ j ] ), c = qOf( gen[ k ] );
			M3 e = mul( mul( gen[ i ].R, gen[ j ].R ), gen[ k ].R );
			Q l( Q( a * b ) * c ), r( a * Q( b * c ) ), acc( a ); acc *= b; acc *= c;
			VC_CHECK( maxDiff( matOf( l ), e ) < TOL && maxDiff( matOf( r ), e ) < TOL && maxDiff( matOf( acc ), e ) < TOL, "associativity", "third %s", str( gen[ k ] ).c_str() );
			vc::step( 3 );
		}
	}
}
VC_MAIN( body() )
