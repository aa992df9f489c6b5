// G03: slerp, rotation angle and angular velocity follow the geodesic.
#include "ut.hpp"
#include <utMath/RotationVelocity.h>
using namespace ut;
using Ubitrack::Math::slerp; using Ubitrack::Math::linearInterpolate; using Ubitrack::Math::RotationVelocity;
static const double TOL = 2e-6;

static void body()
{
	std::vector< Rot > rots = rotLattice( vc::thorough() ? 2 : 1 );
	std::vector< double > ts; for( int k = 0; k <= 8; k++ ) ts.push_back( k / 8.0 ); ts.push_back( 0.3 ); ts.push_back( 0.01 ); ts.push_back( 0.99 );
	std::vector< Rot > full = rotLattice( 2 );
	for( size_t i = 0; i < full.size(); i++ )
	{
		if( !vc::next( "angle of %s", str( full[ i ] ).c_str() ) ) continue;
		vc::state();
		for( int sg = -1; sg <= 1; sg += 2 )
		{
			Q q = qOf( full[ i ], sg );
			VC_CLOSE( q.angle(), full[ i ].angle, 1e-6, "angle" );
			Q d( q * ( ~q ) ); VC_CLOSE( d.angle(), 0.0, 1e-6, "angle-of-identity-product" );
			Q n( q ); n.normalize(); VC_CLOSE( n.angle(), full[ i ].angle, 1e-6, "angle-normalised" );
			Q e( Q( q * q ) * ( ~q ) ); VC_CLOSE( e.angle(), full[ i ].angle, 1e-6, "angle-product" );
			vc::step( 4 );
		}
	}
	for( size_t i = 0; i < rots.size(); i++ ) for( int si = -1; si <= 1; si += 2 )
	{
		if( !vc::next( "from %s sign %d to every rotation", str( rots[ i ] ).c_str(), si ) ) continue;
		for( size_t j = 0; j < rots.size(); j++ ) for( int sj = -1; sj <= 1; sj += 2 )
		{
			vc::state();
			Q a = qOf( rots[ i ], si ), b = qOf( rots[ j ], sj );
			const M3 &A = rots[ i ].R, &B = rots[ j ].R;
			double total = rotDist( A, B );
			std::string to = str( rots[ j ] ) + vc::fmt( " sign %d", sj );
			for( double t : ts )
			{
				Q s = slerp( a, b, t ), l = linearInterpolate( a, b, t );
				M3 S = matOf( s );
				VC_CHECK( std::fabs( qnorm( s ) - 1 ) < TOL, "slerp-unit", "to %s t=%g norm %g", to.c_str(), t, qnorm( s ) );
				VC_CHECK( s == l, "linear-interpolate-is-slerp", "to %s t=%g", to.c_str(), t );
				double dA = rotDist( A, S ), dB = rotDist( S, B );
				VC_CHECK( std::fabs( dA - t * total ) < TOL && std::fabs( dB - ( 1 - t ) * total ) < TOL, "slerp-fraction",
					"to %s t=%g: distances %g and %g, total %g", to.c_str(), t, dA, dB, total );
				vc::step();
			}
			Q s0 = slerp( a, b, 0 ), s1 = slerp( a, b, 1 );
			VC_CHECK( maxDiff( matOf( s0 ), A ) < TOL && maxDiff( matOf( s1 ), B ) < TOL, "slerp-end-points", "to %s", to.c_str() );
			VC_CLOSE( Q( ( ~a ) * b ).angle(), total, 1e-6, "angle-between" );
			// pose interpolation
			U3 ta( 1, 2, -3 ), tb( -5, 0.5, 4 );
			Pose pi = linearInterpolate( Pose( a, ta ), Pose( b, tb ), 0.25 );
			VC_CHECK( dist( fromU( pi.translation() ), v3( -0.5, 1.625, -1.25 ) ) < 1e-9, "pose-interpolation-translation", "to %s", to.c_str() );
			VC_CHECK( std::fabs( rotDist( A, matOf( pi.rotation() ) ) - 0.25 * total ) < TOL, "pose-interpolation-rotation", "to %s", to.c_str() );
			std::vector< Pose > va, vb; va.push_back( Pose( a, ta ) ); va.push_back( Pose( b, tb ) ); vb.push_back( Pose( b, tb ) ); vb.push_back( Pose( a, ta ) );
			std::vector< Pose > vr = linearInterpolate( va, vb, 0.25 );
			VC_CHECK( vr.size() == 2 && vr[ 0 ] == pi && vr[ 1 ] == linearInterpolate( va[ 1 ], vb[ 1 ], 0.25 ), "pose-list-interpolation", "to %s", to.c_str() );
			// angular velocity
			double dts[] = { 0.01, 0.5, 3 };
			for( double dt : dts )
			{
				RotationVelocity v( a, b, dt );
				Q inc = v.integrate( dt );
				VC_CHECK( std::fabs( qnorm( inc ) - 1 ) < TOL, "velocity-unit", "to %s dt %g", to.c_str(), dt );
				VC_CHECK( maxDiff( mul( A, matOf( inc ) ), B ) < TOL, "velocity-integrates", "to %s dt %g: off by %g", to.c_str(), dt, maxDiff( mul( A, matOf( inc ) ), B ) );
				VC_CLOSE( v.angularVelocity() * dt, total, 1e-6, "velocity-magnitude" );
				Q half = v.integrate( dt / 2 ); M3 H = mul( A, matOf( half ) );
				VC_CHECK( std::fabs( rotDist( A, H ) - total / 2 ) < TOL && std::fabs( rotDist( H, B ) - total / 2 ) < TOL, "velocity-half-way", "to %s dt %g", to.c_str(), dt );
				Q bk = v.integrate( -dt ); VC_CHECK( maxDiff( matOf( bk ), trans( matOf( inc ) ) ) < TOL, "velocity-backwards", "to %s dt %g", to.c_str(), dt );
				V3 ax = fromU( v.axis() );
				if( total > 1e-4 ) VC_CHECK( maxDiff( rodrigues( ax, total ), matOf( inc ) ) < TOL && std::fabs( norm( ax ) - 1 ) < 1e-9, "velocity-axis", "to %s", to.c_str() );
				vc::step();
			}
			vc::outcome( vc::fmt( "%.3f", total ) );
		}
	}
}
VC_MAIN( body() )
