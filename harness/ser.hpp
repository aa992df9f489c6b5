// Values of every serializable type, their flattened form, and reading/writing through every protocol.
#ifndef SER_HPP
#define SER_HPP
#include "vc.hpp"
#include <utMeasurement/Measurement.h>
#include <utSerialization/Serialization.h>
#include <utUtil/SimpleStringIArchive.h>
#include <utUtil/SimpleStringOArchive.h>
#include <utUtil/Exception.h>
#include <cfloat>
#include <climits>
#include <memory>
#include <functional>
namespace ser {
using namespace Ubitrack;
typedef std::vector< double > Flat;
// ---- flattening: one number per stored field, type independent of the library's comparison operators
template< class B > void flat( const Math::Scalar< B >& v, Flat& f ) { f.push_back( (double)( v.m_value >> 16 ) ); f.push_back( (double)( v.m_value & 0xffff ) ); }
inline void flat( const Math::Scalar< double >& v, Flat& f ) { f.push_back( v.m_value ); }
template< class T, size_t N > void flat( const Math::Vector< T, N >& v, Flat& f ) { if( N == 0 ) f.push_back( v.size() ); for( size_t i = 0; i < v.size(); i++ ) f.push_back( v( i ) ); }
template< class T, size_t M, size_t N > void flat( const Math::Matrix< T, M, N >& v, Flat& f ) { for( size_t i = 0; i < M; i++ ) for( size_t j = 0; j < N; j++ ) f.push_back( v( i, j ) ); }
inline void flat( const Math::Quaternion& q, Flat& f ) { f.push_back( q.x() ); f.push_back( q.y() ); f.push_back( q.z() ); f.push_back( q.w() ); }
inline void flat( const Math::RotationVelocity& q, Flat& f ) { for( int i = 0; i < 3; i++ ) f.push_back( q( i ) ); }
inline void flat( const Math::Pose& p, Flat& f ) { flat( p.rotation(), f ); flat( p.translation(), f ); }
inline void flat( const Math::ErrorPose& p, Flat& f ) { flat( p.rotation(), f ); flat( p.translation(), f ); flat( p.covariance(), f ); }
template< class T, size_t N > void flat( const Math::ErrorVector< T, N >& p, Flat& f ) { flat( p.value, f ); flat( p.covariance, f ); }
template< class T > void flat( const Math::CameraIntrinsics< T >& c, Flat& f )
{
	f.push_back( c.calib_type ); f.push_back( c.dimension( 0 ) ); f.push_back( c.dimension( 1 ) ); flat( c.matrix, f ); f.push_back( c.radial_size );
	for( size_t i = 0; i < c.radial_size && i < 6; i++ ) f.push_back( c.radial_params( i ) ); flat( c.tangential_params, f );
}
template< class T > void flat( const std::vector< T >& v, Flat& f ) { f.push_back( v.size() ); for( size_t i = 0; i < v.size(); i++ ) flat( v[ i ], f ); }
template< class T > void flat( const Measurement::Measurement< T >& m, Flat& f )
{ f.push_back( (double)( m.time() >> 32 ) ); f.push_back( (double)( m.time() & 0xffffffffu ) ); f.push_back( m.get() != 0 ); if( m.get() ) flat( *m, f ); }
template< class T > Flat flatOf( const T& t ) { Flat f; flat( t, f ); return f; }
inline bool same( const Flat& a, const Flat& b ) { return a == b; }   // MessagePack itself does not keep the sign of zero
inline std::string str( const Flat& f ) { std::string s; for( double d : f ) s += vc::fmt( "%.17g ", d ); return s.substr( 0, 1500 ); }

// ---- value construction from a stream of numbers
struct Src { std::function< double( int ) > g; int n = 0; double d() { return g( n++ ); } };
template< class T > T clampTo( double d ) { double m = (double)std::numeric_limits< T >::max(); return (T)( d > m ? m : d < -m ? -m : d ); }
template< class T > struct Make;
template< class B > struct Make< Math::Scalar< B > > { static Math::Scalar< B > make( Src& s ) { double x = s.d(); B b; if( x >= 1e9 ) b = std::numeric_limits< B >::max(); else if( x <= -1e9 ) b = std::numeric_limits< B >::min(); else b = (B)(long)x; return Math::Scalar< B >( b ); } };
template<> struct Make< Math::Scalar< double > > { static Math::Scalar< double > make( Src& s ) { return Math::Scalar< double >( s.d() ); } };
template< class T, size_t N > struct Make< Math::Vector< T, N > > { static Math::Vector< T, N > make( Src& s ) { Math::Vector< T, N > v; for( size_t i = 0; i < N; i++ ) v( i ) = clampTo< T >( s.d() ); return v; } };
template< class T > struct Make< Math::Vector< T, 0 > > { static Math::Vector< T, 0 > make( Src& s ) { double x = s.d(); int n = std::fabs( x ) < 5 ? (int)std::fabs( x ) : 3; Math::Vector< T, 0 > v( n ); for( int i = 0; i < n; i++ ) v( i ) = clampTo< T >( s.d() ); return v; } };
template< class T, size_t M, size_t N > struct Make< Math::Matrix< T, M, N > > { static Math::Matrix< T, M, N > make( Src& s ) { Math::Matrix< T, M, N > v; for( size_t i = 0; i < M; i++ ) for( size_t j = 0; j < N; j++ ) v( i, j ) = clampTo< T >( s.d() ); return v; } };
template<> struct Make< Math::Quaternion > { static Math::Quaternion make( Src& s ) { double x = s.d(), y = s.d(), z = s.d(), w = s.d(); return Math::Quaternion( x, y, z, w ); } };
template<> struct Make< Math::RotationVelocity > { static Math::RotationVelocity make( Src& s ) { double x = s.d(), y = s.d(), z = s.d(); return Math::RotationVelocity( x, y, z ); } };
template<> struct Make< Math::Pose > { static Math::Pose make( Src& s ) { Math::Quaternion q = Make< Math::Quaternion >::make( s ); Math::Vector< double, 3 > t = Make< Math::Vector< double, 3 > >::make( s ); return Math::Pose( q, t ); } };
template<> struct Make< Math::ErrorPose > { static Math::ErrorPose make( Src& s ) { Math::Quaternion q = Make< Math::Quaternion >::make( s ); Math::Vector< double, 3 > t = Make< Math::Vector< double, 3 > >::make( s ); Math::Matrix< double, 6, 6 > c = Make< Math::Matrix< double, 6, 6 > >::make( s ); return Math::ErrorPose( q, t, c ); } };
template< class T, size_t N > struct Make< Math::ErrorVector< T, N > > { static Math::ErrorVector< T, N > make( Src& s ) { Math::Vector< T, N > v = Make< Math::Vector< T, N > >::make( s ); Math::Matrix< T, N, N > c = Make< Math::Matrix< T, N, N > >::make( s ); return Math::ErrorVector< T, N >( v, c ); } };
template< class T > struct Make< Math::CameraIntrinsics< T > >
{
	static Math::CameraIntrinsics< T > make( Src& s )
	{
		Math::Matrix< T, 3, 3 > m = Make< Math::Matrix< T, 3, 3 > >::make( s ); Math::Vector< T, 2 > t = Make< Math::Vector< T, 2 > >::make( s );
		int k = (int)std::fmod( std::fabs( s.d() ), 5 ); size_t w = 640 + k, h = k == 1 ? 0 : 480;
		switch( k )
		{
		case 0: return Math::CameraIntrinsics< T >();
		case 1: return Math::CameraIntrinsics< T >( m, Make< Math::Vector< T, 2 > >::make( s ), t, w, h );
		case 2: return Math::CameraIntrinsics< T >( m, Make< Math::Vector< T, 3 > >::make( s ), t, w, h );
		case 3: return Math::CameraIntrinsics< T >( m, Make< Math::Vector< T, 6 > >::make( s ), t, w, h );
		default: return Math::CameraIntrinsics< T >( m, Make< Math::Vector< T, 4 > >::make( s ), w, h );
		}
	}
};
template< class T > struct Make< std::vector< T > > { static std::vector< T > make( Src& s ) { double x = std::fabs( s.d() ); int n = x < 4 ? (int)x : 5; std::vector< T > v; for( int i = 0; i < n; i++ ) v.push_back( Make< T >::make( s ) ); return v; } };
template< class T > struct Make< Measurement::Measurement< T > >
{
	static Measurement::Measurement< T > make( Src& s )
	{ static const unsigned long long ts[] = { 1, 0, 1700000000123456789ull, ~0ull, 0xffffffffull, 1ull << 63, 127, 128 }; double x = s.d(); return Measurement::Measurement< T >( ts[ (int)std::fmod( std::fabs( x ), 8 ) ], Make< T >::make( s ) ); }
};
// a target to read into
template< class T > struct Fresh { static T make( Src& s ) { return Make< T >::make( s ); } };

static const double ALPHA[] = { 0.0, 1.0, -1.0, 2.0, 3.0, 0.1, -0.0, 1.0 / 3, -2.5, 1e-300, 5e-324, DBL_MAX, -DBL_MAX, 123456789.123456789, 4503599627370497.5, 3.14159265358979323846, 7.0 };
static const int NA = sizeof ALPHA / sizeof *ALPHA;
static const double SIMPLE[] = { 0, 1, -1, 2, 3, 0.5, -0.25, 123456, 1e-5, 1e20, 7, 4 };
inline Src src( int k, int c, bool simple = false )
{ Src s; int n = simple ? 12 : NA; s.g = [ = ]( int i ) { return simple ? SIMPLE[ ( c + k * i ) % n ] : ALPHA[ ( c + k * i ) % n ]; }; return s; }
inline Src plain( double start ) { Src s; s.g = [ = ]( int i ) { return start + i; }; return s; }

// ---- protocols
enum Proto { TEXT, BINARY, MSGPACK, NPROTO };
static const char* PN[] = { "text", "binary", "msgpack" };

template< class T > void put( boost::archive::text_oarchive& a, const T& t ) { Serialization::BoostArchive::serialize( a, t ); }

struct Item
{
	std::string type; virtual ~Item() {}
	virtual Flat value() const = 0;
	virtual void textOut( boost::archive::text_oarchive& ) const = 0; virtual void textIn( boost::archive::text_iarchive& ) = 0;
	virtual void binOut( boost::archive::binary_oarchive& ) const = 0; virtual void binIn( boost::archive::binary_iarchive& ) = 0;
	virtual void mpOut( std::ostream&, int how ) const = 0; virtual void mpIn( msgpack::unpacker& ) = 0;
	virtual void mpObject() = 0;
	virtual void mpRewrite( std::ostream& ) const = 0; virtual void mpAs( const msgpack::object& ) = 0;
	virtual void front( Proto, std::ostream& ) const = 0;
	virtual Flat read() const = 0; virtual void soil( int ) = 0;
	bool boostOk = true;
};
template< class T, bool BOOST = true > struct ItemT : Item
{
	T t, r;
	ItemT( const std::string& n, const T& v ) : t( v ) { type = n; boostOk = BOOST; soil( 0 ); }
	void soil( int how ) { if( how == 0 ) { r = T(); prime( r ); } else { Src s = plain( -500 + how ); s.n = 0; r = Make< T >::make( s ); } }
	template< class X > static void prime( X& ) {}
	Flat value() const { return flatOf( t ); } Flat read() const { return flatOf( r ); }
	template< class A > static void out( A& a, const T& v, std::true_type ) { Serialization::BoostArchive::serialize( a, v ); }
	template< class A > static void out( A&, const T&, std::false_type ) {}
	template< class A > static void in( A& a, T& v, std::true_type ) { Serialization::BoostArchive::deserialize( a, v ); }
	template< class A > static void in( A&, T&, std::false_type ) {}
	typedef std::integral_constant< bool, BOOST > B;
	void textOut( boost::archive::text_oarchive& a ) const { out( a, t, B() ); } void textIn( boost::archive::text_iarchive& a ) { in( a, r, B() ); }
	void binOut( boost::archive::binary_oarchive& a ) const { out( a, t, B() ); } void binIn( boost::archive::binary_iarchive& a ) { in( a, r, B() ); }
	void mpOut( std::ostream& o, int how ) const { if( how == 0 ) Serialization::MsgpackArchive::serialize( o, t ); else if( how == 1 ) { msgpack::packer< std::ostream > p( &o ); Serialization::MsgpackArchive::serialize( p, t ); } else { msgpack::zone z; msgpack::object ob( t, z ); msgpack::pack( o, ob ); } }
	void mpIn( msgpack::unpacker& p ) { Serialization::MsgpackArchive::deserialize( p, r ); }
	void mpRewrite( std::ostream& o ) const { Serialization::MsgpackArchive::serialize( o, r ); } void mpAs( const msgpack::object& o ) { T c( o.as< T >() ); r = c; }
	void mpObject() { msgpack::zone z; msgpack::object o( t, z ); T c( o.as< T >() ); r = c; }
	template< class X > static void fr( Proto p, std::ostream& o, const X& x, std::true_type ) { Serialization::serialize( p == TEXT ? Serialization::PROTOCOL_BOOST_TEXT : p == BINARY ? Serialization::PROTOCOL_BOOST_BINARY : Serialization::PROTOCOL_MSGPACK, o, x ); }
	template< class X > static void fr( Proto, std::ostream&, const X&, std::false_type ) {}
	void front( Proto p, std::ostream& o ) const { fr( p, o, t, B() ); }
};
typedef std::shared_ptr< Item > ItemP;
template< class T, bool B = true > ItemP item( const std::string& n, Src s ) { return ItemP( new ItemT< T, B >( n, Make< T >::make( s ) ) ); }

// lists of a given length
template< class T > ItemP listItem( const char* n, size_t len ) { std::vector< T > v; for( size_t i = 0; i < len; i++ ) { Src s = src( 1 + i % 7, (int)( i % NA ) ); v.push_back( Make< T >::make( s ) ); } return ItemP( new ItemT< std::vector< T > >( vc::fmt( "vector<%s> of length %zu", n, len ), v ) ); }
inline std::vector< ItemP > listItems( size_t len )
{
	std::vector< ItemP > r; r.push_back( listItem< Math::Scalar< int > >( "Scalar<int>", len ) ); r.push_back( listItem< Math::Vector< double, 2 > >( "Vector<double,2>", len ) );
	if( len <= 300 )
	{
		r.push_back( listItem< Math::Pose >( "Pose", len ) ); r.push_back( listItem< Math::Matrix< double, 3, 4 > >( "Matrix<double,3,4>", len ) ); r.push_back( listItem< Math::ErrorVector< double, 3 > >( "ErrorVector<double,3>", len ) ); r.push_back( listItem< Math::Quaternion >( "Quaternion", len ) );
		std::vector< Math::Pose > v; for( size_t i = 0; i < len; i++ ) { Src s = src( 1 + i % 5, (int)( i % NA ) ); v.push_back( Make< Math::Pose >::make( s ) ); }
		r.push_back( ItemP( new ItemT< Measurement::Measurement< std::vector< Math::Pose > > >( vc::fmt( "Measurement<vector<Pose>> of length %zu", len ), Measurement::Measurement< std::vector< Math::Pose > >( 1700000000123456789ull, v ) ) ) );
	}
	Math::Vector< double, 0 > d( len ); for( size_t i = 0; i < len; i++ ) d( i ) = ALPHA[ ( 3 * i + 1 ) % NA ];
	r.push_back( ItemP( new ItemT< Math::Vector< double, 0 >, false >( vc::fmt( "Vector<double,0> of length %zu", len ), d ) ) );
	return r;
}

// calls f( name, maker ) for every type; maker( Src ) gives an Item
template< class F > void forTypes( F f )
{
	#define T1( n, ... ) f( n, std::function< ItemP( Src ) >( []( Src s ) { return item< __VA_ARGS__ >( n, s ); } ) );
	#define TT( n, ... ) T1( n, __VA_ARGS__ ) T1( "vector<" n ">", std::vector< __VA_ARGS__ > ) T1( "Measurement<" n ">", Measurement::Measurement< __VA_ARGS__ > )
	TT( "Scalar<double>", Math::Scalar< double > )
	TT( "Scalar<int>", Math::Scalar< int > )
	TT( "Scalar<unsigned long>", Math::Scalar< unsigned long > )
	TT( "Vector<double,2>", Math::Vector< double, 2 > )
	TT( "Vector<double,3>", Math::Vector< double, 3 > )
	TT( "Vector<double,8>", Math::Vector< double, 8 > )
	T1( "Vector<float,4>", Math::Vector< float, 4 > )
	TT( "Quaternion", Math::Quaternion )
	TT( "Matrix<double,3,3>", Math::Matrix< double, 3, 3 > )
	TT( "Matrix<double,3,4>", Math::Matrix< double, 3, 4 > )
	T1( "Matrix<double,4,4>", Math::Matrix< double, 4, 4 > )
	T1( "Matrix<double,4,2>", Math::Matrix< double, 4, 2 > )
	T1( "Matrix<float,2,3>", Math::Matrix< float, 2, 3 > )
	TT( "Pose", Math::Pose )
	TT( "ErrorPose", Math::ErrorPose )
	TT( "ErrorVector<double,2>", Math::ErrorVector< double, 2 > )
	TT( "ErrorVector<double,3>", Math::ErrorVector< double, 3 > )
	TT( "RotationVelocity", Math::RotationVelocity )
	TT( "CameraIntrinsics<double>", Math::CameraIntrinsics< double > )
	T1( "CameraIntrinsics<float>", Math::CameraIntrinsics< float > )
	T1( "Measurement<vector<Pose>>", Measurement::Measurement< std::vector< Math::Pose > > )
	T1( "Measurement<vector<Vector<double,2>>>", Measurement::Measurement< std::vector< Math::Vector< double, 2 > > > )
	T1( "Measurement<vector<ErrorVector<double,3>>>", Measurement::Measurement< std::vector< Math::ErrorVector< double, 3 > > > )
	#undef T1
	#undef TT
	f( "Vector<double,0>", std::function< ItemP( Src ) >( []( Src s ) { return item< Math::Vector< double, 0 >, false >( "Vector<double,0>", s ); } ) );
}
inline void feed( msgpack::unpacker& p, const std::string& s, size_t chunk = 0 )
{ size_t i = 0; if( !chunk ) chunk = s.size() ? s.size() : 1; while( i < s.size() ) { size_t n = std::min( chunk, s.size() - i ); p.reserve_buffer( n ); memcpy( p.buffer(), s.data() + i, n ); p.buffer_consumed( n ); i += n; } }
inline std::string writeAll( Proto p, const std::vector< Item* >& v, int how = 0 )
{
	std::ostringstream o;
	if( p == TEXT ) { boost::archive::text_oarchive a( o ); for( Item* i : v ) i->textOut( a ); }
	else if( p == BINARY ) { boost::archive::binary_oarchive a( o ); for( Item* i : v ) i->binOut( a ); }
	else for( Item* i : v ) i->mpOut( o, how );
	return o.str();
}
inline void readAll( Proto p, const std::string& s, const std::vector< Item* >& v, size_t chunk = 0 )
{
	std::istringstream is( s );
	if( p == TEXT ) { boost::archive::text_iarchive a( is ); for( Item* i : v ) i->textIn( a ); }
	else if( p == BINARY ) { boost::archive::binary_iarchive a( is ); for( Item* i : v ) i->binIn( a ); }
	else { msgpack::unpacker u; feed( u, s, chunk ); for( Item* i : v ) i->mpIn( u ); }
}
}
#endif
