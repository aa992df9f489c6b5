// quaternions as plain vectors (x, y, z, w) for the filter references
#pragma once
#include <cmath>
#include <vector>
typedef std::vector< double > X;
inline X qmul( const X& a, const X& b ) { return { a[ 3 ] * b[ 0 ] + a[ 0 ] * b[ 3 ] + a[ 1 ] * b[ 2 ] - a[ 2 ] * b[ 1 ], a[ 3 ] * b[ 1 ] + a[ 1 ] * b[ 3 ] + a[ 2 ] * b[ 0 ] - a[ 0 ] * b[ 2 ], a[ 3 ] * b[ 2 ] + a[ 2 ] * b[ 3 ] + a[ 0 ] * b[ 1 ] - a[ 1 ] * b[ 0 ], a[ 3 ] * b[ 3 ] - a[ 0 ] * b[ 0 ] - a[ 1 ] * b[ 1 ] - a[ 2 ] * b[ 2 ] }; }
inline X conj( const X& a ) { return { -a[ 0 ], -a[ 1 ], -a[ 2 ], a[ 3 ] }; }
inline X qexp( const X& v, double dt ) { double n = std::sqrt( v[ 0 ] * v[ 0 ] + v[ 1 ] * v[ 1 ] + v[ 2 ] * v[ 2 ] ), h = n * dt / 2, s = n < 1e-12 ? dt / 2 : std::sin( h ) / n; return { v[ 0 ] * s, v[ 1 ] * s, v[ 2 ] * s, std::cos( h ) }; }
inline X qrot( const X& q, const X& v ) { X r = qmul( qmul( q, { v[ 0 ], v[ 1 ], v[ 2 ], 0 } ), conj( q ) ); return { r[ 0 ], r[ 1 ], r[ 2 ] }; }
inline X part( const X& x, size_t a, size_t n ) { return X( x.begin() + a, x.begin() + a + n ); }
