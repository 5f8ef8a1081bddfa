// 3x3 inversion, scaling maps, sub-element counts, integer helpers, assertions, kernel wrappers.
#include "common.hpp"
#include "shiva/common/MathUtilities.hpp"
#include "shiva/common/CArray.hpp"
#include "shiva/common/pmpl.hpp"
#include "shiva/common/ShivaErrorHandling.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/geometry/shapes/NSimplex.hpp"
#include "shiva/geometry/mapping/Scaling.hpp"
#include "shiva/geometry/mapping/UniformScaling.hpp"
#include "shiva/geometry/mapping/JacobianTransforms.hpp"
#include <utility>
using namespace shiva;
using namespace shiva::geometry;
#define SEQ_OF( N ) std::make_integer_sequence< int, N >{}

#if PART == 1
using R = REAL;
X R inv_raw( R * m )
{
  R a[3][3], d = -7;
  for( int i = 0; i < 3; ++i ) { for( int j = 0; j < 3; ++j ) { a[i][j] = m[3 * i + j]; } }
  mathUtilities::inverse( a, d );
  for( int i = 0; i < 3; ++i ) { for( int j = 0; j < 3; ++j ) { m[3 * i + j] = a[i][j]; } }
  return d;
}
X R inv_array( R * m )
{
  CArrayNd< R, 3, 3 > a;
  R d = -7;
  for( int i = 0; i < 3; ++i ) { for( int j = 0; j < 3; ++j ) { a( i, j ) = m[3 * i + j]; } }
  mathUtilities::inverse( a, d );
  for( int i = 0; i < 3; ++i ) { for( int j = 0; j < 3; ++j ) { m[3 * i + j] = a( i, j ); } }
  return d;
}
X R inv_view( R * m )
{
  R b[9], d = -7;
  CArrayViewNd< R, 3, 3 > a( b );
  for( int i = 0; i < 9; ++i ) { b[i] = m[i]; }
  mathUtilities::inverse( a, d );
  for( int i = 0; i < 9; ++i ) { m[i] = b[i]; }
  return d;
}
// ------------------------------------------------------------------ scaling maps
using S = Scaling< R >;
using US = UniformScaling< R >;
X R sc_all( R const * h, R * j, R * inv, R * jv, R * inv2, R * dv, R * data )
{
  S s;
  for( int i = 0; i < 3; ++i ) { data[6 + i] = static_cast< S const & >( s ).getData()[i]; }      // default lengths
  R const hh[3] = { h[0], h[1], h[2] };
  s.setData( hh );
  S c( s ), e;
  for( int i = 0; i < 3; ++i ) { e.setData()[i] = h[i]; }
  for( int i = 0; i < 3; ++i ) { data[i] = c.getData()[i]; data[3 + i] = e.getData()[i]; }
  typename S::JacobianType J, I;
  for( int i = 0; i < 3; ++i ) { J( i ) = j[i]; I( i ) = inv[i]; }
  R d = -7;
  utilities::jacobian( s, J );
  utilities::inverseJacobian( s, I, d );
  auto const Jv = utilities::jacobian( e );
  auto const Iv = utilities::inverseJacobian( c );
  for( int i = 0; i < 3; ++i ) { j[i] = J( i ); inv[i] = I( i ); jv[i] = Jv( i ); inv2[i] = std::get< 1 >( Iv )( i ); data[9 + i] = s.getData()[i]; }
  *dv = std::get< 0 >( Iv );
  return d;
}
X R us_all( R h, R * j, R * inv, R * jv, R * inv2, R * dv, R * data )
{
  US s;
  data[2] = static_cast< US const & >( s ).getData();
  s.setData( h );
  US c( s ), e;
  e.setData() = h;
  data[0] = c.getData(); data[1] = e.getData();
  typename US::JacobianType J, I;
  J( 0 ) = *j; I( 0 ) = *inv;
  R d = -7;
  utilities::jacobian( s, J );
  utilities::inverseJacobian( s, I, d );
  auto const Jv = utilities::jacobian( e );
  auto const Iv = utilities::inverseJacobian( c );
  *j = J( 0 ); *inv = I( 0 ); *jv = Jv( 0 ); *inv2 = std::get< 1 >( Iv )( 0 ); *dv = std::get< 0 >( Iv ); data[3] = s.getData();
  return d;
}
X int sc_const() { return S::jacobianIsConstInCell() + 2 * US::jacobianIsConstInCell(); }
// ------------------------------------------------------------------ tolerance test
X int tolcheck( R a, R b, R t ) { return pmpl::check( a, b, t ); }
// ------------------------------------------------------------------ powers of floating bases
#define POW( E ) X R powr_##E( R x ) { return mathUtilities::pow< R, E >( x ); }
POW( 0 ) POW( 1 ) POW( 2 ) POW( 3 ) POW( 4 ) POW( 5 ) POW( 6 ) POW( 7 ) POW( 8 )
#endif

#if PART == 2
// ------------------------------------------------------------------ counts: run-time (n, m) dispatched to the compile-time functions
using R = double;
template< typename F, int ... I >
static inline int pick( int k, F && f, std::integer_sequence< int, I ... > ) { int r = -77; ( ( k == I ? void( r = f( std::integral_constant< int, I >{} ) ) : void() ), ... ); return r; }
#define CMAX 12
#define SMAX 11
X int cube_count( int n, int m )
{
  return pick( n - 1, [&] ( auto a ) { constexpr int N = decltype( a )::value + 1; return pick( m, [&] ( auto b ) { return NCube< R, N, -1, 1, 1 >::template numMCubes< decltype( b )::value >(); }, SEQ_OF( N + 1 ) ); }, SEQ_OF( CMAX ) );
}
X int simplex_count( int n, int m )
{
  return pick( n - 1, [&] ( auto a ) { constexpr int N = decltype( a )::value + 1; return pick( m, [&] ( auto b ) { return NSimplex< R, N, 0, 1, 1 >::template numMSimplexes< decltype( b )::value >(); }, SEQ_OF( N + 1 ) ); }, SEQ_OF( SMAX ) );
}
template< typename T > static inline void named( int * o )
{ o[0] = T::numDims(); o[1] = T::numVertices(); o[2] = T::numEdges(); o[3] = T::numFaces(); o[4] = T::numCells(); o[5] = T::numHyperFaces(); }
X int cube_named( int n, int * o ) { return pick( n - 1, [&] ( auto a ) { named< NCube< R, decltype( a )::value + 1, -1, 1, 1 > >( o ); return 1; }, SEQ_OF( CMAX ) ); }
X int simplex_named( int n, int * o ) { return pick( n - 1, [&] ( auto a ) { named< NSimplex< R, decltype( a )::value + 1, 0, 1, 1 > >( o ); return 1; }, SEQ_OF( SMAX ) ); }
template< typename T > static inline void box( double * o ) { o[0] = T::minCoord(); o[1] = T::maxCoord(); o[2] = T::length(); o[3] = T::volume(); }
#define BOX( name, N, A, B, D ) \
  X void cubebox_##name( double * o ) { box< NCube< double, N, A, B, D > >( o ); box< NCube< float, N, A, B, D > >( o + 4 ); } \
  X void simplexbox_##name( double * o ) { box< NSimplex< double, N, A, B, D > >( o ); box< NSimplex< float, N, A, B, D > >( o + 4 ); }
BOX( a, 1, -1, 1, 1 ) BOX( b, 3, -1, 1, 1 ) BOX( c, 2, 0, 1, 1 ) BOX( d, 3, -1, 1, 2 ) BOX( e, 2, -3, 5, 4 ) BOX( f, 4, 1, 2, 3 ) BOX( g, 5, -7, -2, 2 ) BOX( h, 3, 0, 10, 1 )
X void aliases( int * o )
{
  named< Cube< R > >( o ); named< Square< R > >( o + 6 ); named< Tetrahedron< R > >( o + 12 ); named< Triangle< R > >( o + 18 );
}
X void aliasbox( double * o ) { box< Cube< R > >( o ); box< Square< R > >( o + 4 ); box< Tetrahedron< R > >( o + 8 ); box< Triangle< R > >( o + 12 ); }
// ------------------------------------------------------------------ integer helpers
X int fact_int( int n ) { return pick( n, [] ( auto a ) { return mathUtilities::factorial< int, decltype( a )::value >::value; }, SEQ_OF( 13 ) ); }
template< typename T, typename F, int ... I >
static inline T pickT( int k, F && f, std::integer_sequence< int, I ... > ) { T r = 77; ( ( k == I ? void( r = f( std::integral_constant< int, I >{} ) ) : void() ), ... ); return r; }
X long fact_long( int n ) { return pickT< long >( n, [] ( auto a ) { return mathUtilities::factorial< long, decltype( a )::value >::value; }, SEQ_OF( 21 ) ); }
X unsigned long fact_ulong( int n ) { return pickT< unsigned long >( n, [] ( auto a ) { return mathUtilities::factorial< unsigned long, decltype( a )::value >::value; }, SEQ_OF( 21 ) ); }
X unsigned char fact_u8( int n ) { return pickT< unsigned char >( n, [] ( auto a ) { return mathUtilities::factorial< unsigned char, decltype( a )::value >::value; }, SEQ_OF( 6 ) ); }
X int binom_int( int n, int k )
{
  return pick( n, [&] ( auto a ) { constexpr int N = decltype( a )::value; return pick( k, [] ( auto b ) { return mathUtilities::binomialCoefficient< int, decltype( a )::value, decltype( b )::value >::value; }, SEQ_OF( N + 1 ) ); }, SEQ_OF( 13 ) );
}
X long binom_long( int n, int k )
{
  return pickT< long >( n, [&] ( auto a ) { constexpr int N = decltype( a )::value; return pickT< long >( k, [] ( auto b ) { return mathUtilities::binomialCoefficient< long, decltype( a )::value, decltype( b )::value >::value; }, SEQ_OF( N + 1 ) ); }, SEQ_OF( 21 ) );
}
#define POWI( T, name, E ) X T pow_##name##_##E( T x ) { return mathUtilities::pow< T, E >( x ); }
POWI( int, int, 0 ) POWI( int, int, 1 ) POWI( int, int, 2 ) POWI( int, int, 3 ) POWI( int, int, 4 ) POWI( int, int, 5 ) POWI( int, int, 7 ) POWI( int, int, 10 )
POWI( long, long, 2 ) POWI( long, long, 3 ) POWI( long, long, 6 ) POWI( long, long, 9 )
POWI( unsigned, unsigned, 2 ) POWI( unsigned, unsigned, 3 )
// two to a symbolic exponent
X int pow2( int e ) { return pick( e, [] ( auto a ) { return mathUtilities::pow< int, decltype( a )::value >( 2 ); }, SEQ_OF( 31 ) ); }
X long pow3( int e ) { return pickT< long >( e, [] ( auto a ) { return mathUtilities::pow< long, decltype( a )::value >( 3 ); }, SEQ_OF( 40 ) ); }
X long powm7( int e ) { return pickT< long >( e, [] ( auto a ) { return mathUtilities::pow< long, decltype( a )::value >( -7 ); }, SEQ_OF( 23 ) ); }
#endif

#if PART == 3
// ------------------------------------------------------------------ assertions
X int assert_plain( int a ) { int n = 0; SHIVA_ASSERT_MSG( ( ++n, a > 3 ), "plain message" ); return n; }
X int assert_fmt( int a, long b, int c ) { SHIVA_ASSERT_MSG( a < b, "values %d and %ld, letter %c, text %s, end", a, b, c, "some text" ); return 5; }
X int assert_two( int a, int b ) { SHIVA_ASSERT_MSG( a >= 0, "first %d", a ); SHIVA_ASSERT_MSG( b >= 0, "second %d", b ); return a / 2 + b / 2; }
X int assert_if( int a, int b ) { if( a > 0 ) SHIVA_ASSERT_MSG( b > 0, "nested %d", b ); else return 9; return 4; }
X int fail_call( int line, int abortFlag, int v, long w )
{
  shivaAssertionFailed( "some/file.cpp", line, abortFlag != 0, "value %d of %ld", v, w );
  return 3;
}
#define H64 "0123456789 a long fixed text before the first value of the message, "
X int fail_long( int line, int abortFlag, int v, long w )
{
  shivaAssertionFailed( "some/directory/with/a/rather/long/name/for/a/source/file.cpp", line, abortFlag != 0,
                        H64 H64 H64 H64 H64 H64 H64 H64 H64 H64 "first %d then %s and last %ld.", v, H64 H64 H64, w );
  return 3;
}
X int fail_none( int line, int abortFlag ) { shivaAssertionFailed( "f.hpp", line, abortFlag != 0, "no values" ); return 3; }
// ------------------------------------------------------------------ kernel wrappers
static int counter;
X int kernel0( int v, int flag )
{
  counter = 0;
  int got = 0;
  auto f = [&, v] () { ++counter; got += v; cb_e2( v, counter ); };
  pmpl::genericKernelWrapper( f, flag != 0 );
  return got;
}
X int kernel0r( int v ) { int got = 1; pmpl::genericKernelWrapper( [&got, v] () { got += v; cb_e1( v ); } ); return got; }
X void kernelN( int * data, int k, int v, int flag )
{
  pmpl::genericKernelWrapper( 6, data, [k, v] ( int * const d ) { cb_e1( d[k] ); d[k] = v; }, flag != 0 );
}
X void kernelND( double * data, int k, double v )
{
  auto f = [k, v] ( auto * const d ) { cb_e1( k ); d[k] += v; d[( k + 1 ) % 6] = v; };
  pmpl::genericKernelWrapper( 6, data, f );
}
struct Tracked { int k; ~Tracked() { cb_e1( k ); } };
X int dealloc( int a, int b, int c )
{
  Tracked * p = new Tracked[3];
  p[0].k = a; p[1].k = b; p[2].k = c;
  pmpl::deallocateData( p );
  double * q = new double[4];
  q[a & 3] = 1.0;
  pmpl::deallocateData( q );
  return 1;
}
#endif
