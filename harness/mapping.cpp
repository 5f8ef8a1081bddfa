// Linear transforms: data, Jacobians, inverse Jacobians, integrals.
#include "common.hpp"
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include "shiva/functions/quadrature/Quadrature.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/geometry/shapes/InterpolatedShape.hpp"
#include "shiva/geometry/mapping/JacobianTransforms.hpp"
#include "shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp"
#include <utility>
using namespace shiva;
using namespace shiva::functions;
using namespace shiva::geometry;
using shiva::discretizations::finiteElementMethod::ParentElement;
using R = REAL;
#define SEQ_OF( N ) std::make_integer_sequence< int, N >{}
template< int O > using Eq = LagrangeBasis< R, O, EqualSpacing >;
template< int O > using Gl = LagrangeBasis< R, O, GaussLegendreSpacing >;
template< int O > using Ll = LagrangeBasis< R, O, GaussLobattoSpacing >;
using GL2 = QuadratureGaussLegendre< R, 2 >;
using GL3 = QuadratureGaussLegendre< R, 3 >;
using GL4 = QuadratureGaussLegendre< R, 4 >;
using LL4 = QuadratureGaussLobatto< R, 4 >;
using LL3 = QuadratureGaussLobatto< R, 3 >;
using LL5 = QuadratureGaussLobatto< R, 5 >;

template< typename BA, typename BB, typename BC > struct El
{
  using Shape = InterpolatedShape< R, NCube< R, 3, -1, 1, 1 >, BA, BB, BC >;
  using Map = LinearTransform< R, Shape >;
  static constexpr int na = BA::numSupportPoints, nb = BB::numSupportPoints, nc = BC::numSupportPoints, n = na * nb * nc;
  // nodes stored directly, row-major (a, b, c, component)
  static inline void put( Map & m, R const * p ) { for( int a = 0; a < na; ++a ) { for( int b = 0; b < nb; ++b ) { for( int c = 0; c < nc; ++c ) { for( int i = 0; i < 3; ++i ) { m.getData()( a, b, c, i ) = *p++; } } } } }
  template< typename BX, int ... A >
  static inline void one( R x, R *& v, R *& g, std::integer_sequence< int, A ... > ) { ( ( *v++ = BX::template value< A >( x ) ), ... ); ( ( *g++ = BX::template gradient< A >( x ) ), ... ); }
  static inline void oned( R const * x, R * v, R * g ) { one< BA >( x[0], v, g, SEQ_OF( na ) ); one< BB >( x[1], v, g, SEQ_OF( nb ) ); one< BC >( x[2], v, g, SEQ_OF( nc ) ); }
};
using Hex = El< Eq< 1 >, Eq< 1 >, Eq< 1 > >;
using Mix = El< Eq< 1 >, Ll< 2 >, Eq< 3 > >;
using Mox = El< Ll< 3 >, Gl< 1 >, Eq< 2 > >;
using Quad = El< Ll< 2 >, Ll< 2 >, Ll< 2 > >;
using Cubic = El< Ll< 3 >, Eq< 3 >, Ll< 3 > >;

template< typename J_t > static inline void load( J_t & J, R const * j ) { for( int r = 0; r < 3; ++r ) { for( int c = 0; c < 3; ++c ) { J( r, c ) = j[3 * r + c]; } } }
template< typename J_t > static inline void store( J_t const & J, R * j ) { for( int r = 0; r < 3; ++r ) { for( int c = 0; c < 3; ++c ) { j[3 * r + c] = J( r, c ); } } }

#if PART == 1
// ------------------------------------------------------------------ data
template< typename E, typename M > static inline void get( M & m, R * out )
{ for( int a = 0; a < E::na; ++a ) { for( int b = 0; b < E::nb; ++b ) { for( int c = 0; c < E::nc; ++c ) { for( int i = 0; i < 3; ++i ) { *out++ = m.getData()( a, b, c, i ); } } } } }
template< typename E > static inline void setget( R const * p, R * out )
{
  R flat[E::n][3];
  for( int k = 0; k < E::n; ++k ) { for( int i = 0; i < 3; ++i ) { flat[k][i] = p[3 * k + i]; } }
  typename E::Map m;
  m.setData( flat );
  typename E::Map const & cm = m;
  get< E >( cm, out );
}
template< typename E > static inline void setgetArray( R const * p, R * out )
{
  CArrayNd< R, E::n, 3 > flat;
  for( int k = 0; k < E::n; ++k ) { for( int i = 0; i < 3; ++i ) { flat( k, i ) = p[3 * k + i]; } }
  typename E::Map m;
  m.setData( flat );
  get< E >( m, out );
}
// set twice, write one entry through the mutable data, copy, write the copy
template< typename E > static inline void write( int a, int b, int c, int i, R v, R w, R const * p, R * out, R * cp )
{
  R flat[E::n][3];
  typename E::Map m;
  for( int k = 0; k < E::n; ++k ) { for( int q = 0; q < 3; ++q ) { flat[k][q] = -p[3 * k + q]; } }
  m.setData( flat );
  for( int k = 0; k < E::n; ++k ) { for( int q = 0; q < 3; ++q ) { flat[k][q] = p[3 * k + q]; } }
  m.setData( flat );
  typename E::Map m2( m ), m3;
  m.getData()( a, b, c, i ) = v;
  m3 = m2;
  m2.getData()( a, b, c, i ) = w;
  get< E >( m, out );
  get< E >( m3, cp );
}
#define DATA( name, E ) \
  X void setget_##name( R const * p, R * out ) { setget< E >( p, out ); } \
  X void setgeta_##name( R const * p, R * out ) { setgetArray< E >( p, out ); } \
  X void write_##name( int a, int b, int c, int i, R v, R w, R const * p, R * out, R * cp ) { write< E >( a, b, c, i, v, w, p, out, cp ); } \
  X int meta_##name( int * o ) { o[0] = E::Map::numDims; o[1] = E::Map::numVertices; o[2] = E::Map::jacobianIsConstInCell(); \
    o[3] = E::Map::SupportIndexType::range( 0 ); o[4] = E::Map::SupportIndexType::range( 1 ); o[5] = E::Map::SupportIndexType::range( 2 ); return sizeof( typename E::Map::DataType ) / sizeof( R ); }
DATA( hex, Hex ) DATA( mix, Mix ) DATA( mox, Mox ) DATA( quad, Quad )
#endif

#if PART == 2 || PART == 15 || PART == 16
// ------------------------------------------------------------------ Jacobians
#define JAC( name, E ) \
  X void jac_##name( R const * p, R const * x, R * j, R * v, R * g ) \
  { E::oned( x, v, g ); E::Map m; E::put( m, p ); R const xi[3] = { x[0], x[1], x[2] }; E::Map::JacobianType J; load( J, j ); utilities::jacobian( m, xi, J ); store( J, j ); } \
  X void jaca_##name( R const * p, R const * x, R * j, R * v, R * g ) \
  { E::oned( x, v, g ); E::Map m; E::put( m, p ); CArrayNd< R, 3 > const xi{ x[0], x[1], x[2] }; E::Map::JacobianType J; load( J, j ); utilities::jacobian( m, xi, J ); store( J, j ); } \
  X void jacv_##name( R const * p, R const * x, R * j, R * v, R * g ) \
  { E::oned( x, v, g ); E::Map m; E::put( m, p ); R const xi[3] = { x[0], x[1], x[2] }; store( utilities::jacobian( m, xi ), j ); }
#endif
#if PART == 2
JAC( hex, Hex ) JAC( mix, Mix ) JAC( mox, Mox )
#endif

#if PART == 5 || PART == 6 || PART == 15 || PART == 16
template< typename E, typename Q, int ... K > static inline void jq( R const * p, R * j, R * xi )
{
  typename E::Map m; E::put( m, p );
  typename E::Map::JacobianType J; load( J, j );
  utilities::jacobian< Q, K ... >( m, J );
  store( J, j );
  int d = 0; ( ( xi[d++] = Q::template coordinate< K >() ), ... );
}
#define JQ( name, E, Q, a, b, c ) X void jq_##name##_##Q##_##a##b##c( R const * p, R * j, R * v, R * g ) { R xi[3]; jq< E, Q, a, b, c >( p, j, xi ); E::oned( xi, v, g ); }
#endif
#if PART == 15
JAC( quad, Quad )
JQ( quad, Quad, GL3, 0, 2, 1 ) JQ( quad, Quad, LL5, 3, 0, 4 ) JQ( quad, Quad, GL2, 1, 0, 0 )
#endif
#if PART == 16
JAC( cubic, Cubic )
JQ( cubic, Cubic, GL3, 2, 2, 0 )
#endif
#if PART == 5
JQ( hex, Hex, GL2, 0, 1, 1 ) JQ( hex, Hex, GL3, 0, 1, 2 ) JQ( hex, Hex, LL3, 2, 0, 1 ) JQ( hex, Hex, LL5, 1, 3, 4 )
#endif
#if PART == 6
JQ( mix, Mix, GL3, 2, 0, 1 ) JQ( mix, Mix, LL3, 0, 1, 2 ) JQ( mox, Mox, GL3, 1, 2, 0 ) JQ( mox, Mox, LL5, 4, 1, 2 )
#endif

#if PART >= 7 && PART <= 9
// all quadrature points, one after the other into the same Jacobian object; next to the run-time overload
template< typename E, typename Q, int ... K > static inline void jqAll( R const * p, R * j, R * jr, std::integer_sequence< int, K ... > )
{
  typename E::Map m; E::put( m, p );
  typename E::Map::JacobianType J, Jr;
  constexpr int n = Q::numPoints;
  auto one = [&] ( auto k )
  {
    constexpr int t = decltype( k )::value;
    utilities::jacobian< Q, t / ( n * n ), ( t / n ) % n, t % n >( m, J );
    store( J, j + 9 * t );
    R const xi[3] = { Q::template coordinate< t / ( n * n ) >(), Q::template coordinate< ( t / n ) % n >(), Q::template coordinate< t % n >() };
    utilities::jacobian( m, xi, Jr );
    store( Jr, jr + 9 * t );
  };
  ( one( std::integral_constant< int, K >{} ), ... );
}
#endif
#if PART == 7
X void jqall_hex_GL2( R const * p, R * j, R * jr ) { jqAll< Hex, GL2 >( p, j, jr, SEQ_OF( 8 ) ); }
#endif
#if PART == 8
X void jqall_hex_GL3( R const * p, R * j, R * jr ) { jqAll< Hex, GL3 >( p, j, jr, SEQ_OF( 27 ) ); }
#endif
#if PART == 9
X void jqall_mix_LL3( R const * p, R * j, R * jr ) { jqAll< Mix, LL3 >( p, j, jr, SEQ_OF( 27 ) ); }
#endif

#if PART == 3
// ------------------------------------------------------------------ inverse Jacobians
#define INV( name, E ) \
  X R inv_##name( R const * p, R const * x, R * j, R * j0 ) \
  { E::Map m; E::put( m, p ); R const xi[3] = { x[0], x[1], x[2] }; E::Map::JacobianType J, J0; load( J, j ); load( J0, j0 ); R d = -9; utilities::inverseJacobian( m, xi, J, d ); store( J, j ); \
    utilities::jacobian( m, xi, J0 ); store( J0, j0 ); return d; } \
  X R invv_##name( R const * p, R const * x, R * j, R * j0 ) \
  { E::Map m; E::put( m, p ); R const xi[3] = { x[0], x[1], x[2] }; auto const r = utilities::inverseJacobian( m, xi ); store( std::get< 1 >( r ), j ); store( utilities::jacobian( m, xi ), j0 ); return std::get< 0 >( r ); }
INV( hex, Hex ) INV( mix, Mix )
#endif

#if PART == 12 || PART == 13 || PART == 14
// next to the 1-d basis values and gradients at the same point
#define INVG( name, E ) \
  X R invg_##name( R const * p, R const * x, R * j, R * j0, R * v, R * g ) \
  { E::oned( x, v, g ); E::Map m; E::put( m, p ); R const xi[3] = { x[0], x[1], x[2] }; E::Map::JacobianType J, J0; load( J, j ); load( J0, j0 ); R d = -9; utilities::inverseJacobian( m, xi, J, d ); store( J, j ); \
    utilities::jacobian( m, xi, J0 ); store( J0, j0 ); return d; } \
  X R invgv_##name( R const * p, R const * x, R * j, R * j0, R * v, R * g ) \
  { E::oned( x, v, g ); E::Map m; E::put( m, p ); R const xi[3] = { x[0], x[1], x[2] }; auto const r = utilities::inverseJacobian( m, xi ); store( std::get< 1 >( r ), j ); store( utilities::jacobian( m, xi ), j0 ); return std::get< 0 >( r ); }
#endif
#if PART == 12
INVG( mix, Mix )
#endif
#if PART == 13
INVG( mox, Mox )
#endif
#if PART == 14
INVG( quad, Quad )
#endif

#if PART == 4 || PART == 10 || PART == 11 || ( PART >= 17 && PART <= 22 )
// ------------------------------------------------------------------ element integrals
template< typename E, typename Q, typename F > static inline void qloop( F && f )
{
  constexpr int n = Q::numPoints;
  forNestedSequence< n, n, n >( [&] ( auto const a, auto const b, auto const c ) { f( a, b, c ); } );
}
static inline R det3( CArrayNd< R, 3, 3 > const & J )
{
  return J( 0, 0 ) * ( J( 1, 1 ) * J( 2, 2 ) - J( 1, 2 ) * J( 2, 1 ) ) - J( 0, 1 ) * ( J( 1, 0 ) * J( 2, 2 ) - J( 1, 2 ) * J( 2, 0 ) ) + J( 0, 2 ) * ( J( 1, 0 ) * J( 2, 1 ) - J( 1, 1 ) * J( 2, 0 ) );
}
template< typename E, typename Q > static inline R volume( R const * p )
{
  typename E::Map m; E::put( m, p );
  R s = 0;
  qloop< E, Q >( [&] ( auto const a, auto const b, auto const c )
  {
    typename E::Map::JacobianType J;
    utilities::jacobian< Q, decltype( a )::value, decltype( b )::value, decltype( c )::value >( m, J );
    s += Q::template weight< decltype( a )::value >() * Q::template weight< decltype( b )::value >() * Q::template weight< decltype( c )::value >() * det3( J );
  } );
  return s;
}
// with the determinant returned by the inverse-Jacobian interface
template< typename E, typename Q > static inline void totals( R const * p, R * vol, R * mass, R * dv, R * grad, R * ident )
{
  typename E::Map m; E::put( m, p );
  *vol = 0; *mass = 0;
  int pt = 0;
  qloop< E, Q >( [&] ( auto const a, auto const b, auto const c )
  {
    R const xi[3] = { Q::template coordinate< decltype( a )::value >(), Q::template coordinate< decltype( b )::value >(), Q::template coordinate< decltype( c )::value >() };
    auto const r = utilities::inverseJacobian( m, xi );
    R const w = Q::template weight< decltype( a )::value >() * Q::template weight< decltype( b )::value >() * Q::template weight< decltype( c )::value >() * std::get< 0 >( r );
    *vol += w;
    R sum = 0, gs[3] = { 0, 0, 0 }, gx[9] = { 0, 0, 0, 0, 0, 0, 0, 0, 0 };
    E::Shape::supportLoop( [&] ( auto const ... i )
    {
      sum += E::Shape::template value< decltype( i )::value ... >( xi );
      auto const g = E::Shape::template gradient< decltype( i )::value ... >( xi );
      for( int k = 0; k < 3; ++k )
      {
        gs[k] += g( k );
        for( int q = 0; q < 3; ++q ) { gx[3 * q + k] += m.getData()( decltype( i )::value ..., q ) * g( k ); }
      }
    } );
    *mass += w * sum;
    dv[pt] = w;
    for( int q = 0; q < 3; ++q ) { grad[3 * pt + q] = 0; for( int t = 0; t < 3; ++t ) { ident[9 * pt + 3 * t + q] = 0; } }
    for( int q = 0; q < 3; ++q )
    {
      for( int k = 0; k < 3; ++k )
      {
        grad[3 * pt + q] += w * gs[k] * std::get< 1 >( r )( k, q );                       // physical gradient of the constant one
        for( int t = 0; t < 3; ++t ) { ident[9 * pt + 3 * t + q] += w * gx[3 * t + k] * std::get< 1 >( r )( k, q ); }   // physical gradient of position
      }
    }
    ++pt;
  } );
}
#if PART == 4
X R vol_GL2( R const * p ) { return volume< Hex, GL2 >( p ); }
#endif
#if PART == 10
X R vol_GL3( R const * p ) { return volume< Hex, GL3 >( p ); }
#endif
#if PART == 11
X R vol_LL3( R const * p ) { return volume< Hex, LL3 >( p ); }
#endif
#if PART == 17
X R vol_GL4( R const * p ) { return volume< Hex, GL4 >( p ); }
#endif
#if PART == 18
X R vol_LL5( R const * p ) { return volume< Hex, LL5 >( p ); }
#endif
#if PART == 19
X R vol_quad_GL3( R const * p ) { return volume< Quad, GL3 >( p ); }
#endif
#if PART == 21
X R vol_quad_GL4( R const * p ) { return volume< Quad, GL4 >( p ); }
#endif
#if PART == 22
X R vol_LL4( R const * p ) { return volume< Hex, LL4 >( p ); }
#endif
#if PART == 20
X void totals_quad_GL3( R const * p, R * vol, R * mass, R * dv, R * grad, R * ident ) { totals< Quad, GL3 >( p, vol, mass, dv, grad, ident ); }
X void totals_LL3( R const * p, R * vol, R * mass, R * dv, R * grad, R * ident ) { totals< Hex, LL3 >( p, vol, mass, dv, grad, ident ); }
#endif
#if PART == 4
X void totals_GL2( R const * p, R * vol, R * mass, R * dv, R * grad, R * ident ) { totals< Hex, GL2 >( p, vol, mass, dv, grad, ident ); }
#endif
#endif

#if PART == 17
// ------------------------------------------------------------------ Jacobians in one, two and four dimensions
template< typename ... B > struct Any
{
  static constexpr int D = sizeof...( B ), n = ( B::numSupportPoints * ... * 1 );
  using Map = LinearTransform< R, InterpolatedShape< R, NCube< R, D, -1, 1, 1 >, B ... > >;
  template< typename BX, int ... A >
  static inline void one( R x, R *& v, R *& g, std::integer_sequence< int, A ... > ) { ( ( *v++ = BX::template value< A >( x ) ), ... ); ( ( *g++ = BX::template gradient< A >( x ) ), ... ); }
  static inline void oned( R const * x, R * v, R * g ) { int d = 0; ( one< B >( x[d++], v, g, SEQ_OF( B::numSupportPoints ) ), ... ); }
  static inline void in( R const * p, R const * j, Map & m, typename Map::JacobianType & J )
  {
    for( int k = 0; k < n * D; ++k ) { m.getData().data()[k] = p[k]; }
    for( int k = 0; k < D * D; ++k ) { J.data()[k] = j[k]; }
  }
  static inline void jac( R const * p, R const * x, R * j, R * v, R * g )
  {
    Map m; typename Map::JacobianType J;
    in( p, j, m, J );
    R xi[D];
    for( int d = 0; d < D; ++d ) { xi[d] = x[d]; }
    oned( x, v, g );
    utilities::jacobian( m, xi, J );
    for( int r = 0; r < D; ++r ) { for( int c = 0; c < D; ++c ) { j[D * r + c] = J( r, c ); } }
  }
  template< typename Q, int ... K >
  static inline void jq( R const * p, R * j, R * v, R * g )
  {
    Map m; typename Map::JacobianType J;
    in( p, j, m, J );
    R const xi[D] = { Q::template coordinate< K >() ... };
    oned( xi, v, g );
    utilities::jacobian< Q, K ... >( m, J );
    for( int r = 0; r < D; ++r ) { for( int c = 0; c < D; ++c ) { j[D * r + c] = J( r, c ); } }
  }
};
#define ANY( name, ... ) X void anyj_##name( R const * p, R const * x, R * j, R * v, R * g ) { Any< __VA_ARGS__ >::jac( p, x, j, v, g ); }
#define ANYQ1( name, Q, a, ... ) X void anyq_##name##_##a( R const * p, R * j, R * v, R * g ) { Any< __VA_ARGS__ >::template jq< Q, a >( p, j, v, g ); }
#define ANYQ2( name, Q, a, b, ... ) X void anyq_##name##_##a##b( R const * p, R * j, R * v, R * g ) { Any< __VA_ARGS__ >::template jq< Q, a, b >( p, j, v, g ); }
ANY( 3, Eq< 2 > ) ANY( 4, Ll< 3 > ) ANY( 22, Eq< 1 >, Eq< 1 > ) ANY( 23, Eq< 1 >, Ll< 2 > ) ANY( 42, Ll< 3 >, Gl< 1 > ) ANY( 2222, Eq< 1 >, Eq< 1 >, Eq< 1 >, Eq< 1 > ) ANY( 2223, Eq< 1 >, Eq< 1 >, Eq< 1 >, Ll< 2 > )
ANYQ1( 3, GL3, 0, Eq< 2 > ) ANYQ2( 22, GL2, 0, 1, Eq< 1 >, Eq< 1 > ) ANYQ2( 23, GL3, 2, 0, Eq< 1 >, Ll< 2 > ) ANYQ2( 42, LL5, 3, 1, Ll< 3 >, Gl< 1 > )
#endif
