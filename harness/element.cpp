// Element matrices and bilinear forms assembled from shape functions, quadrature and a cell-to-space mapping.
#include "common.hpp"
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include "shiva/functions/quadrature/Quadrature.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/geometry/shapes/InterpolatedShape.hpp"
#include "shiva/geometry/mapping/JacobianTransforms.hpp"
#include "shiva/geometry/mapping/LinearTransform.hpp"
#include "shiva/geometry/mapping/Scaling.hpp"
#include "shiva/geometry/mapping/UniformScaling.hpp"
#include "shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp"
#include <utility>
using namespace shiva;
using namespace shiva::functions;
using namespace shiva::geometry;
using shiva::discretizations::finiteElementMethod::ParentElement;
using R = REAL;
#define SEQ_OF( N ) std::make_integer_sequence< int, N >{}
template< int O > using Eq = LagrangeBasis< R, O, EqualSpacing >;
template< int O > using Gl = LagrangeBasis< R, O, GaussLegendreSpacing >;
template< int O > using Ll = LagrangeBasis< R, O, GaussLobattoSpacing >;
template< int N > using QG = QuadratureGaussLegendre< R, N >;
template< int N > using QL = QuadratureGaussLobatto< R, N >;

template< typename ... B > struct El
{
  static constexpr int D = sizeof...( B );
  static constexpr int T = ( B::numSupportPoints * ... * 1 );
  using Parent = ParentElement< R, NCube< R, D, -1, 1, 1 >, B ... >;
  using Field = CArrayNd< R, B::numSupportPoints ... >;

  // values and parent gradients of every shape function, numbered row-major
  template< typename C >
  static inline void shape( C const & xi, R * v, R ( *g )[D] )
  {
    int k = 0;
    forNestedSequence< B::numSupportPoints ... >( [&] ( auto const ... i )
    {
      v[k] = Parent::template value< decltype( i )::value ... >( xi );
      auto const gr = Parent::template gradient< decltype( i )::value ... >( xi );
      for( int d = 0; d < D; ++d ) { g[k][d] = gr( d ); }
      ++k;
    } );
  }
};

#if PART <= 4
// mapping -> inverse Jacobian as a full matrix, determinant
static inline R inverseOf( Scaling< R > const & m, R const *, R ( &a )[3][3] )
{ auto const r = utilities::inverseJacobian( m ); for( int i = 0; i < 3; ++i ) { for( int j = 0; j < 3; ++j ) { a[i][j] = i == j ? std::get< 1 >( r )( i ) : R( 0 ); } } return std::get< 0 >( r ); }
static inline R inverseOf( UniformScaling< R > const & m, R const *, R ( &a )[3][3] )
{ auto const r = utilities::inverseJacobian( m ); for( int i = 0; i < 3; ++i ) { for( int j = 0; j < 3; ++j ) { a[i][j] = i == j ? std::get< 1 >( r )( 0 ) : R( 0 ); } } return std::get< 0 >( r ); }
template< typename S >
static inline R inverseOf( LinearTransform< R, S > const & m, R const * x, R ( &a )[3][3] )
{ R const xi[3] = { x[0], x[1], x[2] }; auto const r = utilities::inverseJacobian( m, xi ); for( int i = 0; i < 3; ++i ) { for( int j = 0; j < 3; ++j ) { a[i][j] = std::get< 1 >( r )( i, j ); } } return std::get< 0 >( r ); }

// mass and stiffness matrix; QUAD gives the same rule in each direction, used with run-time point numbers when rt
template< typename E, typename Q, bool rt, typename MAP >
static inline void assemble( MAP const & map, R * M, R * K )
{
  constexpr int T = E::T;
  for( int i = 0; i < T * T; ++i ) { M[i] = 0; if( K ) { K[i] = 0; } }
  auto add = [&] ( R const ( &xi )[3], R const w )
  {
    R v[T], g[T][3], p[T][3], a[3][3];
    E::shape( xi, v, g );
    R const det = inverseOf( map, xi, a );
    for( int i = 0; i < T; ++i ) { for( int k = 0; k < 3; ++k ) { p[i][k] = g[i][0] * a[0][k] + g[i][1] * a[1][k] + g[i][2] * a[2][k]; } }
    for( int i = 0; i < T; ++i )
    {
      for( int j = 0; j < T; ++j )
      {
        M[T * i + j] += w * det * ( v[i] * v[j] );
        if( K ) { K[T * i + j] += w * det * ( p[i][0] * p[j][0] + p[i][1] * p[j][1] + p[i][2] * p[j][2] ); }
      }
    }
  };
  constexpr int n = Q::numPoints;
  if constexpr ( rt )
  {
    for( int a = 0; a < n; ++a ) { for( int b = 0; b < n; ++b ) { for( int c = 0; c < n; ++c ) { R const xi[3] = { Q::coordinate( a ), Q::coordinate( b ), Q::coordinate( c ) }; add( xi, Q::weight( a ) * Q::weight( b ) * Q::weight( c ) ); } } }
  }
  else
  {
    forNestedSequence< n, n, n >( [&] ( auto const a, auto const b, auto const c )
    {
      R const xi[3] = { Q::template coordinate< decltype( a )::value >(), Q::template coordinate< decltype( b )::value >(), Q::template coordinate< decltype( c )::value >() };
      add( xi, Q::template weight< decltype( a )::value >() * Q::template weight< decltype( b )::value >() * Q::template weight< decltype( c )::value >() );
    } );
  }
}
// one row of both matrices
template< typename E, typename Q >
static inline void rowOf( R const * h, int row, R * M, R * K )
{
  Scaling< R > s;
  R const hh[3] = { h[0], h[1], h[2] };
  s.setData( hh );
  constexpr int T = E::T, n = Q::numPoints;
  for( int i = 0; i < T; ++i ) { M[i] = 0; K[i] = 0; }
  for( int a = 0; a < n; ++a ) { for( int b = 0; b < n; ++b ) { for( int c = 0; c < n; ++c )
  {
    R const xi[3] = { Q::coordinate( a ), Q::coordinate( b ), Q::coordinate( c ) };
    R const w = Q::weight( a ) * Q::weight( b ) * Q::weight( c );
    R v[T], g[T][3], x[3][3];
    E::shape( xi, v, g );
    R const det = inverseOf( s, xi, x );
    for( int j = 0; j < T; ++j )
    {
      M[j] += w * det * ( v[row] * v[j] );
      for( int k = 0; k < 3; ++k ) { K[j] += w * det * ( g[row][k] * x[k][k] * ( g[j][k] * x[k][k] ) ); }
    }
  } } }
}
#define ROWS( name, Q, ... ) X void row_##name( R const * h, int row, R * M, R * K ) { rowOf< El< __VA_ARGS__ >, Q >( h, row, M, K ); }
#define UNIFORM( name, rt, Q, ... ) \
  X void us_##name( R h, R * M, R * K ) { UniformScaling< R > s; s.setData( h ); assemble< El< __VA_ARGS__ >, Q, rt >( s, M, K ); }
#define SCALED( name, rt, Q, ... ) \
  X void sc_##name( R const * h, R * M, R * K ) { Scaling< R > s; R const hh[3] = { h[0], h[1], h[2] }; s.setData( hh ); assemble< El< __VA_ARGS__ >, Q, rt >( s, M, K ); } \
  X void us_##name( R h, R * M, R * K ) { UniformScaling< R > s; s.setData( h ); assemble< El< __VA_ARGS__ >, Q, rt >( s, M, K ); }
#define MASS( name, rt, Q, ... ) \
  X void scm_##name( R const * h, R * M ) { Scaling< R > s; R const hh[3] = { h[0], h[1], h[2] }; s.setData( hh ); assemble< El< __VA_ARGS__ >, Q, rt >( s, M, nullptr ); }
#endif
#if PART == 1
SCALED( p1g2, false, QG< 2 >, Eq< 1 >, Eq< 1 >, Eq< 1 > )
SCALED( p1g3, true, QG< 3 >, Eq< 1 >, Eq< 1 >, Eq< 1 > )
SCALED( p1l3, false, QL< 3 >, Eq< 1 >, Eq< 1 >, Eq< 1 > )
SCALED( g1g2, true, QG< 2 >, Gl< 1 >, Gl< 1 >, Gl< 1 > )
SCALED( l1l2, true, QL< 2 >, Ll< 1 >, Ll< 1 >, Ll< 1 > )
// nodes of a parallelepiped: corner and edge vectors
template< typename Q > static inline void sheared( R const * e, R * M, R * K )
{
  using E = El< Eq< 1 >, Eq< 1 >, Eq< 1 > >;
  LinearTransform< R, InterpolatedShape< R, NCube< R, 3, -1, 1, 1 >, Eq< 1 >, Eq< 1 >, Eq< 1 > > > m;
  for( int a = 0; a < 2; ++a ) { for( int b = 0; b < 2; ++b ) { for( int c = 0; c < 2; ++c ) { for( int i = 0; i < 3; ++i ) { m.getData()( a, b, c, i ) = a * e[i] + b * e[3 + i] + c * e[6 + i]; } } } }
  assemble< E, Q, false >( m, M, K );
}
X void par_g2( R const * e, R * M, R * K ) { sheared< QG< 2 > >( e, M, K ); }
#endif
#if PART == 2
UNIFORM( p2g3, false, QG< 3 >, Ll< 2 >, Ll< 2 >, Ll< 2 > )
ROWS( p2g3, QG< 3 >, Ll< 2 >, Ll< 2 >, Ll< 2 > )
MASS( l2l3, true, QL< 3 >, Ll< 2 >, Ll< 2 >, Ll< 2 > )
#endif
#if PART == 3
UNIFORM( mixg4, true, QG< 4 >, Eq< 1 >, Ll< 2 >, Eq< 3 > )
ROWS( mixg4, QG< 4 >, Eq< 1 >, Ll< 2 >, Eq< 3 > )
SCALED( moxg3, false, QG< 3 >, Ll< 2 >, Gl< 1 >, Eq< 1 > )
#endif
#if PART == 4
// mass matrix of a general hexahedron (vertices first direction slowest)
template< typename Q, bool rt > static inline void general( R const * p, int row, R * M )
{
  using E = El< Eq< 1 >, Eq< 1 >, Eq< 1 > >;
  LinearTransform< R, InterpolatedShape< R, NCube< R, 3, -1, 1, 1 >, Eq< 1 >, Eq< 1 >, Eq< 1 > > > m;
  for( int k = 0; k < 24; ++k ) { m.getData().data()[k] = p[k]; }
  constexpr int n = Q::numPoints;
  int const lo = row < 0 ? 0 : row, hi = row < 0 ? 8 : row + 1;
  for( int i = 0; i < 8 * ( hi - lo ); ++i ) { M[i] = 0; }
  auto add = [&] ( R const ( &xi )[3], auto const & j, R const w )
  {
    R v[8], g[8][3];
    E::shape( xi, v, g );
    R const det = j( 0, 0 ) * ( j( 1, 1 ) * j( 2, 2 ) - j( 1, 2 ) * j( 2, 1 ) ) - j( 0, 1 ) * ( j( 1, 0 ) * j( 2, 2 ) - j( 1, 2 ) * j( 2, 0 ) ) + j( 0, 2 ) * ( j( 1, 0 ) * j( 2, 1 ) - j( 1, 1 ) * j( 2, 0 ) );
    for( int i = lo; i < hi; ++i ) { for( int k = 0; k < 8; ++k ) { M[8 * ( i - lo ) + k] += w * det * ( v[i] * v[k] ); } }
  };
  using J = typename decltype( m )::JacobianType;
  if constexpr ( rt )
  {
    for( int a = 0; a < n; ++a ) { for( int b = 0; b < n; ++b ) { for( int c = 0; c < n; ++c )
    {
      R const xi[3] = { Q::coordinate( a ), Q::coordinate( b ), Q::coordinate( c ) };
      J j;
      utilities::jacobian( m, xi, j );
      add( xi, j, Q::weight( a ) * Q::weight( b ) * Q::weight( c ) );
    } } }
  }
  else
  {
    forNestedSequence< n, n, n >( [&] ( auto const a, auto const b, auto const c )
    {
      R const xi[3] = { Q::template coordinate< decltype( a )::value >(), Q::template coordinate< decltype( b )::value >(), Q::template coordinate< decltype( c )::value >() };
      J j;
      utilities::jacobian< Q, decltype( a )::value, decltype( b )::value, decltype( c )::value >( m, j );
      add( xi, j, Q::template weight< decltype( a )::value >() * Q::template weight< decltype( b )::value >() * Q::template weight< decltype( c )::value >() );
    } );
  }
}
X void hexm_g3( R const * p, int row, R * M ) { general< QG< 3 >, false >( p, row, M ); }
X void hexm_l4( R const * p, int row, R * M ) { general< QL< 4 >, true >( p, row, M ); }
#endif

#if PART == 5
// bilinear forms of two nodal fields through the interpolation interface
template< typename Q, int D, typename F, int ... DD >
static inline void points( F && f, std::integer_sequence< int, DD ... > )
{
  forNestedSequence< ( DD * 0 + Q::numPoints ) ... >( [&] ( auto const ... a )
  {
    R const xi[D] = { Q::template coordinate< decltype( a )::value >() ... };
    f( xi, ( Q::template weight< decltype( a )::value >() * ... * R( 1 ) ) );
  } );
}
template< typename Q, typename ... B >
static inline void forms( R const * u, R const * w, R * o )
{
  using E = El< B ... >;
  constexpr int D = E::D;
  typename E::Field fu, fw;
  for( int t = 0; t < E::T; ++t ) { fu.data()[t] = u[t]; fw.data()[t] = w[t]; }
  o[0] = o[1] = o[2] = 0;
  points< Q, D >( [&] ( R const ( &xi )[D], R const q )
  {
    R const a = E::Parent::value( xi, fu ), b = E::Parent::value( xi, fw );
    auto const ga = E::Parent::gradient( xi, fu );
    auto const gb = E::Parent::gradient( xi, fw );
    o[0] += q * a;
    o[1] += q * ( a * b );
    for( int d = 0; d < D; ++d ) { o[2] += q * ( ga( d ) * gb( d ) ); }
  }, SEQ_OF( D ) );
}
#define FORMS( name, Q, ... ) X void form_##name( R const * u, R const * w, R * o ) { forms< Q, __VA_ARGS__ >( u, w, o ); }
FORMS( e1, QG< 2 >, Eq< 1 > )
FORMS( l2, QG< 3 >, Ll< 2 > )
FORMS( e3, QG< 4 >, Eq< 3 > )
FORMS( l3, QL< 5 >, Ll< 3 > )
FORMS( g2, QG< 3 >, Gl< 2 > )
FORMS( e1e1, QG< 2 >, Eq< 1 >, Eq< 1 > )
FORMS( l2e1, QG< 3 >, Ll< 2 >, Eq< 1 > )
FORMS( e1g2, QL< 4 >, Eq< 1 >, Gl< 2 > )
FORMS( e1e1e1, QG< 2 >, Eq< 1 >, Eq< 1 >, Eq< 1 > )
FORMS( e1l2e1, QG< 3 >, Eq< 1 >, Ll< 2 >, Eq< 1 > )
FORMS( e1e1e1e1, QG< 2 >, Eq< 1 >, Eq< 1 >, Eq< 1 >, Eq< 1 > )
#endif
