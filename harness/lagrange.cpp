// One-dimensional Lagrange bases: all values, all gradients and the support points, for one REAL type.
#include "common.hpp"
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include <utility>
using namespace shiva;
using namespace shiva::functions;

template< typename R, typename BASIS, int... A >
static inline void allOf( R x, R * v, R * g, R * nodes, std::integer_sequence< int, A... > )
{
  ( ( v[A] = BASIS::template value< A >( x ) ), ... );
  ( ( g[A] = BASIS::template gradient< A >( x ) ), ... );
  ( ( nodes[A] = BASIS::template coordinate< A >() ), ... );
}
template< typename R, typename BASIS, int A >
static inline R atNode( int b )
{
  R r = R( -77 );
  // dispatch the run-time index b to the compile-time node
  auto one = [&]( auto bb ) { if( b == decltype(bb)::value ) r = BASIS::template value< A >( BASIS::template coordinate< decltype(bb)::value >() ); };
  [&]< int... Bs >( std::integer_sequence< int, Bs... > ) { ( one( std::integral_constant< int, Bs >{} ), ... ); }( std::make_integer_sequence< int, BASIS::numSupportPoints >{} );
  return r;
}
template< typename R, typename BASIS >
static inline R kron( int a, int b )
{
  R r = R( -77 );
  auto one = [&]( auto aa ) { if( a == decltype(aa)::value ) r = atNode< R, BASIS, decltype(aa)::value >( b ); };
  [&]< int... As >( std::integer_sequence< int, As... > ) { ( one( std::integral_constant< int, As >{} ), ... ); }( std::make_integer_sequence< int, BASIS::numSupportPoints >{} );
  return r;
}

#define LAG( S, SP, N ) \
  X void lag_##S##_##N( REAL x, REAL * v, REAL * g, REAL * nodes ) \
  { allOf< REAL, LagrangeBasis< REAL, N - 1, SP > >( x, v, g, nodes, std::make_integer_sequence< int, N >{} ); } \
  X REAL kron_##S##_##N( int a, int b ) { return kron< REAL, LagrangeBasis< REAL, N - 1, SP > >( a, b ); } \
  X int meta_##S##_##N( int * o ) { using B = LagrangeBasis< REAL, N - 1, SP >; o[0] = B::order; o[1] = B::numSupportPoints; o[2] = B::numPoints; return 0; }

LAG( equal, EqualSpacing, 2 )
LAG( equal, EqualSpacing, 3 )
LAG( equal, EqualSpacing, 4 )
LAG( equal, EqualSpacing, 5 )
LAG( equal, EqualSpacing, 6 )
LAG( gl, GaussLegendreSpacing, 2 )
LAG( gl, GaussLegendreSpacing, 3 )
LAG( gl, GaussLegendreSpacing, 4 )
LAG( gll, GaussLobattoSpacing, 2 )
LAG( gll, GaussLobattoSpacing, 3 )
LAG( gll, GaussLobattoSpacing, 4 )
LAG( gll, GaussLobattoSpacing, 5 )
LAG( gll, GaussLobattoSpacing, 6 )
LAG( gll, GaussLobattoSpacing, 7 )
LAG( gll, GaussLobattoSpacing, 8 )
LAG( gll, GaussLobattoSpacing, 9 )
