// Support points and quadrature rules: run-time and compile-time interfaces.
#include "common.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include "shiva/functions/quadrature/Quadrature.hpp"
#include <utility>
using namespace shiva;

template< typename S, int ... I >
static inline void ctCoords( REAL * o, std::integer_sequence< int, I ... > ) { ( ( o[I] = S::template coordinate< I >() ), ... ); }
template< typename S, int ... I >
static inline void ctWeights( REAL * o, std::integer_sequence< int, I ... > ) { ( ( o[I] = S::template weight< I >() ), ... ); }
template< typename S, int ... I >
static inline void constexprCoords( REAL * o, std::integer_sequence< int, I ... > )
{
  constexpr REAL a[] = { S::template coordinate< I >() ... };      // evaluated by the compiler
  constexpr REAL b[] = { S::coordinate( I ) ... };
  for( int i = 0; i < int( sizeof...( I ) ); ++i ) { o[i] = a[i]; o[sizeof...( I ) + i] = b[i]; }
}
template< typename S, bool RT, int ... I >
static inline void constexprWeights( REAL * o, std::integer_sequence< int, I ... > )
{
  constexpr REAL a[] = { S::template weight< I >() ... };
  for( int i = 0; i < int( sizeof...( I ) ); ++i ) { o[i] = a[i]; }
  if constexpr ( RT ) { constexpr REAL b[] = { S::weight( I ) ... }; for( int i = 0; i < int( sizeof...( I ) ); ++i ) { o[sizeof...( I ) + i] = b[i]; } }
}
// constant-evaluated table (all indices) next to the run-time evaluation of one index
template< typename S, int ... I >
static inline REAL coordBoth( int i, REAL * o, std::integer_sequence< int, I ... > ) { constexpr REAL a[] = { S::coordinate( I ) ... }; for( int k = 0; k < int( sizeof...( I ) ); ++k ) { o[k] = a[k]; } return S::coordinate( i ); }
template< typename S, int ... I >
static inline REAL weightBoth( int i, REAL * o, std::integer_sequence< int, I ... > ) { constexpr REAL a[] = { S::weight( I ) ... }; for( int k = 0; k < int( sizeof...( I ) ); ++k ) { o[k] = a[k]; } return S::weight( i ); }
#define SEQ_OF( N ) std::make_integer_sequence< int, N >{}
#define SPACING( name, SP, N ) \
  X REAL rt_##name##_##N( int i ) { return SP< REAL, N >::coordinate( i ); } \
  X void ct_##name##_##N( REAL * o ) { ctCoords< SP< REAL, N > >( o, SEQ_OF( N ) ); } \
  X void ce_##name##_##N( REAL * o ) { constexprCoords< SP< REAL, N > >( o, SEQ_OF( N ) ); } \
  X REAL cr_##name##_##N( int i, REAL * o ) { return coordBoth< SP< REAL, N > >( i, o, SEQ_OF( N ) ); } \
  X int np_##name##_##N() { return SP< REAL, N >::numPoints; }
#define WEIGHTS( name, Q, N ) \
  X void ctw_##name##_##N( REAL * o ) { ctWeights< Q< REAL, N > >( o, SEQ_OF( N ) ); ctCoords< Q< REAL, N > >( o + N, SEQ_OF( N ) ); } \
  X int npq_##name##_##N() { return Q< REAL, N >::numPoints; } \
  X void cew_##name##_##N( REAL * o ) { constexprWeights< Q< REAL, N >, ( N <= 5 ) >( o, SEQ_OF( N ) ); }
#define RTW( name, Q, N ) \
  X REAL cwr_##name##_##N( int i, REAL * o ) { return weightBoth< Q< REAL, N > >( i, o, SEQ_OF( N ) ); } \
  X REAL rtw_##name##_##N( int i ) { return Q< REAL, N >::weight( i ); } \
  X void rtr_##name##_##N( REAL * o ) { using R = Q< REAL, N >; for( int i = 0; i < R::numPoints; ++i ) { o[i] = R::weight( i ); o[N + i] = R::coordinate( i ); } }
#define EQ( N ) SPACING( equal, EqualSpacing, N ) X REAL interval_##N() { return EqualSpacing< REAL, N >::interval(); }
EQ( 2 ) EQ( 3 ) EQ( 4 ) EQ( 5 ) EQ( 6 ) EQ( 7 ) EQ( 8 ) EQ( 9 )
SPACING( gl, GaussLegendreSpacing, 2 ) SPACING( gl, GaussLegendreSpacing, 3 ) SPACING( gl, GaussLegendreSpacing, 4 )
SPACING( gll, GaussLobattoSpacing, 2 ) SPACING( gll, GaussLobattoSpacing, 3 ) SPACING( gll, GaussLobattoSpacing, 4 ) SPACING( gll, GaussLobattoSpacing, 5 )
SPACING( gll, GaussLobattoSpacing, 6 ) SPACING( gll, GaussLobattoSpacing, 7 ) SPACING( gll, GaussLobattoSpacing, 8 ) SPACING( gll, GaussLobattoSpacing, 9 )
WEIGHTS( gl, QuadratureGaussLegendre, 2 ) WEIGHTS( gl, QuadratureGaussLegendre, 3 ) WEIGHTS( gl, QuadratureGaussLegendre, 4 )
RTW( gl, QuadratureGaussLegendre, 2 ) RTW( gl, QuadratureGaussLegendre, 3 ) RTW( gl, QuadratureGaussLegendre, 4 )
WEIGHTS( gll, QuadratureGaussLobatto, 2 ) WEIGHTS( gll, QuadratureGaussLobatto, 3 ) WEIGHTS( gll, QuadratureGaussLobatto, 4 ) WEIGHTS( gll, QuadratureGaussLobatto, 5 )
WEIGHTS( gll, QuadratureGaussLobatto, 6 ) WEIGHTS( gll, QuadratureGaussLobatto, 7 ) WEIGHTS( gll, QuadratureGaussLobatto, 8 ) WEIGHTS( gll, QuadratureGaussLobatto, 9 )
RTW( gll, QuadratureGaussLobatto, 2 ) RTW( gll, QuadratureGaussLobatto, 3 ) RTW( gll, QuadratureGaussLobatto, 4 ) RTW( gll, QuadratureGaussLobatto, 5 )
