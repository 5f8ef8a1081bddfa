// Product bases, interpolated shapes, parent elements: values, gradients, counts, interpolation.
#include "common.hpp"
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/bases/BasisProduct.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/geometry/shapes/InterpolatedShape.hpp"
#include "shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp"
#include <utility>
using namespace shiva;
using namespace shiva::functions;
using namespace shiva::geometry;
using shiva::discretizations::finiteElementMethod::ParentElement;
using R = REAL;
#define SEQ_OF( N ) std::make_integer_sequence< int, N >{}

template< int O > using Eq = LagrangeBasis< R, O, EqualSpacing >;
template< int O > using Gl = LagrangeBasis< R, O, GaussLegendreSpacing >;
template< int O > using Ll = LagrangeBasis< R, O, GaussLobattoSpacing >;

template< typename ... B > struct Set
{
  static constexpr int D = sizeof...( B );
  static constexpr int n[D] = { B::numSupportPoints ... };
  static constexpr int total = ( B::numSupportPoints * ... * 1 );
  static constexpr int idx( int t, int d ) { int s = 1; for( int e = D - 1; e > d; --e ) { s *= n[e]; } return ( t / s ) % n[d]; }
  using Product = BasisProduct< R, B ... >;
  using Shape = InterpolatedShape< R, NCube< R, D, -1, 1, 1 >, B ... >;
  using Parent = ParentElement< R, NCube< R, D, -1, 1, 1 >, B ... >;
  template< typename BB, int ... A >
  static inline void one( R x, R *& v, R *& g, R *& p, std::integer_sequence< int, A ... > )
  { ( ( *v++ = BB::template value< A >( x ) ), ... ); ( ( *g++ = BB::template gradient< A >( x ) ), ... ); ( ( *p++ = BB::template coordinate< A >() ), ... ); }
  // 1-d values, gradients and support points, direction after direction
  static inline void oned( R const * x, R * v, R * g, R * p ) { int d = 0; ( one< B >( x[d++], v, g, p, SEQ_OF( B::numSupportPoints ) ), ... ); }
  template< typename E, typename C, int T, int ... DD >
  static inline void tuple( C const & x, R * v, R * g, std::integer_sequence< int, DD ... > )
  {
    v[T] = E::template value< idx( T, DD ) ... >( x );
    auto const gr = E::template gradient< idx( T, DD ) ... >( x );
    ( ( g[T * D + DD] = gr( DD ) ), ... );
  }
  template< typename E, typename C, int ... T >
  static inline void all( C const & x, R * v, R * g, std::integer_sequence< int, T ... > ) { ( tuple< E, C, T >( x, v, g, SEQ_OF( D ) ), ... ); }
  template< typename E >
  static inline void run( R const * x, R * v, R * g, R * bv, R * bg, R * pt )
  {
    oned( x, bv, bg, pt );
    R c[D];
    for( int d = 0; d < D; ++d ) { c[d] = x[d]; }
    all< E >( c, v, g, SEQ_OF( total ) );
  }
  template< typename E >
  static inline void runArray( R const * x, R * v, R * g, R * bv, R * bg, R * pt )
  {
    oned( x, bv, bg, pt );
    CArrayNd< R, D > c;
    for( int d = 0; d < D; ++d ) { c( d ) = x[d]; }
    all< E >( c, v, g, SEQ_OF( total ) );
  }
  // interpolation of a nodal field
  using Field = CArrayNd< R, B::numSupportPoints ... >;
  using View = CArrayViewNd< R const, B::numSupportPoints ... >;
  template< typename V >
  static inline void eval( R const * x, V const & f, R * r )
  {
    R c[D];
    for( int d = 0; d < D; ++d ) { c[d] = x[d]; }
    r[0] = Parent::value( c, f );
    auto const g = Parent::gradient( c, f );
    for( int d = 0; d < D; ++d ) { r[1 + d] = g( d ); }
  }
  static inline void interp( R const * x, R const * f, R * r, R * bv, R * bg, R * pt )
  {
    oned( x, bv, bg, pt );
    Field a;
    for( int t = 0; t < total; ++t ) { a.data()[t] = f[t]; }
    eval( x, a, r );
  }
  static inline void interpFn( R const * x, R const * f, R * r, R * bv, R * bg, R * pt )
  {
    oned( x, bv, bg, pt );
    auto fn = [f] ( auto ... i ) -> R { int const ii[] = { int( i ) ... }; int t = 0; for( int d = 0; d < D; ++d ) { t = t * n[d] + ii[d]; } return f[t]; };
    eval( x, fn, r );
  }
  // sample the polynomial sum_t c_t prod_d x_d^idx(t,d) at the support points, then interpolate
  static inline R mono( R const * y, int t ) { R m = 1; for( int d = 0; d < D; ++d ) { for( int k = 0; k < idx( t, d ); ++k ) { m *= y[d]; } } return m; }
  template< int T, int ... DD >
  static inline R sample( R const * c, std::integer_sequence< int, DD ... > )
  {
    R const y[D] = { B::template coordinate< idx( T, DD ) >() ... };
    R s = 0;
    for( int t = 0; t < total; ++t ) { s += c[t] * mono( y, t ); }
    return s;
  }
  template< int ... T >
  static inline void samples( R const * c, Field & f, std::integer_sequence< int, T ... > ) { ( ( f.data()[T] = sample< T >( c, SEQ_OF( D ) ) ), ... ); }
  static inline void repro( R const * x, R const * c, R * r )
  {
    Field f;
    samples( c, f, SEQ_OF( total ) );
    eval( x, f, r );
  }
  template< typename E >
  static inline void loop() { E::supportLoop( [] ( auto const ... i ) { ev( decltype( i )::value ... ); } ); }
  static inline void ev( int a ) { cb_e1( a ); }
  static inline void ev( int a, int b ) { cb_e2( a, b ); }
  static inline void ev( int a, int b, int c ) { cb_e3( a, b, c ); }
  static inline void ev( int a, int b, int c, int d ) { cb_e4( a, b, c, d ); }
  template< int ... N > static inline int * put( int * o, std::integer_sequence< int, N ... > ) { ( ( *o++ = N ), ... ); return o; }
  template< int ... DD >
  static inline void counts( int * o, std::integer_sequence< int, DD ... > )
  {
    *o++ = Product::numDims; *o++ = Shape::numDims; *o++ = Parent::numDims; *o++ = Shape::numVertices; *o++ = Product::IndexType::NUM_INDICES;
    o = put( o, typename Product::numSupportPoints{} );
    o = put( o, typename Shape::numSupportPointsSequence{} );
    o = put( o, Shape::basisSupportCounts );
    ( ( *o++ = Product::IndexType::range( DD ) ), ... );
    ( ( *o++ = Parent::numSupportPoints[DD] ), ... );
  }
};
#define AR R const * x, R * v, R * g, R * bv, R * bg, R * pt
#define AI R const * x, R const * f, R * r, R * bv, R * bg, R * pt
#ifdef SHAPES
#define COMBO( name, ... ) \
  X void prod_##name( AR ) { using S = Set< __VA_ARGS__ >; S::run< S::Product >( x, v, g, bv, bg, pt ); } \
  X void shape_##name( AR ) { using S = Set< __VA_ARGS__ >; S::run< S::Shape >( x, v, g, bv, bg, pt ); } \
  X void parent_##name( AR ) { using S = Set< __VA_ARGS__ >; S::run< S::Parent >( x, v, g, bv, bg, pt ); } \
  X void array_##name( AR ) { using S = Set< __VA_ARGS__ >; S::runArray< S::Product >( x, v, g, bv, bg, pt ); } \
  X void ploop_##name() { using S = Set< __VA_ARGS__ >; S::loop< S::Product >(); } \
  X void sloop_##name() { using S = Set< __VA_ARGS__ >; S::loop< S::Shape >(); } \
  X void counts_##name( int * o ) { using S = Set< __VA_ARGS__ >; S::counts( o, SEQ_OF( S::D ) ); }
#else
#define COMBO( name, ... ) \
  X void interp_##name( AI ) { Set< __VA_ARGS__ >::interp( x, f, r, bv, bg, pt ); } \
  X void interpfn_##name( AI ) { Set< __VA_ARGS__ >::interpFn( x, f, r, bv, bg, pt ); } \
  X void repro_##name( R const * x, R const * c, R * r ) { Set< __VA_ARGS__ >::repro( x, c, r ); }
#endif
#if PART == 1
COMBO( b, Eq< 1 >, Ll< 2 >, Eq< 3 > )
COMBO( d, Ll< 2 >, Eq< 2 >, Ll< 2 > )
COMBO( h, Ll< 3 >, Ll< 3 >, Ll< 3 > )
#else
COMBO( a, Eq< 1 >, Eq< 1 >, Eq< 1 > )
COMBO( c, Ll< 3 >, Gl< 1 >, Gl< 2 > )
COMBO( e, Ll< 4 >, Eq< 2 > )
COMBO( f, Ll< 5 > )
COMBO( g, Eq< 1 >, Eq< 2 >, Gl< 1 >, Eq< 1 > )
#endif
