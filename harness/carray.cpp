// CArray: offsets of every access form; construction, copies, views and writes.
// IDX: index type (define), ELT: element type (define)
#include "common.hpp"
#include "shiva/common/CArray.hpp"
#include <type_traits>
#include <utility>
using namespace shiva;
using i64 = long;

#ifndef IDX
#define IDX int
#endif
#ifndef ELT
#define ELT double
#endif

// successive square brackets
template< typename A, typename I, typename ... R >
static inline auto * br( A && a, I i, R ... r )
{
  if constexpr ( sizeof...( R ) == 0 ) { return &( a[i] ); }
  else { auto && s = a[i]; return br( s, r ... ); }
}
// one slice, then call syntax for the rest
template< typename A, typename I, typename ... R >
static inline auto * mixed( A && a, I i, R ... r )
{
  if constexpr ( sizeof...( R ) == 0 ) { return &( a( i ) ); }
  else { auto && s = a[i]; return &( s( r ... ) ); }
}

template< typename E, typename A, typename ... I >
static inline int addr( E const * base, A & a, i64 * o, I ... i )
{
  o[0] = &a( i ... ) - base;
  o[1] = br( a, i ... ) - base;
  o[2] = mixed( a, i ... ) - base;
  o[3] = &a.data()[0] - base;
  return 4;
}

template< typename E, int ... D >
struct Forms
{
  static constexpr int N = ( D * ... );
  using A = CArrayNd< E, D ... >;
  using V = CArrayViewNd< E, D ... >;
  using VC = CArrayViewNd< E const, D ... >;

  template< typename ... I >
  static void all( E * buf, i64 * o, I ... i )
  {
    E ( &raw )[ N ] = *reinterpret_cast< E ( * )[ N ] >( buf );
    A a;
    A const & ca = a;
    V v( raw );
    V const & cv = v;
    VC vc( raw );
    VC const & cvc = vc;
    // read-only access must not hand out a mutable element
    static_assert( std::is_same_v< decltype( ca( i ... ) ), E const & > );
    static_assert( std::is_same_v< decltype( a( i ... ) ), E & > );
    static_assert( std::is_const_v< std::remove_reference_t< decltype( vc( i ... ) ) > > );
    static_assert( std::is_const_v< std::remove_pointer_t< decltype( br( ca, i ... ) ) > > );
    o += addr( &a.data()[0], a, o, i ... );
    o += addr( &a.data()[0], ca, o, i ... );
    o += addr( buf, v, o, i ... );
    o += addr( buf, cv, o, i ... );
    o += addr( buf, vc, o, i ... );
    o += addr( buf, cvc, o, i ... );
  }

  template< int ... K >
  static constexpr int digit( int lin, int d )
  {
    int const dims[] = { D ... };
    for( int q = sizeof...( D ) - 1; q > d; --q ) { lin /= dims[q]; }
    return lin % dims[d];
  }
  template< int LIN, typename A_, int ... R >
  static auto * ctAt( A_ & a, std::integer_sequence< int, R ... > ) { return &( a.template operator()< digit( LIN, R ) ... >() ); }
  template< int ... LIN >
  static void ct( E * buf, i64 * o, std::integer_sequence< int, LIN ... > )
  {
    E ( &raw )[ N ] = *reinterpret_cast< E ( * )[ N ] >( buf );
    A a;
    A const & ca = a;
    V v( raw );
    V const & cv = v;
    using R = std::make_integer_sequence< int, sizeof...( D ) >;
    ( ( o[LIN] = ctAt< LIN >( a, R{} ) - &a.data()[0] ), ... );
    ( ( o[N + LIN] = ctAt< LIN >( ca, R{} ) - &a.data()[0] ), ... );
    ( ( o[2 * N + LIN] = ctAt< LIN >( v, R{} ) - buf ), ... );
    ( ( o[3 * N + LIN] = ctAt< LIN >( cv, R{} ) - buf ), ... );
    o[4 * N] = A::rank(); o[4 * N + 1] = A::size(); o[4 * N + 2] = V::rank(); o[4 * N + 3] = V::size();
    o[4 * N + 4] = sizeof( A );
    ext( o + 4 * N + 5, R{} );
  }
  template< int ... R >
  static void ext( i64 * o, std::integer_sequence< int, R ... > ) { ( ( o[R] = A::template extent< R >() ), ... ); ( ( o[sizeof...( D ) + R] = V::template extent< R >() ), ... ); }

  // ---- contents
  // list initialisation, buffer view, copies; everything is read back through each form in row-major order
  template< int ... LIN >
  static void contents( E const * in, E * o, std::integer_sequence< int, LIN ... > s )
  {
    A a{ in[LIN] ... };
    A const c{ in[LIN] ... };
    A b( a );
    A d;
    d = a;
    E raw[ N ] = { in[LIN] ... };
    E const craw[ N ] = { in[LIN] ... };
    V v( raw );
    VC vc( craw );
    dump( a, o, s );
    dump( c, o + N, s );
    dump( b, o + 2 * N, s );
    dump( d, o + 3 * N, s );
    dump( v, o + 4 * N, s );
    dump( vc, o + 5 * N, s );
    V v2( v );
    dump( v2, o + 6 * N, s );
    A z{};
    dump( z, o + 7 * N, s );
  }
  template< typename A_, int ... LIN >
  static void dump( A_ & a, E * o, std::integer_sequence< int, LIN ... > ) { ( dump1( a, o, LIN, std::make_integer_sequence< int, sizeof...( D ) >{} ), ... ); }
  template< typename A_, int ... R >
  static void dump1( A_ & a, E * o, int lin, std::integer_sequence< int, R ... > ) { o[lin] = a( digit( lin, R ) ... ); }

  // write w at one multi-index through form f; original owning array, its copy taken before the write, and the view's buffer afterwards
  template< int ... LIN, typename ... I >
  static void write( int f, E const * in, E * viewed, E w, E * o, std::integer_sequence< int, LIN ... >, I ... i )
  {
    E ( &raw )[ N ] = *reinterpret_cast< E ( * )[ N ] >( viewed );
    A a{ in[LIN] ... };
    A b( a );
    V v( raw );
    if( f == 0 ) { a( i ... ) = w; v( i ... ) = w; }
    else if( f == 1 ) { *br( a, i ... ) = w; *br( v, i ... ) = w; }
    else { *mixed( a, i ... ) = w; *mixed( v, i ... ) = w; }
    ( ( o[LIN] = a.data()[LIN] ), ... );
    ( ( o[N + LIN] = b.data()[LIN] ), ... );
    V const & cv = v;
    o[2 * N] = v( i ... );
    o[2 * N + 1] = cv( i ... );
    o[2 * N + 2] = a( i ... );
  }
};

#define P1 IDX i
#define A1 i
#define P2 IDX i, IDX j
#define A2 i, j
#define P3 IDX i, IDX j, IDX k
#define A3 i, j, k
#define P4 IDX i, IDX j, IDX k, IDX l
#define A4 i, j, k, l
#define P5 IDX i, IDX j, IDX k, IDX l, IDX m
#define A5 i, j, k, l, m
#define P6 IDX i, IDX j, IDX k, IDX l, IDX m, IDX n
#define A6 i, j, k, l, m, n
#define P7 IDX i, IDX j, IDX k, IDX l, IDX m, IDX n, IDX p
#define A7 i, j, k, l, m, n, p
#define P8 IDX i, IDX j, IDX k, IDX l, IDX m, IDX n, IDX p, IDX q
#define A8 i, j, k, l, m, n, p, q
#define SEQ( ... ) std::make_integer_sequence< int, Forms< ELT, __VA_ARGS__ >::N >{}

// PART selects what is compiled: 1 offsets, 2 bounds checks, 3 contents, 4 large arrays (addresses only), mixed index types
#if PART == 1
#define SHAPE( name, R, ... ) \
  X void acc_##name( ELT * buf, i64 * o, P##R ) { Forms< ELT, __VA_ARGS__ >::all( buf, o, A##R ); } \
  X void ct_##name( ELT * buf, i64 * o ) { Forms< ELT, __VA_ARGS__ >::ct( buf, o, SEQ( __VA_ARGS__ ) ); }
#elif PART == 2
#define SHAPE( name, R, ... ) \
  X i64 chk_##name( ELT * buf, P##R ) { constexpr int N = Forms< ELT, __VA_ARGS__ >::N; CArrayViewNd< ELT, __VA_ARGS__ > v( *reinterpret_cast< ELT ( * )[ N ] >( buf ) ); return &v( A##R ) - buf; } \
  X i64 chko_##name( P##R ) { CArrayNd< ELT, __VA_ARGS__ > const a{}; return &a( A##R ) - &a.data()[0]; } \
  X i64 chkb_##name( ELT * buf, P##R ) { constexpr int N = Forms< ELT, __VA_ARGS__ >::N; CArrayViewNd< ELT, __VA_ARGS__ > v( *reinterpret_cast< ELT ( * )[ N ] >( buf ) ); return br( v, A##R ) - buf; } \
  X i64 chkbo_##name( P##R ) { CArrayNd< ELT, __VA_ARGS__ > a; auto const & ca = a; return br( ca, A##R ) - &a.data()[0]; } \
  X void chkw_##name( ELT * buf, ELT w, P##R ) { constexpr int N = Forms< ELT, __VA_ARGS__ >::N; CArrayViewNd< ELT, __VA_ARGS__ > v( *reinterpret_cast< ELT ( * )[ N ] >( buf ) ); v( A##R ) = w; }
#else
#define SHAPE( name, R, ... ) \
  X void cont_##name( ELT const * in, ELT * o ) { Forms< ELT, __VA_ARGS__ >::contents( in, o, SEQ( __VA_ARGS__ ) ); } \
  X void wr_##name( int f, ELT const * in, ELT * viewed, ELT w, ELT * o, P##R ) { Forms< ELT, __VA_ARGS__ >::write( f, in, viewed, w, o, SEQ( __VA_ARGS__ ), A##R ); }
#endif

#if PART == 4
template< int ... D >
struct Big
{
  static constexpr int N = ( D * ... );
  template< typename ... I >
  static void all( ELT * buf, i64 * o, I ... i )
  {
    ELT ( &raw )[ N ] = *reinterpret_cast< ELT ( * )[ N ] >( buf );
    CArrayViewNd< ELT, D ... > v( raw );
    CArrayViewNd< ELT const, D ... > const vc( raw );
    o += addr( buf, v, o, i ... );
    o += addr( buf, vc, o, i ... );
    o[0] = &v.template operator()< ( D - 1 ) ... >() - buf;
    o[1] = &vc.template operator()< ( D / 2 ) ... >() - buf;
    o[2] = v.size();
    using V = CArrayViewNd< ELT, D ... >;
    o[3] = V::rank();
    ext< V >( o + 4, std::make_integer_sequence< int, sizeof ... ( D ) >{} );
  }
  template< typename V, int ... K >
  static void ext( i64 * o, std::integer_sequence< int, K ... > ) { ( ( o[K] = V::template extent< K >() ), ... ); }
};
#ifdef CHECKED
#define BIG( name, R, ... ) \
  X i64 chk_##name( ELT * buf, P##R ) { constexpr int N = Forms< ELT, __VA_ARGS__ >::N; CArrayViewNd< ELT, __VA_ARGS__ > v( *reinterpret_cast< ELT ( * )[ N ] >( buf ) ); return &v( A##R ) - buf; } \
  X i64 chkb_##name( ELT * buf, P##R ) { constexpr int N = Forms< ELT, __VA_ARGS__ >::N; CArrayViewNd< ELT const, __VA_ARGS__ > const v( *reinterpret_cast< ELT ( * )[ N ] >( buf ) ); return br( v, A##R ) - buf; } \
  X i64 chkm_##name( ELT * buf, P##R ) { constexpr int N = Forms< ELT, __VA_ARGS__ >::N; CArrayViewNd< ELT, __VA_ARGS__ > v( *reinterpret_cast< ELT ( * )[ N ] >( buf ) ); return mixed( v, A##R ) - buf; }
#else
#define BIG( name, R, ... ) X void big_##name( ELT * buf, i64 * o, P##R ) { Big< __VA_ARGS__ >::all( buf, o, A##R ); }
#endif
BIG( b7, 2, 200, 3 )
BIG( b8, 3, 3, 250, 2 )
BIG( b9, 3, 2, 120, 100 )
BIG( b10, 2, 256, 256 )
BIG( b11, 2, 128, 129 )
BIG( b1, 3, 2, 300, 200 )
BIG( b2, 2, 70000, 3 )
BIG( b3, 2, 5, 40000 )
BIG( b4, 3, 1100, 1000, 1100 )
BIG( b5, 4, 40, 60, 50, 70 )
BIG( b6, 1, 100000 )
X void mixed_s234( ELT * buf, i64 * o, signed char i, unsigned long j, int k )
{
  CArrayViewNd< ELT, 2, 3, 4 > v( *reinterpret_cast< ELT ( * )[ 24 ] >( buf ) );
  auto const & cv = v;
  o[0] = &v( i, j, k ) - buf;
  o[1] = &cv( i, j, k ) - buf;
  o[2] = br( v, i, j, k ) - buf;
  o[3] = mixed( cv, i, j, k ) - buf;
}
X void mixed_s2345( ELT * buf, i64 * o, unsigned i, long j, unsigned short k, unsigned char l )
{
  CArrayViewNd< ELT, 2, 3, 4, 5 > v( *reinterpret_cast< ELT ( * )[ 120 ] >( buf ) );
  auto const & cv = v;
  o[0] = &v( i, j, k, l ) - buf;
  o[1] = &cv( i, j, k, l ) - buf;
  o[2] = br( v, i, j, k, l ) - buf;
  o[3] = mixed( cv, i, j, k, l ) - buf;
}
#else
SHAPE( s1, 1, 1 )
SHAPE( s7, 1, 7 )
SHAPE( s23, 2, 2, 3 )
SHAPE( s52, 2, 5, 2 )
SHAPE( s14, 2, 1, 4 )
SHAPE( s41, 2, 4, 1 )
SHAPE( s33, 2, 3, 3 )
SHAPE( s234, 3, 2, 3, 4 )
SHAPE( s432, 3, 4, 3, 2 )
SHAPE( s313, 3, 3, 1, 3 )
SHAPE( s2345, 4, 2, 3, 4, 5 )
SHAPE( s3124, 4, 3, 1, 2, 4 )
SHAPE( s23232, 5, 2, 3, 2, 3, 2 )
SHAPE( s213222, 6, 2, 1, 3, 2, 2, 2 )
SHAPE( s2121322, 7, 2, 1, 2, 1, 3, 2, 2 )
SHAPE( s12112123, 8, 1, 2, 1, 1, 2, 1, 2, 3 )
SHAPE( s1111, 4, 1, 1, 1, 1 )
SHAPE( s9a, 2, 9, 11 )

// long arrays: an element written through one form is read back through all, its neighbours keep their value
#if PART == 3
template< int f, typename A, typename ... I > static inline void longWrite( A & a, ELT w, ELT * o, i64 lin, I ... i )
{
  constexpr i64 N = A::size();
  if constexpr ( f == 0 ) { a( i ... ) = w; }
  else if constexpr ( f == 1 ) { *br( a, i ... ) = w; }
  else { *mixed( a, i ... ) = w; }
  A const & ca = a;
  o[0] = ca( i ... ); o[1] = *br( ca, i ... ); o[2] = *mixed( ca, i ... ); o[3] = a.data()[lin];
  o[4] = a.data()[( lin + 1 ) % N]; o[5] = a.data()[( lin + N - 1 ) % N]; o[6] = a.data()[0]; o[7] = a.data()[N - 1];
  a.data()[lin] = 0;
}
STORE CArrayNd< ELT, 40000 > long1;
STORE CArrayNd< ELT, 33000, 2 > long2;
STORE CArrayNd< ELT, 2, 70000 > long3;
STORE CArrayNd< ELT, 2, 300, 130 > long4;
#define LONGF( f ) \
  X void long1_##f( int i, ELT w, ELT * o ) { longWrite< f >( long1, w, o, i, i ); } \
  X void long2_##f( int i, int j, ELT w, ELT * o ) { longWrite< f >( long2, w, o, 2l * i + j, i, j ); } \
  X void long3_##f( int i, int j, ELT w, ELT * o ) { longWrite< f >( long3, w, o, 70000l * i + j, i, j ); } \
  X void long4_##f( int i, int j, int k, ELT w, ELT * o ) { longWrite< f >( long4, w, o, ( 300l * i + j ) * 130l + k, i, j, k ); }
LONGF( 0 ) LONGF( 1 ) LONGF( 2 )
#endif

// Scalar
X void scalar_all( ELT const * in, ELT * o )
{
  Scalar< ELT > s{ in[0] };
  Scalar< ELT > const c{ in[0] };
  o[0] = s( 0 ); o[1] = s[0]; o[2] = c( 0 ); o[3] = c[0]; o[4] = s.template operator()< 0 >();
  s( 0 ) = in[1];
  o[5] = s[0];
  s[0] = in[2];
  o[6] = s( 0 );
  o[7] = c( 0 );
}
X int scalar_meta() { return 100 * Scalar< ELT >::rank() + 10 * Scalar< ELT >::size() + Scalar< ELT >::template extent< 0 >(); }
X int scalarview_meta() { return 100 * ScalarView< ELT >::rank() + 10 * ScalarView< ELT >::size() + ScalarView< ELT >::template extent< 0 >(); }
#endif
