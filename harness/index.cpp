// Multi-index linearisation, range loops, compile-time sequence loops.
#include "common.hpp"
#include "shiva/common/IndexTypes.hpp"
#include "shiva/common/SequenceUtilities.hpp"
#include "shiva/common/NestedSequenceUtilities.hpp"
#include <type_traits>
using namespace shiva;
using i64 = long;
#define SEQ_OF( N ) std::make_integer_sequence< int, N >{}

// ------------------------------------------------------------------ linear index
template< typename M, typename ... I >
static inline typename M::BaseIndexType lin( I ... i )
{
  M m{ { static_cast< typename M::BaseIndexType >( i ) ... } };
  M const & cm = m;
  static_assert( std::is_same_v< decltype( linearIndex( cm ) ), typename M::BaseIndexType > );
  return linearIndex( cm );
}
template< typename M, int ... D >
static void meta( i64 * o, std::integer_sequence< int, D ... > )
{
  o[0] = M::NUM_INDICES;
  ( ( o[1 + D] = M::range( D ), o[1 + M::NUM_INDICES + D] = M::ranges[D] ), ... );
  M m;            // default state is the first index
  ( ( o[1 + 2 * M::NUM_INDICES + D] = m.data[D] ), ... );
  o[1 + 3 * M::NUM_INDICES] = linearIndex( m );
}
#define P1 BI i
#define P2 BI i, BI j
#define P3 BI i, BI j, BI k
#define P4 BI i, BI j, BI k, BI l
#define P5 BI i, BI j, BI k, BI l, BI m
#define P6 BI i, BI j, BI k, BI l, BI m, BI n
#define P7 BI i, BI j, BI k, BI l, BI m, BI n, BI p
#define P8 BI i, BI j, BI k, BI l, BI m, BI n, BI p, BI q
#define A1 i
#define A2 i, j
#define A3 i, j, k
#define A4 i, j, k, l
#define A5 i, j, k, l, m
#define A6 i, j, k, l, m, n
#define A7 i, j, k, l, m, n, p
#define A8 i, j, k, l, m, n, p, q
#define LIN( name, TY, R, ... ) \
  namespace lin_ns_##name { using BI = TY; X TY lin_##name( P##R ) { return lin< MultiIndexRange< TY, __VA_ARGS__ > >( A##R ); } } \
  X void linmeta_##name( i64 * o ) { meta< MultiIndexRange< TY, __VA_ARGS__ > >( o, SEQ_OF( R ) ); }
LIN( i7, int, 1, 7 )
LIN( i23, int, 2, 2, 3 )
LIN( i52, int, 2, 5, 2 )
LIN( i14, int, 2, 1, 4 )
LIN( i234, int, 3, 2, 3, 4 )
LIN( i432, int, 3, 4, 3, 2 )
LIN( i313, int, 3, 3, 1, 3 )
LIN( i2345, int, 4, 2, 3, 4, 5 )
LIN( i32232, int, 5, 3, 2, 2, 3, 2 )
LIN( i213222, int, 6, 2, 1, 3, 2, 2, 2 )
LIN( big, int, 3, 1000, 1200, 1500 )
LIN( l234, long, 3, 2, 3, 4 )
LIN( lbig, long, 3, 3, 70000, 80000 )
LIN( u432, unsigned, 3, 4, 3, 2 )
LIN( i2121322, int, 7, 2, 1, 2, 1, 3, 2, 2 )
LIN( i12312123, int, 8, 1, 2, 3, 1, 2, 1, 2, 3 )
LIN( uc540, unsigned char, 2, 5, 40 )
LIN( sc227, signed char, 3, 2, 2, 7 )
LIN( s1003, short, 2, 100, 300 )
LIN( us5, unsigned short, 3, 30, 40, 50 )
LIN( szbig, unsigned long, 4, 3, 70000, 80000, 9 )
LIN( llbig, long long, 2, 2000000000ll, 5 )
LIN( ubig, unsigned, 2, 60000, 70000 )
// a multi-index with no ranges starts at the origin, keeps what is assigned and copies by value
template< typename T, int N >
static void multi( T a, T const b, i64 * o )
{
  MultiIndex< T, N > m;
  for( int k = 0; k < N; ++k ) { o[k] = m.data[k]; }
  m.data[N - 1] = a;
  MultiIndex< T, N > const c = m;
  m.data[0] = b;
  for( int k = 0; k < N; ++k ) { o[N + k] = c.data[k]; }
  o[2 * N] = m.data[0];
  o[2 * N + 1] = std::is_same_v< typename MultiIndex< T, N >::BaseIndexType, T >;
}
X void multi_i1( int a, int b, i64 * o ) { multi< int, 1 >( a, b, o ); }
X void multi_i3( int a, int b, i64 * o ) { multi< int, 3 >( a, b, o ); }
X void multi_l2( long a, long b, i64 * o ) { multi< long, 2 >( a, b, o ); }
X void multi_l6( long a, long b, i64 * o ) { multi< long, 6 >( a, b, o ); }
X int linlinear( int a ) { LinearIndex< int > x = a; return linearIndex( x ); }
X long linlinearl( long a ) { LinearIndex< long > x = a; return linearIndex( x ); }
// run-time loop over a linear index (as documented use)
X void linloop( int a0, int n ) { for( LinearIndex< int > a = a0; a < n; ++a ) { cb_e1( linearIndex( a ) ); } }

// ------------------------------------------------------------------ forRange
using BI = int;
static inline void ev( int a ) { cb_e1( a ); }
static inline void ev( int a, int b ) { cb_e2( a, b ); }
static inline void ev( int a, int b, int c ) { cb_e3( a, b, c ); }
static inline void ev( int a, int b, int c, int d ) { cb_e4( a, b, c, d ); }
static inline void ev( int a, int b, int c, int d, int e ) { cb_e5( a, b, c, d, e ); }
static inline void ev( int a, int b, int c, int d, int e, int f ) { cb_e6( a, b, c, d, e, f ); }
static inline void ev( int a, int b, int c, int d, int e, int f, int g ) { cb_e7( a, b, c, d, e, f, g ); }
static inline void ev( int a, int b, int c, int d, int e, int f, int g, int h ) { cb_e8( a, b, c, d, e, f, g, h ); }
template< typename M, int ... D >
static inline void evIndex( M const & m, std::integer_sequence< int, D ... > ) { ev( m.data[D] ... ); }

template< typename M, typename ... I >
static inline void loop( I ... i )
{
  M m{ { i ... } };
  forRange( m, [&] ( auto const & q ) { evIndex( q, SEQ_OF( M::NUM_INDICES ) ); } );
}
struct Functor                       // a named function object, by lvalue
{
  template< typename M > void operator()( M const & q ) const { evIndex( q, SEQ_OF( M::NUM_INDICES ) ); }
};
template< typename M, typename ... I >
static inline void loopf( I ... i )
{
  M m{ { i ... } };
  Functor f;
  forRange( m, f );
}
// the function object given is the one called: its state after the loop tells how often, and with what
struct Fold
{
  unsigned s;
  template< typename M > void operator()( M const & q ) { s = s * 3 + 1; for( auto a : q.data ) { s += a; } }
};
template< typename M, typename ... I >
static inline int loopst( int x, I ... i )
{
  M m{ { i ... } };
  Fold f{ static_cast< unsigned >( x ) };
  forRange( m, f );
  return static_cast< int >( f.s );
}
X int loopst_r4( int x, int i ) { return loopst< MultiIndexRangeI< 4 > >( x, i ); }
X int loopst_r32( int x, int i, int j ) { return loopst< MultiIndexRangeI< 3, 2 > >( x, i, j ); }
X int loopst_r234( int x, int i, int j, int k ) { return loopst< MultiIndexRangeI< 2, 3, 4 > >( x, i, j, k ); }
X int loopst_r2232( int x, int i, int j, int k, int l ) { return loopst< MultiIndexRangeI< 2, 2, 3, 2 > >( x, i, j, k, l ); }
// the loop run to number the entries: linear index at each step
template< typename M, typename ... I >
static inline void looplin( I ... i )
{
  M m{ { i ... } };
  forRange( m, [&] ( auto const & q ) { cb_e1( linearIndex( q ) ); } );
}
#define LOOP( name, R, ... ) \
  X void loop_##name( P##R ) { loop< MultiIndexRangeI< __VA_ARGS__ > >( A##R ); } \
  X void loopf_##name( P##R ) { loopf< MultiIndexRange< int, __VA_ARGS__ > >( A##R ); } \
  X void looplin_##name() { looplin< MultiIndexRangeI< __VA_ARGS__ > >(); }
LOOP( r4, 1, 4 )
LOOP( r0, 1, 0 )
LOOP( r23, 2, 2, 3 )
LOOP( r32, 2, 3, 2 )
LOOP( r03, 2, 0, 3 )
LOOP( r30, 2, 3, 0 )
LOOP( r234, 3, 2, 3, 4 )
LOOP( r312, 3, 3, 1, 2 )
LOOP( r2232, 4, 2, 2, 3, 2 )
LOOP( r21212, 5, 2, 1, 2, 1, 2 )
LOOP( r121221, 6, 1, 2, 1, 2, 2, 1 )
LOOP( r2112121, 7, 2, 1, 1, 2, 1, 2, 1 )
LOOP( r11211212, 8, 1, 1, 2, 1, 1, 2, 1, 2 )
LOOP( r300, 1, 300 )
LOOP( r3130, 2, 3, 130 )
LOOP( r2340, 3, 2, 3, 40 )
LOOP( r2003, 2, 200, 3 )
LOOP( rb1, 1, 100000 )
LOOP( rb2, 2, 40000, 70000 )
LOOP( rb3, 3, 200, 300, 70000 )
LOOP( r203, 3, 2, 0, 3 )

// other index types: the loop passes and advances components of the base type
template< typename TY, TY ... R, typename ... I >
static inline void loopty( I ... i )
{
  using M = MultiIndexRange< TY, R ... >;
  M m{ { static_cast< TY >( i ) ... } };
  forRange( m, [&] ( auto const & q )
  {
    static_assert( std::is_same_v< std::decay_t< decltype( q.data[0] ) >, TY > );
    evIndex( q, SEQ_OF( M::NUM_INDICES ) );
    cb_e1( static_cast< int >( linearIndex( q ) ) );
  } );
}
X void loopty_long( int i, int j ) { loopty< long, 2, 3 >( i, j ); }
X void loopty_unsigned( int i, int j, int k ) { loopty< unsigned, 2, 1, 3 >( i, j, k ); }
X void loopty_short( int i, int j ) { loopty< short, 3, 2 >( i, j ); }
X void loopty_uchar( int i ) { loopty< unsigned char, 5 >( i ); }
X void loopty_llong( int i ) { loopty< long long, 4 >( i ); }

// ------------------------------------------------------------------ compile-time sequences
struct ForT { int x; template< int I > void operator()() const { cb_e2( x, I ); } };
template< int N > static inline void forseq( int x ) { forSequence< N >( [&] ( auto i ) { static_assert( decltype( i )::value >= 0 ); cb_e2( x, i ); } ); }
template< int N > static inline void forseqt( int x ) { ForT f{ x }; forSequence< N >( f ); }
template< int N > static inline int forseqret( int x ) { return forSequence< N >( [&] ( auto i ) { cb_e1( i ); return x + 10 * decltype( i )::value; } ); }

// executeSequence: the pack as function arguments (after the forwarded ones) / as template arguments
struct Exec { template< int ... I > void operator()( int const a, int const b, i64 * o ) const { o[0] = a; o[1] = b; int k = 2; ( ( o[k++] = I ), ... ); o[k] = -9; } };
struct ExecRet { template< int ... I > i64 operator()( int const a ) const { return a + ( i64( 0 ) + ... + ( I * 100 ) ); } };
template< int N > static inline void exec0( i64 * o )
{ executeSequence< N >( [&] ( auto ... I ) { int k = 0; ( ( o[k++] = decltype( I )::value ), ... ); o[k] = -9; } ); }
template< int N > static inline void exect( int a, int b, i64 * o ) { executeSequence< N >( Exec{}, a, b, o ); }
template< int N > static inline i64 execret( int a ) { return executeSequence< N >( ExecRet{}, a ); }
template< int N > static inline i64 execret0( int a ) { return executeSequence< N >( [&] ( auto ... I ) -> i64 { return a + ( i64( 0 ) + ... + ( decltype( I )::value * 100 ) ); } ); }
struct ExecRef { template< int ... I > void operator()( int & a, int && b, int const & c, int * o ) const { o[0] = b; o[1] = c; a += 1 + ( 0 + ... + I ); } };
template< int N > static inline void execref( int a, int b, int c, int * o ) { int x = a; executeSequence< N >( ExecRef{}, x, std::move( b ), static_cast< int const & >( c ), o ); o[2] = x; }
// the function-argument form with extra arguments of class and reference type; an lvalue argument stays the caller's
struct Mv { int v; explicit Mv( int x ): v( x ) {} Mv( Mv const & r ): v( r.v ) {} Mv( Mv && r ): v( r.v ) { r.v = -77; } };
struct ExecMv { int * o; template< int ... I > int operator()( Mv m, int & r ) const { o[0] = m.v; r += 1 + ( 0 + ... + I ); return m.v; } };
template< int N > static inline void execmv( int a, int b, int * o )
{
  Mv m( a );
  int x = b;
  o[1] = executeSequence< N >( ExecMv{ o }, m, x );
  o[2] = m.v;
  o[3] = x;
  o[4] = executeSequence< N >( [&] ( Mv c, int & r, auto ... I ) { o[5] = c.v; r += 1 + ( 0 + ... + decltype( I )::value ); return c.v; }, m, x );
  o[6] = m.v;
  o[7] = x;
  o[8] = executeSequence< N >( [&] ( Mv && c, int const & r, auto ... I ) { Mv d( std::move( c ) ); return r + d.v + ( 0 + ... + decltype( I )::value ); }, std::move( m ), x );
}
struct SeqFold { unsigned s; template< int I > void operator()() { s = s * 3 + 1 + I; } };
template< int N > static inline int forseqst( int x )
{
  unsigned t = x;
  auto l = [t] ( auto i ) mutable { t = t * 3 + 1 + decltype( i )::value; return static_cast< int >( t ); };
  forSequence< N >( l );
  SeqFold f{ static_cast< unsigned >( l( std::integral_constant< int, 0 >{} ) ) };
  forSequence< N >( f );
  return static_cast< int >( f.s );
}
struct Count { int n = 0; template< int ... I > void operator()( int a ) { n += a + int( sizeof...( I ) ); } };
template< int N > static inline int execstate( int a ) { Count c; executeSequence< N >( c, a ); executeSequence< N >( c, a ); return c.n; }
#define FS( N ) \
  X void execmv_##N( int a, int b, int * o ) { execmv< N >( a, b, o ); } \
  X int forseqst_##N( int x ) { return forseqst< N >( x ); } \
  X int execstate_##N( int a ) { return execstate< N >( a ); } \
  X void forseq_##N( int x ) { forseq< N >( x ); } \
  X void forseqt_##N( int x ) { forseqt< N >( x ); } \
  X void exec0_##N( i64 * o ) { exec0< N >( o ); } \
  X void exect_##N( int a, int b, i64 * o ) { exect< N >( a, b, o ); } \
  X i64 execret_##N( int a ) { return execret< N >( a ); } \
  X i64 execret0_##N( int a ) { return execret0< N >( a ); } \
  X void execref_##N( int a, int b, int c, int * o ) { execref< N >( a, b, c, o ); }
FS( 0 ) FS( 1 ) FS( 2 ) FS( 3 ) FS( 5 ) FS( 8 ) FS( 17 ) FS( 4 ) FS( 6 ) FS( 7 ) FS( 9 ) FS( 10 ) FS( 12 ) FS( 16 ) FS( 33 ) FS( 64 ) FS( 130 )
X int forseqret_1( int x ) { return forseqret< 1 >( x ); }
X int forseqret_4( int x ) { return forseqret< 4 >( x ); }
X int forseqret_9( int x ) { return forseqret< 9 >( x ); }

// nested; the function object given is the one called
struct NestFold { unsigned s; template< typename ... Q > void operator()( Q ... ) { s = s * 3 + ( 1 + ... + Q::value ); ev( Q::value ... ); } };
#define NEST( name, ... ) \
  X void nest_##name() { forNestedSequence< __VA_ARGS__ >( [&] ( auto ... q ) { ev( decltype( q )::value ... ); } ); } \
  X void nests_##name() { forNestedSequence( std::integer_sequence< int, __VA_ARGS__ >{}, [&] ( auto ... q ) { ev( decltype( q )::value ... ); } ); } \
  X int nestst_##name( int x ) { NestFold f{ static_cast< unsigned >( x ) }; forNestedSequence< __VA_ARGS__ >( f ); return int( f.s ); } \
  X int nestss_##name( int x ) { NestFold f{ static_cast< unsigned >( x ) }; forNestedSequence( std::integer_sequence< int, __VA_ARGS__ >{}, f ); return int( f.s ); }
NEST( n4, 4 )
NEST( n1, 1 )
NEST( n23, 2, 3 )
NEST( n32, 3, 2 )
NEST( n15, 1, 5 )
NEST( n234, 2, 3, 4 )
NEST( n413, 4, 1, 3 )
NEST( n2322, 2, 3, 2, 2 )
NEST( n21232, 2, 1, 2, 3, 2 )
NEST( n212212, 2, 1, 2, 2, 1, 2 )
NEST( n203, 2, 0, 3 )
NEST( n2112121, 2, 1, 1, 2, 1, 2, 1 )
NEST( n12111212, 1, 2, 1, 1, 1, 2, 1, 2 )
NEST( n172, 17, 2 )
NEST( n320a, 3, 20 )
NEST( n40, 40 )
NEST( n444, 4, 4, 4 )
NEST( n0, 0 )
NEST( n022, 0, 2, 2 )
NEST( n320, 3, 2, 0 )

// packs
template< int ... I > struct Pack { static constexpr int n = sizeof...( I ); static void put( i64 * o ) { int k = 0; ( ( o[k++] = I ), ... ); } };
X int packs( i64 * o )
{
  using P = SequenceAlias< Pack, std::integer_sequence< int, 4, 9, -2, 7, 7 > >::type;
  P::put( o );
  o[5] = IntPackPeeler< 0, 4, 9, -2, 7, 11 >::value(); o[6] = IntPackPeeler< 1, 4, 9, -2, 7, 11 >::value(); o[7] = IntPackPeeler< 2, 4, 9, -2, 7, 11 >::value();
  o[8] = IntPackPeeler< 3, 4, 9, -2, 7, 11 >::value(); o[9] = IntPackPeeler< 4, 4, 9, -2, 7, 11 >::value();
  o[10] = IntPackPeeler< 0, 3 >::value();
  return P::n;
}
