// The kernel wrappers on a device back end: host code of a CUDA / HIP build over a model of the runtime whose
// faults and data are inputs.  Kernels run through the launch stubs the compiler generates for <<< >>>.
#include "common.hpp"
#include "shiva/common/pmpl.hpp"
#include <cstdlib>
#include <cstring>
#include <cstddef>
using namespace shiva;

// ------------------------------------------------------------------ the runtime
namespace model
{
constexpr int MAXB = 4;
struct Block { char * p; size_t n; int managed; };
static Block blocks[MAXB];
static int nblocks, live, launches, odd, failed, fault, synced;
static void ( *body )( void * * );
static unsigned pending, g[3], b[3];
static size_t toDevice, toHost;
static int dry;                                   // only the calls are looked at: nothing is allocated, copied or run
static char nothing[MAXB];
enum { HOSTPTR = 1, RANGE = 2, KIND = 4, GRID = 8, FREE = 16, DEVPTR = 32, NOCONF = 64, UNFREED = 128, UNMANAGED = 256 };

// where a fault strikes: the call that fails
enum { ALLOC = 1, TO_DEVICE = 2, REFUSED = 3, RUNNING = 4, TO_HOST = 5 };
static int where, last;

static void reset( int f, int w )
{
  nblocks = live = launches = odd = failed = synced = last = 0;
  fault = w == 0 ? 0 : f;
  where = w;
  toDevice = toHost = 0;
  dry = 0;
  pending = 0;
  body = nullptr;
}
static Block * find( void const * q )
{
  for( int i = 0; i < nblocks; ++i )
  {
    if( blocks[i].p != nullptr && blocks[i].p == q ) return &blocks[i];
  }
  return nullptr;
}
static int error( int e ) { if( e != 0 ) last = e; return e; }
static bool struck( int w ) { return fault != 0 && where == w; }
static int alloc( void * * p, size_t n, int managed )
{
  if( failed || struck( ALLOC ) ) return error( fault );
  if( nblocks == MAXB ) { odd |= RANGE; return error( 2 ); }
  char * q = dry ? nothing + nblocks : static_cast< char * >( std::malloc( n ) );
  blocks[nblocks] = Block{ q, n, managed };
  ++nblocks; ++live;
  *p = q;
  return 0;
}
static int copy( void * d, void const * s, size_t n, int kind )
{
  if( failed || struck( ALLOC ) ) return error( fault );
  Block * bd = find( d );
  Block * bs = find( s );
  if( kind == 4 ) kind = bd != nullptr && bs == nullptr ? 1 : bs != nullptr && bd == nullptr ? 2 : 0;
  if( kind == 1 && ( bd == nullptr || bs != nullptr ) ) odd |= KIND;
  if( kind == 2 && ( bs == nullptr || bd != nullptr ) ) odd |= KIND;
  if( kind == 0 || kind == 3 ) odd |= KIND;
  if( ( bd != nullptr && n > bd->n ) || ( bs != nullptr && n > bs->n ) ) odd |= RANGE;
  if( struck( kind == 1 ? TO_DEVICE : TO_HOST ) ) return error( fault );
  if( kind == 1 ) toDevice += n; else toHost += n;
  if( odd != 0 ) return error( 1 );
  if( dry ) return 0;
  std::memcpy( d, s, n );
  return 0;
}
static int fill( void * d, int v, size_t n )
{
  if( failed || struck( ALLOC ) ) return error( fault );
  Block * b = find( d );
  if( b == nullptr || n > b->n ) { odd |= RANGE; return error( 1 ); }
  if( !dry ) std::memset( d, v, n );
  return 0;
}
static int release( void * p )
{
  if( p == nullptr || struck( ALLOC ) ) return failed ? error( fault ) : 0;
  Block * q = find( p );
  if( q == nullptr ) { odd |= FREE; return error( 1 ); }
  if( !dry ) std::free( q->p );
  q->p = nullptr;
  --live;
  return failed ? error( fault ) : 0;
}
static int launch( unsigned gx, unsigned gy, unsigned gz, unsigned bx, unsigned by, unsigned bz, void * * args )
{
  ++launches;
  if( gx * gy * gz * bx * by * bz != 1 ) odd |= GRID;
  if( failed || struck( REFUSED ) ) return error( fault );
  // the kernel fails on the device; the host learns of it later.  So does one that is given no memory to work on
  if( struck( RUNNING ) || struck( ALLOC ) ) { failed = 1; return 0; }
  if( body != nullptr && !dry ) body( args );
  return 0;
}
static int sync() { synced = 1; return failed ? error( fault ) : 0; }
// the last error of any call, which is forgotten unless the device itself has failed
static int latest( bool forget )
{
  int const e = failed && synced ? fault : last;
  if( forget ) last = 0;
  return e;
}
static char const * text( int e ) { return e == 0 ? "no error" : "the device fault"; }
static int state() { return odd | ( live != 0 ? UNFREED : 0 ); }
}
#ifdef __HIP__
#define API( x ) hip##x
#define APIT( x ) hip##x
#else
#define API( x ) cuda##x
#define APIT( x ) cuda##x
#endif
extern "C" {
APIT( Error_t ) API( Malloc )( void * * p, size_t n ) { return static_cast< APIT( Error_t ) >( model::alloc( p, n, 0 ) ); }
APIT( Error_t ) API( MallocManaged )( void * * p, size_t n, unsigned ) { return static_cast< APIT( Error_t ) >( model::alloc( p, n, 1 ) ); }
APIT( Error_t ) API( Memcpy )( void * d, void const * s, size_t n, APIT( MemcpyKind ) k ) { return static_cast< APIT( Error_t ) >( model::copy( d, s, n, static_cast< int >( k ) ) ); }
APIT( Error_t ) API( DeviceSynchronize )() { return static_cast< APIT( Error_t ) >( model::sync() ); }
APIT( Error_t ) API( MemcpyAsync )( void * d, void const * s, size_t n, APIT( MemcpyKind ) k, APIT( Stream_t ) ) { return static_cast< APIT( Error_t ) >( model::copy( d, s, n, static_cast< int >( k ) ) ); }
APIT( Error_t ) API( Memset )( void * d, int v, size_t n ) { return static_cast< APIT( Error_t ) >( model::fill( d, v, n ) ); }
APIT( Error_t ) API( StreamSynchronize )( APIT( Stream_t ) ) { return static_cast< APIT( Error_t ) >( model::sync() ); }
char const * API( GetErrorName )( APIT( Error_t ) e ) { return model::text( static_cast< int >( e ) ); }
APIT( Error_t ) API( GetLastError )() { return static_cast< APIT( Error_t ) >( model::latest( true ) ); }
APIT( Error_t ) API( PeekAtLastError )() { return static_cast< APIT( Error_t ) >( model::latest( false ) ); }
APIT( Error_t ) API( Free )( void * p ) { return static_cast< APIT( Error_t ) >( model::release( p ) ); }
char const * API( GetErrorString )( APIT( Error_t ) e ) { return model::text( static_cast< int >( e ) ); }
APIT( Error_t ) API( LaunchKernel )( void const *, dim3 g, dim3 b, void * * args, size_t, APIT( Stream_t ) )
{
  return static_cast< APIT( Error_t ) >( model::launch( g.x, g.y, g.z, b.x, b.y, b.z, args ) );
}
#ifdef __HIP__
#define PUSH __hipPushCallConfiguration
#define POP __hipPopCallConfiguration
void * * __hipRegisterFatBinary( void const * ) { static void * h; return &h; }
int __hipRegisterFunction( void * *, void const *, char *, char const *, unsigned, void *, void *, void *, void *, int * ) { return 0; }
void __hipRegisterVar( void * *, char *, char *, char const *, int, size_t, int, int ) {}
void __hipUnregisterFatBinary( void * * ) {}
char __hip_fatbin[1] = { 0 };
#else
#define PUSH __cudaPushCallConfiguration
#define POP __cudaPopCallConfiguration
#endif
unsigned PUSH( dim3 g, dim3 b, size_t, APIT( Stream_t ) )
{
  model::g[0] = g.x; model::g[1] = g.y; model::g[2] = g.z;
  model::b[0] = b.x; model::b[1] = b.y; model::b[2] = b.z;
  model::pending = 1;
  return 0;
}
unsigned POP( dim3 * g, dim3 * b, size_t * s, void * q )
{
  if( !model::pending ) model::odd |= model::NOCONF;
  model::pending = 0;
  *g = dim3( model::g[0], model::g[1], model::g[2] );
  *b = dim3( model::b[0], model::b[1], model::b[2] );
  *s = 0;
  *static_cast< void * * >( q ) = nullptr;
  return 0;
}
}

// the argument list of a launch as the kernel sees it: copies of the callable and of the pointer
template< typename L, typename D > static void with( void * * a )
{
  L f = *static_cast< L * >( a[0] );
  D * const d = *static_cast< D * * >( a[1] );
  if( model::find( d ) == nullptr ) { model::odd |= model::HOSTPTR; return; }
  f( d );
}
template< typename L > static void alone( void * * a ) { L f = *static_cast< L * >( a[0] ); f(); }
template< typename D, typename L > static void run( int n, D * data, L f, int flag )
{
  model::body = &with< L, D >;
  pmpl::genericKernelWrapper( n, data, f, flag != 0 );
}

// ------------------------------------------------------------------ entries
struct Wide { long a; double x[2]; signed char c; };

X int launch_int( int * data, int n, int k, int v, int fault, int where, int flag )
{
  model::reset( fault, where );
  run( n, data, [k, v] ( int * const d ) { cb_e1( d[k] ); d[k] = v; }, flag );
  return model::state() + 1000 * model::launches;
}
X int launch_all( int * data, int n, int v, int fault, int where, int flag )
{
  model::reset( fault, where );
  run( n, data, [n, v] ( int * const d ) { for( int i = 0; i < n; ++i ) d[i] = d[i] ^ v; }, flag );
  return model::state() + 1000 * model::launches;
}
X int launch_long( long * data, int n, long v, int fault, int where, int flag )
{
  model::reset( fault, where );
  run( n, data, [n, v] ( long * const d ) { d[n - 1] = v; if( n > 1 ) d[0] = d[n - 2]; }, flag );
  return model::state() + 1000 * model::launches;
}
X int launch_byte( signed char * data, int n, int v, int fault, int where, int flag )
{
  model::reset( fault, where );
  run( n, data, [n, v] ( signed char * const d ) { d[n - 1] = static_cast< signed char >( v ); }, flag );
  return model::state() + 1000 * model::launches;
}
X int launch_wide( long * a, signed char * c, int n, long v, int fault, int where, int flag )
{
  Wide w[4];
  for( int i = 0; i < 4; ++i ) w[i] = Wide{ a[i], { 1.0 * i, -2.5 }, c[i] };
  model::reset( fault, where );
  run( n, w, [n, v] ( Wide * const d ) { d[n - 1].a += v; d[n - 1].c = d[0].c; }, flag );
  for( int i = 0; i < 4; ++i ) { a[i] = w[i].a; c[i] = w[i].c; if( w[i].x[0] != 1.0 * i || w[i].x[1] != -2.5 ) return 1; }
  return model::state() + 1000 * model::launches;
}
// two launches, one after the other: the second sees what the first wrote
X int launch_twice( int * data, int n, int v, int flag )
{
  model::reset( 0, 0 );
  run( n, data, [n, v] ( int * const d ) { d[n - 1] = v; }, flag );
  run( n, data, [n] ( int * const d ) { d[0] = d[n - 1] - 1; }, flag );
  return model::state() + 1000 * model::launches;
}
X int launch_default( int * data, int n, int fault, int where )
{
  model::reset( fault, where );
  auto f = [n] ( int * const d ) { d[n - 1] = 7; };
  model::body = &with< decltype( f ), int >;
  pmpl::genericKernelWrapper( n, data, f );
  return model::state() + 1000 * model::launches;
}
// managed memory and the wrapper without data
X int launch_alone( int * o, int v, int fault, int where, int flag )
{
  model::reset( fault, where == 0 ? 0 : where + 2 );
  int * p = nullptr;
  deviceMallocManaged( &p, 3 * sizeof( int ) );
  if( model::find( p ) == nullptr || !model::find( p )->managed || model::find( p )->n < 3 * sizeof( int ) ) { model::odd |= model::UNMANAGED; return model::state(); }
  p[0] = p[1] = p[2] = 5;
  auto f = [p, v] () { cb_e1( v ); p[1] = v; };
  model::body = &alone< decltype( f ) >;
  pmpl::genericKernelWrapper( f, flag != 0 );
  o[0] = p[0]; o[1] = p[1]; o[2] = p[2];
  pmpl::deallocateData( p );
  return model::state() + 1000 * model::launches;
}
X int launch_alone_default( int v, int fault, int where )
{
  model::reset( fault, where == 0 ? 0 : where + 2 );
  auto f = [v] () { cb_e1( v ); };
  model::body = &alone< decltype( f ) >;
  pmpl::genericKernelWrapper( f );
  return model::state() + 1000 * model::launches;
}
// any element count: the extents of the runtime calls
template< typename D > static int extents( int n, unsigned long * o, int fault, int where, int flag )
{
  static D d[1];
  model::reset( fault, where );
  model::dry = 1;
  run( n, d, [n] ( D * const p ) { p[n - 1] = D(); }, flag );
  o[0] = model::toDevice;
  o[1] = model::toHost;
  return model::state() + 1000 * model::launches;
}
X int extents_byte( int n, unsigned long * o, int fault, int where, int flag ) { return extents< signed char >( n, o, fault, where, flag ); }
X int extents_int( int n, unsigned long * o, int fault, int where, int flag ) { return extents< int >( n, o, fault, where, flag ); }
X int extents_double( int n, unsigned long * o, int fault, int where, int flag ) { return extents< double >( n, o, fault, where, flag ); }
X int extents_wide( int n, unsigned long * o, int fault, int where, int flag ) { return extents< Wide >( n, o, fault, where, flag ); }
