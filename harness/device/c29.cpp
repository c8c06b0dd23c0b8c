// C29: the portability layer and the library in a device build. Compiled as CUDA or HIP code by clang,
// run on the emulated device of emu.cpp.
#include "vh.hpp"
#include "emu.hpp"
#include "workload.hpp"
#include <csignal>
#include <sys/wait.h>
#include <unistd.h>
using namespace vh;
namespace
{
struct Block24 { double a; int b; char c; };
struct Block96 { unsigned char x[96]; };
struct alignas( 16 ) Wide16 { unsigned u[4]; };
// Every byte of the data is changed in a way that shows how often it was done, and in which order.
template< typename T > SHIVA_HOST_DEVICE void transform( T * p, int n, unsigned salt )
{
  unsigned char * b = reinterpret_cast< unsigned char * >( p ); unsigned carry = salt;
  for ( size_t k = 0; k < size_t( n ) * sizeof( T ); ++k ) { carry = carry * 3 + b[k] + 1; b[k] = static_cast< unsigned char >( b[k] * 5 + carry ); }
}
template< typename T > struct Plain { int n; unsigned salt; SHIVA_HOST_DEVICE void operator()( T * p ) const { transform( p, n, salt ); } };
template< typename T > struct Changing { int n; unsigned salt; SHIVA_HOST_DEVICE void operator()( T * p ) { transform( p, n, salt ); salt = 0; n = -1; } };
template< typename T > struct Heavy { int n; unsigned salt; unsigned char more[900]; SHIVA_HOST_DEVICE void operator()( T * p ) const { unsigned s = 0; for ( unsigned char c : more ) { s = s * 31 + c; } transform( p, n, salt ^ s ); } };
template< typename T > struct DeviceOnly { int n; unsigned salt; SHIVA_DEVICE void operator()( T * p ) const { transform( p, n, salt ); } };
// the same without data: they work on memory the caller has on the device
template< typename T > struct PlainOn { T * p; int n; unsigned salt; SHIVA_HOST_DEVICE void operator()() const { transform( p, n, salt ); } };
template< typename T > struct ChangingOn { T * p; int n; unsigned salt; SHIVA_DEVICE void operator()() { transform( p, n, salt ); n = -1; } };
enum Failure { fTrap, fAssert, fNull, fWild, fHost, fStack, fHeap, fBounds, fCount };
char const * const failureName[] = { "trap", "assertion", "null pointer", "pointer outside device memory", "pointer to host memory", "pointer to the stack of the host", "pointer to the heap of the host", "index out of bounds" };
constexpr char const * failureText[] = { "unspecified launch failure", "unspecified launch failure", "illegal memory access", "illegal memory access", "illegal memory access", "illegal memory access", "illegal memory access", "unspecified launch failure" };
struct Fails
{
  int how; int at; int * p;
  SHIVA_DEVICE void go( int * data ) const
  {
    if ( data ) { data[0] = 77; }
    if ( how == fTrap ) { __builtin_trap(); }
    if ( how == fAssert ) { SHIVA_ASSERT_MSG( at < 0, "nothing is right: %d", at ); }
    if ( how == fNull ) { int volatile * q = nullptr; if ( at >= 0 ) { *q = 1; } }
    if ( how == fWild || how == fHost || how == fStack || how == fHeap ) { int volatile * q = p; *q = 1; }
    if ( how == fBounds ) { shiva::CArrayNd< int, 3, 4 > a{}; a( at, 2 ) = 1; if ( data ) { data[1] = a( 0, 0 ) + a( at - 1, 1 ); } else { printf( "%d", a( at - 1, 1 ) ); } }
  }
  SHIVA_DEVICE void operator()() const { go( nullptr ); }
  SHIVA_DEVICE void operator()( int * data ) const { go( data ); }
};

struct Watch      // one call of the layer is observed
{
  size_t live = emu::live(), runs = emu::runs(), events = emu::log().size(), misuse = emu::misuse().size();
  std::string check( size_t runsDue, bool mayLeak = false ) const
  {
    size_t launches = 0; 
    for ( size_t k = events; k < emu::log().size(); ++k )
    {
      emu::Event const & e = emu::log()[k];
      if ( e.kind == emu::eLaunch && !e.error ) { ++launches; if ( e.threads != 1 ) { return fmt( "a kernel was launched with %u threads", e.threads ); } }
    }
    if ( emu::misuse().size() != misuse ) { return emu::misuse()[misuse]; }
    if ( launches != runsDue ) { return fmt( "%zu launches instead of %zu", launches, runsDue ); }
    if ( emu::runs() - runs != runsDue ) { return fmt( "the callable ran %zu times before the return instead of %zu", emu::runs() - runs, runsDue ); }
    if ( !mayLeak && emu::live() != live ) { return fmt( "%zu device allocations before, %zu after", live, emu::live() ); }
    return "";
  }
};
void verdict( std::string const & what, std::string const & problem ) { if ( !problem.empty() ) { mon().fail( what.substr( 0, what.find( ':' ) ), what + ": " + problem ); } }

// A scenario in a process of its own; what it prints is collected.
struct Outcome { int status; std::string text, problem; };
template< typename F > Outcome child( F && f )
{
  int out[2], rep[2]; if ( pipe( out ) || pipe( rep ) ) { std::fprintf( stderr, "pipe\n" ); _exit( 64 ); }
  std::fflush( stdout ); std::fflush( stderr );
  pid_t const pid = fork(); if ( pid < 0 ) { std::fprintf( stderr, "fork\n" ); _exit( 64 ); }
  if ( pid == 0 )
  {
    dup2( out[1], 1 ); dup2( out[1], 2 ); close( out[0] ); close( rep[0] ); setvbuf( stdout, nullptr, _IOFBF, 1 << 16 );   // as where the output goes to a file: what is not flushed before an abort is lost
    for ( int sig : { SIGABRT, SIGSEGV, SIGILL, SIGTRAP } ) { std::signal( sig, SIG_DFL ); }
    emu::reset();
    std::string const p = f(); std::fflush( stdout );
    ssize_t w = write( rep[1], p.data(), p.size() ); (void)w; _exit( 0 );
  }
  close( out[1] ); close( rep[1] );
  Outcome o; char b[4096]; ssize_t n;
  while ( ( n = read( out[0], b, sizeof b ) ) > 0 ) { o.text.append( b, size_t( n ) ); }
  while ( ( n = read( rep[0], b, sizeof b ) ) > 0 ) { o.problem.append( b, size_t( n ) ); }
  close( out[0] ); close( rep[0] ); waitpid( pid, &o.status, 0 );
  mon().count( "processes watched" );
  return o;
}
bool has( std::string const & t, char const * w ) { return t.find( w ) != std::string::npos; }
std::string quiet( std::string const & text )
{
  std::string l = text; for ( char & c : l ) { c = char( std::tolower( static_cast< unsigned char >( c ) ) ); }
  return has( l, "fail" ) || has( l, "error" ) || has( l, "abort" ) ? "nothing failed, but it printed: " + text.substr( 0, 300 ) : "";
}
}
namespace
{
// ------------------------------------------------------------------ handing over data
template< typename T > std::string handOver( Rng & g, int n, int form, bool abortOnError )
{
  size_t const bytes = size_t( n ) * sizeof( T );
  T * host = static_cast< T * >( emu::hostPages( bytes ? bytes : 1, g.coin() ) );
  std::vector< unsigned char > before( bytes ), due;
  for ( size_t k = 0; k < bytes; ++k ) { before[k] = static_cast< unsigned char >( g.next() ); }
  if ( bytes ) { std::memcpy( host, before.data(), bytes ); }
  unsigned const salt = unsigned( g.next() );
  Heavy< T > heavy{ n, salt, {} }; unsigned s = 0; for ( unsigned char & c : heavy.more ) { c = static_cast< unsigned char >( g.next() ); s = s * 31 + c; }
  due.resize( bytes + sizeof( T ) ); if ( bytes ) { std::memcpy( due.data(), before.data(), bytes ); }
  { std::vector< T > d( size_t( n ) + 1 ); if ( bytes ) { std::memcpy( static_cast< void * >( d.data() ), before.data(), bytes ); } transform( d.data(), n, form == 3 ? salt ^ s : salt ); if ( bytes ) { std::memcpy( due.data(), d.data(), bytes ); } }
  Watch w;
  switch ( form )
  {
    case 0: abortOnError ? shiva::pmpl::genericKernelWrapper( n, host, Plain< T >{ n, salt } ) : shiva::pmpl::genericKernelWrapper( n, host, Plain< T >{ n, salt }, false ); break;
    case 1: { Plain< T > f{ n, salt }; shiva::pmpl::genericKernelWrapper( n, host, f, abortOnError ); break; }
    case 2: { Plain< T > const f{ n, salt }; shiva::pmpl::genericKernelWrapper( n, host, f, abortOnError ); break; }
    case 3: shiva::pmpl::genericKernelWrapper( n, host, heavy, abortOnError ); break;
    case 4: { Changing< T > f{ n, salt }; shiva::pmpl::genericKernelWrapper( n, host, f, abortOnError ); if ( f.n != n || f.salt != salt ) { return "the caller's callable was changed"; } break; }
    case 5: shiva::pmpl::genericKernelWrapper( n, host, [n, salt] SHIVA_DEVICE ( T * p ) { transform( p, n, salt ); }, abortOnError ); break;
    case 6: { auto const f = [=] SHIVA_HOST_DEVICE ( T * p ) { transform( p, n, salt ); }; shiva::pmpl::genericKernelWrapper( n, host, f, abortOnError ); break; }
    case 7: shiva::pmpl::genericKernelWrapper( n, host, DeviceOnly< T >{ n, salt }, abortOnError ); break;
    default: { unsigned left = salt; shiva::pmpl::genericKernelWrapper( n, host, [left, n] SHIVA_DEVICE ( T * p ) mutable { transform( p, n, left ); left = 0; }, abortOnError ); break; }
  }
  std::string problem = w.check( 1 );
  if ( problem.empty() && bytes && std::memcmp( host, due.data(), bytes ) != 0 )
  {
    size_t k = 0; unsigned char const * h = reinterpret_cast< unsigned char * >( host ); while ( h[k] == due[k] ) { ++k; }
    problem = fmt( "on return, byte %zu of %zu is %d; the callable makes it %d (it was %d)", k, bytes, h[k], due[k], before[k] );
  }
  emu::freeHostPages( host );
  return problem;
}
template< typename T > std::string onDeviceMemory( Rng & g, int n, int form, bool abortOnError )
{
  size_t const bytes = size_t( n ) * sizeof( T );
  std::vector< T > host( size_t( n ) + 1 ), due, back( size_t( n ) + 1 );
  for ( size_t k = 0; k < bytes; ++k ) { reinterpret_cast< unsigned char * >( host.data() )[k] = static_cast< unsigned char >( g.next() ); }
  unsigned const salt = unsigned( g.next() );
  due = host; transform( due.data(), n, salt );
  T * dev = nullptr;
  bool const macros = g.coin(), managed = macros && g.coin();     // the layer's own names for the device's calls
  if ( managed ) { deviceMallocManaged( &dev, bytes ); if ( bytes ) { std::memcpy( static_cast< void * >( dev ), host.data(), bytes ); } mon().count( "managed memory" ); }
  else if ( macros ) { deviceMalloc( &dev, bytes ); deviceMemCpy( dev, host.data(), bytes, deviceMemcpyHostToDevice ); }
  else
  {
#if defined( SHIVA_ENABLE_CUDA )
  cudaMalloc( &dev, bytes ); cudaMemcpy( dev, host.data(), bytes, cudaMemcpyHostToDevice );
#else
  hipMalloc( &dev, bytes ); hipMemcpy( dev, host.data(), bytes, hipMemcpyHostToDevice );
#endif
  }
  Watch w;
  switch ( form )
  {
    case 0: abortOnError ? shiva::pmpl::genericKernelWrapper( PlainOn< T >{ dev, n, salt } ) : shiva::pmpl::genericKernelWrapper( PlainOn< T >{ dev, n, salt }, false ); break;
    case 1: { PlainOn< T > const f{ dev, n, salt }; shiva::pmpl::genericKernelWrapper( f, abortOnError ); break; }
    case 2: { ChangingOn< T > f{ dev, n, salt }; shiva::pmpl::genericKernelWrapper( f, abortOnError ); if ( f.n != n ) { return "the caller's callable was changed"; } break; }
    case 3: shiva::pmpl::genericKernelWrapper( [dev, n, salt] SHIVA_DEVICE () { transform( dev, n, salt ); }, abortOnError ); break;
    default: { auto f = [=] SHIVA_HOST_DEVICE () { transform( dev, n, salt ); }; shiva::pmpl::genericKernelWrapper( f, abortOnError ); break; }
  }
  std::string problem = w.check( 1 );
  if ( managed ) { deviceDeviceSynchronize(); if ( bytes ) { std::memcpy( static_cast< void * >( back.data() ), dev, bytes ); } }
  else if ( macros ) { deviceMemCpy( back.data(), dev, bytes, deviceMemcpyDeviceToHost ); }
  else
  {
#if defined( SHIVA_ENABLE_CUDA )
  cudaMemcpy( back.data(), dev, bytes, cudaMemcpyDeviceToHost );
#else
  hipMemcpy( back.data(), dev, bytes, hipMemcpyDeviceToHost );
#endif
  }
  if ( problem.empty() && bytes && std::memcmp( static_cast< void * >( back.data() ), static_cast< void * >( due.data() ), bytes ) != 0 ) { problem = "the memory the callable works on does not hold what it wrote"; }
  size_t const live = emu::live();
  if ( managed ) { deviceFree( dev ); } else { shiva::pmpl::deallocateData( dev ); }
  if ( problem.empty() && emu::live() + ( dev ? 1 : 0 ) != live ) { problem = "deallocateData did not release the memory"; }
  return problem;
}
template< typename F > void quietly( std::string const & what, F && f )
{
  Outcome const o = child( f );
  if ( !WIFEXITED( o.status ) || WEXITSTATUS( o.status ) != 0 ) { verdict( what, fmt( "the process ended with wait status %d although nothing failed: %s", o.status, o.text.substr( 0, 300 ).c_str() ) ); return; }
  verdict( what, o.problem.empty() ? quiet( o.text ) : o.problem );
}
template< typename T > void batch( Rng & rng, char const * name )
{
  int const sizes[] = { 0, 1, 2, 3, 5, 17, 64, 255, 1000, 4096, 20000 };
  std::vector< uint64_t > seen;
  for ( int n : sizes )
  {
    uint64_t const seed = rng.next();
    for ( int r = 0; r < ( mon().thorough ? 40 : 6 ); ++r )
    {
      for ( int form = 0; form < 9; ++form ) { mon().eval( mix( mix( strHash( name ), unsigned( n ) * 64 + unsigned( form ) ), unsigned( r ) ), n > 0 ); }
      for ( int form = 0; form < 5; ++form ) { mon().eval( mix( mix( strHash( name ) + 1, unsigned( n ) * 64 + unsigned( form ) ), unsigned( r ) ), n > 0 ); }
      mon().count( "calls of the portability layer", 14 );
      at( fmt( "handing over %d elements of type %s", n, name ) );
      quietly( fmt( "data handed over: %d elements of type %s", n, name ), [&] () -> std::string {
        Rng g( seed + unsigned( r ) );
        int const extra = g.below( 3 ); std::vector< double * > others;
        for ( int k = 0; k < extra; ++k ) { double * p = nullptr;
#if defined( SHIVA_ENABLE_CUDA )
          cudaMalloc( &p, 80 );
#else
          hipMalloc( &p, 80 );
#endif
          others.push_back( p ); }
        // all forms in a random order, in one process: each follows others
        int order[14]; for ( int k = 0; k < 14; ++k ) { order[k] = k; } for ( int k = 13; k > 0; --k ) { std::swap( order[k], order[g.below( k + 1 )] ); }
        for ( int k : order )
        {
          bool const ab = g.coin();
          std::string const p = k < 9 ? handOver< T >( g, n, k, ab ) : onDeviceMemory< T >( g, n, k - 9, ab );
          if ( !p.empty() ) { return fmt( "%s callable %d: ", k < 9 ? "with data," : "without data,", k < 9 ? k : k - 9 ) + p; }
        }
        if ( int( emu::live() ) != extra ) { return fmt( "%d allocations of the caller, %zu left", extra, emu::live() ); }
        return "";
      } );
    }
  }
}
}
#if VH_PART == 0
VH_CASE( "data handed over" )
{
  batch< char >( rng, "char" ); batch< int >( rng, "int" ); batch< double >( rng, "double" ); batch< float >( rng, "float" );
  batch< short >( rng, "short" ); batch< Block24 >( rng, "a struct of 24 bytes" ); batch< Block96 >( rng, "a struct of 96 bytes" ); batch< Wide16 >( rng, "a struct aligned to 16 bytes" );
}
#elif VH_PART == 1
namespace
{
// what: 0 no data, 1 data. abort: 0 default (asks for it), 1 asked, 2 not asked
template< typename F > void call( int what, int abortMode, F const & f, int n, int * data )
{
  if ( what == 0 ) { if ( abortMode == 0 ) { shiva::pmpl::genericKernelWrapper( f ); } else { shiva::pmpl::genericKernelWrapper( f, abortMode == 1 ); } }
  else { if ( abortMode == 0 ) { shiva::pmpl::genericKernelWrapper( n, data, f ); } else { shiva::pmpl::genericKernelWrapper( n, data, f, abortMode == 1 ); } }
}
struct Adds { int by; SHIVA_DEVICE void operator()( int * p ) const { p[0] += by; p[1] -= by; } SHIVA_DEVICE void operator()() const { printf( "ran %d\n", by ); } };
void judge( std::string const & what, int abortMode, char const * text, Outcome const & o )
{
  bool const aborted = WIFSIGNALED( o.status ) && WTERMSIG( o.status ) == SIGABRT;
  mon().eval( strHash( what.c_str() ) ); mon().count( abortMode == 2 ? "failures that must not abort" : "failures that must abort" );
  if ( !aborted && !( WIFEXITED( o.status ) && WEXITSTATUS( o.status ) == 0 ) ) { verdict( what, fmt( "the process ended with wait status %d: %s", o.status, o.text.substr( 0, 300 ).c_str() ) ); return; }
  if ( abortMode != 2 && !aborted ) { verdict( what, "the program was asked to abort and went on; it printed: " + o.text.substr( 0, 300 ) ); return; }
  if ( abortMode == 2 && aborted ) { verdict( what, "the program aborted although it was not asked to" ); return; }
  if ( !has( o.text, text ) ) { verdict( what, fmt( "the failure (%s) is not reported; printed: ", text ) + o.text.substr( 0, 300 ) ); return; }
  if ( !o.problem.empty() ) { verdict( what, o.problem ); }
  if ( mon().wantSample( what.substr( 0, 12 ) ) ) { mon().sample( what + " -> " + ( aborted ? "abort" : "went on" ) + ", printed: " + o.text.substr( 0, 120 ) ); }
}
char const * const modeName[] = { "abort by default", "abort", "no abort" };
}
VH_CASE( "kernels that fail" )
{
#if defined( SHIVA_ENABLE_BOUNDS_CHECK )
  int const count = fCount;
#else
  int const count = fBounds;
#endif
  for ( int what = 0; what < 2; ++what ) { for ( int mode = 0; mode < 3; ++mode ) { for ( int how = 0; how < count; ++how )
  {
    std::string const name = fmt( "failing kernel: %s, %s, %s", what ? "with data" : "without data", failureName[how], modeName[mode] );
    at( name );
    int * const host = static_cast< int * >( emu::hostPages( 64, rng.coin() ) );
    judge( name, mode, failureText[how], child( [&] () -> std::string {
      // some successful calls first
      for ( int k = rng.below( 4 ); k > 0; --k ) { int d[2] = { 1, 2 }; shiva::pmpl::genericKernelWrapper( 2, d, Adds{ k } ); if ( d[0] != 1 + k ) { return "a call before the failing one went wrong"; } }
      for ( int k = 0; k < 4; ++k ) { host[k] = k; }
      int onStack[8] = {}; std::vector< int > onHeap( 8 );
      Fails const f{ how, how == fBounds ? 3 + rng.below( 5 ) : 1, how == fHost ? host + 8 : how == fStack ? onStack + 4 : how == fHeap ? onHeap.data() + 4 : reinterpret_cast< int * >( uintptr_t( 0x100000 ) ) };
      call( what, mode, f, 4, host );
      // the device is lost until it is reset: every further call reports that, too
      size_t const runs = emu::runs();
      int d[2] = { 5, 6 }; shiva::pmpl::genericKernelWrapper( 2, d, Adds{ 1 }, false );
      if ( emu::runs() != runs || d[0] != 5 ) { return "the harness expects a lost device"; }
#if defined( SHIVA_ENABLE_CUDA )
      cudaDeviceReset();
#else
      hipDeviceReset();
#endif
      shiva::pmpl::genericKernelWrapper( 2, d, Adds{ 1 } );
      return d[0] == 6 && d[1] == 5 ? "" : "a call after the reset of the device went wrong";
    } ) );
    emu::freeHostPages( host );
  } } }
}
VH_CASE( "a device that refuses" )
{
  enum { rLaunch, rMalloc, rIn, rOut, rSync, rNone, rCount };
  char const * const name[] = { "the launch fails", "no memory", "the copy to the device fails", "the copy from the device fails", "waiting fails", "no device" };
  char const * const text[] = { "no kernel image", "out of memory", "unknown error", "unknown error", "unspecified launch failure", "no CUDA-capable device" };
  for ( int what = 0; what < 2; ++what ) { for ( int mode = 0; mode < 3; ++mode ) { for ( int r = 0; r < rCount; ++r )
  {
    if ( what == 0 && ( r == rMalloc || r == rIn || r == rOut ) ) { continue; }
    std::string const n = fmt( "refusing device: %s, %s, %s", what ? "with data" : "without data", name[r], modeName[mode] );
    at( n );
    judge( n, mode, text[r], child( [&] () -> std::string {
      int d[2] = { 1, 2 };
      for ( int k = rng.below( 4 ); k > 0; --k ) { d[0] = 1; d[1] = 2; shiva::pmpl::genericKernelWrapper( 2, d, Adds{ k } ); if ( d[0] != 1 + k ) { return "a call before the failing one went wrong"; } }
      d[0] = 1; d[1] = 2;
      emu::Faults & f = emu::faults(); f.launches = r == rLaunch; f.mallocs = r == rMalloc; f.copiesIn = r == rIn; f.copiesOut = r == rOut; f.syncs = r == rSync; f.noDevice = r == rNone;
      size_t const misuse = emu::misuse().size(), runs = emu::runs(), live = emu::live();
      call( what, mode, Adds{ 40 }, 2, d );
      f = emu::Faults();
      if ( emu::misuse().size() != misuse ) { return emu::misuse()[misuse]; }
      if ( r != rSync && emu::live() != live ) { return "device memory was not released"; }
      if ( r != rOut && r != rSync && emu::runs() != runs ) { return "the callable ran although the call failed"; }
      if ( r != rSync && ( d[0] != 1 || d[1] != 2 ) ) { return "the caller's data changed although the call failed"; }
      if ( r == rSync ) { return ""; }
      // the device works again
      d[0] = 1; d[1] = 2; Watch w; shiva::pmpl::genericKernelWrapper( 2, d, Adds{ 3 } );
      std::string const p = w.check( 1 ); if ( !p.empty() ) { return "the call after the failing one: " + p; }
      return d[0] == 4 && d[1] == -1 ? "" : "the call after the failing one went wrong";
    } ) );
  } } }
}
namespace
{
struct Asserts { bool abortIt; SHIVA_DEVICE void operator()( int * p ) const { p[0] = 10; shivaAssertionFailed( "some/file.hpp", 4711, abortIt, "100%% of the %s are gone: %d", "marbles", 3 ); p[1] = 11; } };
struct Holds { int a; SHIVA_HOST_DEVICE void operator()( int * p ) const { SHIVA_ASSERT_MSG( a == 5, "not five" ); p[0] = a; } };
int const assertLine = __LINE__ + 1;
struct Broken { int a; SHIVA_HOST_DEVICE void operator()( int * p ) const { p[0] = a; SHIVA_ASSERT_MSG( a == 5, "not the number five" ); p[0] = a + 1; } };
}
VH_CASE( "assertions" )
{
  for ( int r = 0; r < 3; ++r )
  {
    int d[2] = { 0, 0 };
    quietly( "assertion that holds: in a kernel", [&] () -> std::string { Watch w; shiva::pmpl::genericKernelWrapper( 2, d, Holds{ 5 } ); std::string const p = w.check( 1 ); return !p.empty() ? p : d[0] == 5 ? "" : "the kernel did not finish"; } );
    judge( "failing assertion: in a kernel, asked to abort", 2, "unspecified launch failure", child( [&] () -> std::string { shiva::pmpl::genericKernelWrapper( 2, d, Asserts{ true }, false ); if ( emu::runs() ) { return "the kernel went on after the failed assertion"; } if ( !emu::misuse().empty() ) { return emu::misuse()[0]; } return ""; } ) );
    judge( "failing assertion: in a kernel, asked to abort, text", 2, "some/file.hpp:4711", child( [&] () -> std::string { shiva::pmpl::genericKernelWrapper( 2, d, Asserts{ true }, false ); return has( emu::output(), "of the" ) && has( emu::output(), "are gone" ) ? "" : "the message is not printed"; } ) );
    judge( "failing assertion: in a kernel, the file and line of the assertion", 1, fmt( ":%d]", assertLine ).c_str(), child( [&] () -> std::string { shiva::pmpl::genericKernelWrapper( 2, d, Broken{ 4 } ); return ""; } ) );
    judge( "failing assertion: in a kernel, the message of the assertion", 0, "not the number five", child( [&] () -> std::string { shiva::pmpl::genericKernelWrapper( 2, d, Broken{ 4 } ); return ""; } ) );
    judge( "failing assertion: in a kernel, not asked to abort", 2, "some/file.hpp:4711", child( [&] () -> std::string {
      int e[2] = { 0, 0 }; Watch w; shiva::pmpl::genericKernelWrapper( 2, e, Asserts{ false } );
      std::string const p = w.check( 1 ); return !p.empty() ? p : e[0] == 10 && e[1] == 11 ? "" : fmt( "the kernel left %d and %d instead of 10 and 11", e[0], e[1] ); } ) );
  }
}
#endif
#if VH_PART == 2
namespace wl
{
static void * g_box = nullptr; static size_t g_boxBytes = 0; static bool g_end = false;
void * hostBox( size_t bytes ) { if ( g_boxBytes != bytes ) { if ( g_box ) { emu::freeHostPages( g_box ); } g_end = !g_end; g_box = emu::hostPages( bytes, g_end ); g_boxBytes = bytes; } return g_box; }
}
VH_CASE( "evaluations in kernels" )
{
  int const rounds = mon().thorough ? 1000 : 150;
  for ( int k = 0; k < wl::g_count; ++k )
  {
    wl::Entry const & e = wl::g_ops[k];
    std::vector< unsigned char > in( e.inSize + 16 );
    for ( int r = 0; r < rounds; ++r )
    {
      at( fmt( "%s in a kernel", e.name ) );
      wl::G g( mon().seed * 100003 + uint64_t( k ) * 1009 + uint64_t( r ) );
      e.make( g, in.data() );
      wl::Out onHost, onDevice;
      e.run( in.data(), onHost );
      Watch w; size_t const before = emu::output().size();
      e.device( in.data(), onDevice );
      mon().eval( mix( uint64_t( k ), uint64_t( r ) ) ); mon().count( "evaluations in kernels" ); mon().count( "values compared", uint64_t( onHost.n ) );
      std::string p = w.check( 1 );
      if ( p.empty() && emu::output().size() != before ) { p = "it printed: " + emu::output().substr( before, 300 ); }
      int const d = wl::firstDifference( onHost, onDevice, e.cls );
      if ( p.empty() && onDevice.n < 0 ) { p = "its input was changed"; }
      else if ( p.empty() && d >= 0 ) { p = fmt( "result %d of %d is %.17g on the device, %.17g on the host", d, onHost.n, double( onDevice.v[d] ), double( onHost.v[d] ) ); }
      if ( !p.empty() ) { mon().fail( fmt( "evaluation/%s", e.name ), fmt( "%s, input %d: ", e.name, r ) + p ); break; }
      if ( mon().wantSample( e.name ) ) { mon().sample( fmt( "%s in a kernel: %d results, first %.17g on host and device", e.name, onHost.n, double( onHost.v[0] ) ) ); }
      if ( r % 64 == 63 ) { emu::log().clear(); }
    }
  }
  emu::log().clear();
}
#endif
