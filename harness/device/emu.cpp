// A CUDA/HIP runtime on the CPU that watches its caller. Device memory cannot be touched outside a
// kernel or a copy, the harness's host memory cannot be touched inside a kernel, every allocation is
// surrounded by inaccessible pages, work is only done when the program waits for it, and errors of
// kernels stick until the device is reset, as on real hardware.
#include "emu_api.h"
#include "emu.hpp"
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <functional>
#include <fcntl.h>
#include <map>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
#ifdef EMU_HIP
#define E( x ) EMU_CAT( hip, x )
#define E__( x ) EMU_CAT( __hip, x )
#else
#define E( x ) EMU_CAT( cuda, x )
#define E__( x ) EMU_CAT( __cuda, x )
#endif
namespace emu
{
struct Block { unsigned char * base; size_t mapped; unsigned char * p; size_t n; bool managed; };
struct Kernel { std::string name; void ( *call )( void ** ) = nullptr; int n = 0; long long const * sizes = nullptr; };
struct State
{
  std::vector< Event > log; std::vector< std::string > misuse; std::string output; Faults faults;
  std::map< void const *, Block > blocks; std::map< void const *, Block > host;
  std::map< void const *, Kernel > kernels; std::vector< std::function< void() > > queue;
  int sticky = 0, last = 0; size_t runs = 0; unsigned allocations = 0; size_t shown = 0;
};
static State & s() { static State * x = new State; return *x; }
// What is used while a kernel runs lives in static memory: the kernel has a stack of its own, and the
// program's stack and heap cannot be touched meanwhile.
static struct
{
  bool in; unsigned sreg[12]; sigjmp_buf back; int caught; void ( *call )( void ** ); void * args[64]; unsigned char copies[1 << 16]; size_t total; dim3 g, b; unsigned done;
  ucontext_t mainContext, kernelContext; unsigned char * stack, * signalStack; struct { char * lo, * hi; } host[16]; int hosts;
  char printed[1 << 16]; size_t printedSize; bool badPrint;
} r;
static constexpr size_t STACK = size_t( 1 ) << 22;
std::vector< Event > & log() { return s().log; }
std::vector< std::string > & misuse() { return s().misuse; }
std::string & output() { return s().output; }
size_t live() { return s().blocks.size(); }
size_t runs() { return s().runs; }
Faults & faults() { return s().faults; }
bool inKernel() { return r.in; }

static constexpr unsigned char TAIL = 0xC7;
static Block map( size_t n, bool atEnd, bool fill )
{
  size_t const page = 4096, body = ( n + page - 1 ) / page * page + ( n == 0 ? page : 0 );
  unsigned char * base = static_cast< unsigned char * >( mmap( nullptr, body + 2 * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ) );
  if ( base == MAP_FAILED ) { std::fprintf( stderr, "emu: mmap\n" ); _exit( 64 ); }
  mprotect( base + page, body, PROT_READ | PROT_WRITE );
  if ( fill ) { std::memset( base + page, TAIL, body ); }
  unsigned char * p = base + page + ( atEnd ? ( body - n ) / 16 * 16 : 0 );
  if ( fill ) { for ( size_t i = 0; i < n; ++i ) { p[i] = static_cast< unsigned char >( 0x91 + i * 7 ); } }
  return { base, body + 2 * page, p, n, false };
}
static void access( Block const & b, bool on ) { mprotect( b.base + 4096, b.mapped - 8192, on ? PROT_READ | PROT_WRITE : PROT_NONE ); }
static void checkTail( Block const & b )      // call while accessible
{
  for ( unsigned char const * q = b.base + 4096; q < b.base + b.mapped - 4096; ++q )
  {
    if ( q == b.p && b.n ) { q += b.n - 1; continue; }
    if ( *q != TAIL ) { s().misuse.push_back( "bytes beside a device allocation of " + std::to_string( b.n ) + " bytes were overwritten" ); return; }
  }
}
void * hostPages( size_t n, bool atEnd ) { Block b = map( n, atEnd, false ); s().host[b.p] = b; return b.p; }
void freeHostPages( void * p ) { auto it = s().host.find( p ); if ( it != s().host.end() ) { munmap( it->second.base, it->second.mapped ); s().host.erase( it ); } }
static Block * find( void const * p )
{
  for ( auto & b : s().blocks ) { unsigned char const * q = static_cast< unsigned char const * >( p ); if ( q >= b.second.base && q < b.second.base + b.second.mapped ) { return &b.second; } }
  return nullptr;
}
static int fail( int e ) { if ( e ) { s().last = e; } return e; }
static int sticky() { if ( s().faults.noDevice ) { return fail( E( ErrorNoDevice ) ); } return s().sticky ? fail( s().sticky ) : 0; }

static void onFault( int sig, siginfo_t *, void * )
{
  if ( r.in ) { r.caught = sig; siglongjmp( r.back, 1 ); }
  std::signal( sig, SIG_DFL ); raise( sig );
}
static void world( bool kernel )
{
  for ( auto & b : s().blocks ) { if ( !b.second.managed ) { access( b.second, kernel ); } }
  for ( auto & b : s().host ) { access( b.second, !kernel ); }
}
// the program's own stack and heap
static void findHost()
{
  static char text[1 << 18]; int const fd = open( "/proc/self/maps", O_RDONLY ); size_t n = 0; ssize_t k;
  if ( fd < 0 ) { std::fprintf( stderr, "emu: maps\n" ); _exit( 64 ); }
  while ( n + 1 < sizeof text && ( k = read( fd, text + n, sizeof text - 1 - n ) ) > 0 ) { n += size_t( k ); }
  close( fd ); text[n] = 0; r.hosts = 0;
  for ( char * l = text; *l; )
  {
    char * e = std::strchr( l, '\n' ); if ( !e ) { break; } *e = 0;
    if ( ( std::strstr( l, "[stack]" ) || std::strstr( l, "[heap]" ) ) && r.hosts < 16 ) { char * q; r.host[r.hosts].lo = reinterpret_cast< char * >( std::strtoull( l, &q, 16 ) ); r.host[r.hosts].hi = reinterpret_cast< char * >( std::strtoull( q + 1, nullptr, 16 ) ); ++r.hosts; }
    l = e + 1;
  }
}
static void hostAccess( int prot ) { for ( int k = 0; k < r.hosts; ++k ) { mprotect( r.host[k].lo, size_t( r.host[k].hi - r.host[k].lo ), prot ); } }
static void kernelMain()
{
  hostAccess( PROT_NONE );
  if ( sigsetjmp( r.back, 1 ) == 0 )
  {
    r.in = true;
    for ( size_t t = 0; t < r.total; ++t )
    {
      size_t w = t; unsigned * q = r.sreg;
      q[0] = w % r.b.x; w /= r.b.x; q[1] = w % r.b.y; w /= r.b.y; q[2] = w % r.b.z; w /= r.b.z; q[3] = w % r.g.x; w /= r.g.x; q[4] = w % r.g.y; w /= r.g.y; q[5] = unsigned( w );
      q[6] = r.b.x; q[7] = r.b.y; q[8] = r.b.z; q[9] = r.g.x; q[10] = r.g.y; q[11] = r.g.z;
      r.call( r.args ); ++r.done;
    }
  }
  r.in = false;
  hostAccess( PROT_READ | PROT_WRITE );
}
static void runKernel( Kernel const & k, dim3 g, dim3 b, std::vector< std::vector< unsigned char > > const & args )
{
  if ( s().sticky ) { return; }
  if ( !r.stack )
  {
    r.stack = static_cast< unsigned char * >( mmap( nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 ) );
    r.signalStack = static_cast< unsigned char * >( mmap( nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 ) );
    mprotect( r.stack, 4096, PROT_NONE );
  }
  static struct sigaction old[5]; int const sigs[5] = { SIGSEGV, SIGILL, SIGTRAP, SIGBUS, SIGFPE };
  stack_t ss; std::memset( &ss, 0, sizeof ss ); ss.ss_sp = r.signalStack; ss.ss_size = 1 << 16; sigaltstack( &ss, nullptr );
  for ( int i = 0; i < 5; ++i ) { struct sigaction a; std::memset( &a, 0, sizeof a ); a.sa_sigaction = onFault; a.sa_flags = SA_SIGINFO | SA_NODEFER | SA_ONSTACK; sigaction( sigs[i], &a, &old[i] ); }
  size_t at = 0;
  for ( size_t i = 0; i < args.size(); ++i )
  {
    at = ( at + 255 ) / 256 * 256;
    if ( i >= 64 || at + args[i].size() > sizeof r.copies ) { std::fprintf( stderr, "emu: too many kernel arguments\n" ); _exit( 64 ); }
    std::memcpy( r.copies + at, args[i].data(), args[i].size() ); r.args[i] = r.copies + at; at += args[i].size();
  }
  r.call = k.call; r.g = g; r.b = b; r.total = size_t( g.x ) * g.y * g.z * b.x * b.y * b.z; r.done = 0; r.caught = 0; r.printedSize = 0; r.badPrint = false;
  Event e{ eRun, nullptr, nullptr, 0, 0, 0, k.name, 0 };
  world( true ); findHost();
  getcontext( &r.kernelContext ); r.kernelContext.uc_stack.ss_sp = r.stack; r.kernelContext.uc_stack.ss_size = STACK; r.kernelContext.uc_link = &r.mainContext;
  makecontext( &r.kernelContext, kernelMain, 0 ); swapcontext( &r.mainContext, &r.kernelContext );
  s().runs += r.done; e.threads = r.done; s().output.append( r.printed, r.printedSize );
  if ( r.badPrint ) { s().misuse.push_back( "printf in a kernel without the arguments its format asks for" ); }
  if ( r.caught ) { s().sticky = r.caught == SIGSEGV || r.caught == SIGBUS ? E( ErrorIllegalAddress ) : E( ErrorLaunchFailure ); e.error = s().sticky; }
  for ( auto & x : s().blocks ) { if ( !x.second.managed ) { checkTail( x.second ); } }
  world( false );
  for ( int i = 0; i < 5; ++i ) { sigaction( sigs[i], &old[i], nullptr ); }
  s().log.push_back( e );
}
static void drain() { auto q = std::move( s().queue ); s().queue.clear(); for ( auto & f : q ) { f(); } }
static void flush() { if ( s().shown < s().output.size() ) { std::fwrite( s().output.data() + s().shown, 1, s().output.size() - s().shown, stdout ); std::fflush( stdout ); s().shown = s().output.size(); } }
void reset()
{
  s().queue.clear();
  for ( auto & b : s().blocks ) { munmap( b.second.base, b.second.mapped ); }
  s().blocks.clear(); s().sticky = s().last = 0; s().faults = Faults(); s().log.clear(); s().misuse.clear(); s().output.clear(); s().shown = 0; s().runs = 0;
}
static int allocate( void ** p, size_t n, bool managed )
{
  Event e{ eMalloc, nullptr, nullptr, n, managed, 0, "", 0 };
  e.error = sticky();
  if ( !e.error && s().faults.mallocs > 0 ) { --s().faults.mallocs; e.error = fail( E( ErrorMemoryAllocation ) ); }
  if ( !e.error && n > ( size_t( 1 ) << 34 ) ) { e.error = fail( E( ErrorMemoryAllocation ) ); }
  if ( !e.error )
  {
    if ( n == 0 ) { *p = nullptr; }
    else { Block b = map( n, ++s().allocations & 1, true ); b.managed = managed; if ( !managed ) { access( b, false ); } s().blocks[b.p] = b; *p = b.p; e.a = b.p; }
  }
  s().log.push_back( e ); return e.error;
}
static int release( void * p )
{
  Event e{ eFree, p, nullptr, 0, 0, 0, "", 0 };
  drain(); flush();
  e.error = sticky();
  if ( p )
  {
    auto it = s().blocks.find( p );
    if ( it == s().blocks.end() ) { s().misuse.push_back( "device memory released that is not allocated" ); if ( !e.error ) { e.error = fail( E( ErrorInvalidValue ) ); } }
    else { if ( it->second.managed == false ) { access( it->second, true ); } checkTail( it->second ); munmap( it->second.base, it->second.mapped ); s().blocks.erase( it ); }
  }
  s().log.push_back( e ); return e.error;
}
static int doCopy( void * d, void const * src, size_t n, int k )
{
  Event e{ eCopy, d, src, n, k, 0, "", 0 };
  Block * to = find( d ), * from = find( src );
  auto wrong = [&] ( std::string const & m, int code ) { s().misuse.push_back( m ); e.error = fail( code ); };
  e.error = sticky();
  if ( !e.error && n > 0 )
  {
    int const is = ( from && !from->managed ? 2 : 0 ) + ( to && !to->managed ? 1 : 0 );
    bool const fromAny = from && from->managed, toAny = to && to->managed;
    if ( k != E( MemcpyDefault ) && ( ( !fromAny && ( k >> 1 ) != ( is >> 1 ) ) || ( !toAny && ( k & 1 ) != ( is & 1 ) ) ) ) { wrong( "a copy of kind " + std::to_string( k ) + " between memory of kind " + std::to_string( is ) + " (1: host to device, 2: device to host)", E( ErrorInvalidMemcpyDirection ) ); }
    else if ( to && ( static_cast< unsigned char * >( d ) < to->p || static_cast< unsigned char * >( d ) + n > to->p + to->n ) ) { wrong( "a copy of " + std::to_string( n ) + " bytes into a device allocation of " + std::to_string( to->n ), E( ErrorInvalidValue ) ); }
    else if ( from && ( static_cast< unsigned char const * >( src ) < from->p || static_cast< unsigned char const * >( src ) + n > from->p + from->n ) ) { wrong( "a copy of " + std::to_string( n ) + " bytes from a device allocation of " + std::to_string( from->n ), E( ErrorInvalidValue ) ); }
    else if ( to && !from && s().faults.copiesIn > 0 ) { --s().faults.copiesIn; e.error = fail( E( ErrorUnknown ) ); }
    else if ( from && !to && s().faults.copiesOut > 0 ) { --s().faults.copiesOut; e.error = fail( E( ErrorUnknown ) ); }
    else
    {
      if ( to && !to->managed ) { access( *to, true ); } if ( from && from != to && !from->managed ) { access( *from, true ); }
      std::memmove( d, src, n );
      if ( to && !to->managed ) { access( *to, false ); } if ( from && from != to && !from->managed ) { access( *from, false ); }
    }
  }
  s().log.push_back( e ); return e.error;
}
static int synchronize()
{
  Event e{ eSync, nullptr, nullptr, 0, 0, 0, "", 0 };
  if ( s().faults.noDevice ) { e.error = fail( E( ErrorNoDevice ) ); s().log.push_back( e ); return e.error; }
  drain(); flush();
  if ( s().faults.syncs > 0 && !s().sticky ) { --s().faults.syncs; s().sticky = E( ErrorLaunchFailure ); }
  e.error = sticky(); s().log.push_back( e ); return e.error;
}
static thread_local struct { dim3 g, b; size_t sh; void * st; } g_config;
}
using namespace emu;
#define R( x ) return static_cast< EMU_ERROR >( x )
extern "C" {
EMU_ERROR E( Malloc )( void ** p, size_t n ) { R( allocate( p, n, false ) ); }
EMU_ERROR E( MallocManaged )( void ** p, size_t n, unsigned ) { R( allocate( p, n, true ) ); }
EMU_ERROR E( Free )( void * p ) { R( release( p ) ); }
EMU_ERROR E( MallocHost )( void ** p, size_t n ) { *p = hostPages( n ? n : 1, false ); R( 0 ); }
EMU_ERROR E( HostMalloc )( void ** p, size_t n, unsigned ) { *p = hostPages( n ? n : 1, false ); R( 0 ); }
EMU_ERROR E( FreeHost )( void * p ) { freeHostPages( p ); R( 0 ); }
EMU_ERROR E( HostFree )( void * p ) { freeHostPages( p ); R( 0 ); }
EMU_ERROR E( Memcpy )( void * d, void const * src, size_t n, EMU_KIND k ) { drain(); flush(); R( doCopy( d, src, n, k ) ); }
EMU_ERROR E( MemcpyAsync )( void * d, void const * src, size_t n, EMU_KIND k, EMU_STREAM ) 
{
  int e = sticky();
  if ( !e && find( d ) && !find( src ) && s().faults.copiesIn > 0 ) { --s().faults.copiesIn; e = fail( E( ErrorUnknown ) ); }
  if ( !e && !find( d ) && find( src ) && s().faults.copiesOut > 0 ) { --s().faults.copiesOut; e = fail( E( ErrorUnknown ) ); }
  if ( !e ) { s().queue.push_back( [=] { doCopy( d, src, n, k ); } ); }
  R( e );
}
EMU_ERROR E( Memset )( void * d, int v, size_t n )
{
  drain(); int e = sticky(); Block * b = find( d );
  if ( !e && n && ( !b || static_cast< unsigned char * >( d ) < b->p || static_cast< unsigned char * >( d ) + n > b->p + b->n ) ) { s().misuse.push_back( "memset outside a device allocation" ); e = fail( E( ErrorInvalidValue ) ); }
  if ( !e && n ) { access( *b, true ); std::memset( d, v, n ); if ( !b->managed ) { access( *b, false ); } }
  s().log.push_back( { eSet, d, nullptr, n, v, e, "", 0 } ); R( e );
}
EMU_ERROR E( MemsetAsync )( void * d, int v, size_t n, EMU_STREAM ) { return E( Memset )( d, v, n ); }
EMU_ERROR E( DeviceSynchronize )() { R( synchronize() ); }
EMU_ERROR E( StreamCreate )( EMU_STREAM * st ) { *st = nullptr; R( sticky() ); }
EMU_ERROR E( StreamDestroy )( EMU_STREAM ) { R( sticky() ); }
EMU_ERROR E( StreamSynchronize )( EMU_STREAM ) { R( synchronize() ); }
EMU_ERROR E( EventCreate )( EMU_EVENT * e ) { *e = nullptr; R( sticky() ); }
EMU_ERROR E( EventDestroy )( EMU_EVENT ) { R( sticky() ); }
EMU_ERROR E( EventRecord )( EMU_EVENT, EMU_STREAM ) { R( sticky() ); }
EMU_ERROR E( EventSynchronize )( EMU_EVENT ) { R( synchronize() ); }
EMU_ERROR E( GetLastError )() { int const e = s().faults.noDevice ? int( E( ErrorNoDevice ) ) : s().sticky ? s().sticky : s().last; s().last = 0; R( e ); }
EMU_ERROR E( PeekAtLastError )() { R( s().faults.noDevice ? int( E( ErrorNoDevice ) ) : s().sticky ? s().sticky : s().last ); }
char const * E( GetErrorString )( EMU_ERROR e )
{
  switch ( int( e ) )
  {
    case 0: return "no error";
    case 1: return "invalid argument";
    case 2: return "out of memory";
    case 9: return "invalid configuration argument";
    case 21: return "invalid copy direction for memcpy";
    case 100: return "no CUDA-capable device is detected";
    case 209: return "no kernel image is available for execution on the device";
    case 700: return "an illegal memory access was encountered";
    case 719: return "unspecified launch failure";
    default: return "unknown error";
  }
}
char const * E( GetErrorName )( EMU_ERROR e ) { return E( GetErrorString )( e ); }
EMU_ERROR E( GetDevice )( int * d ) { *d = 0; R( sticky() ); }
EMU_ERROR E( SetDevice )( int ) { R( sticky() ); }
EMU_ERROR E( GetDeviceCount )( int * n ) { *n = s().faults.noDevice ? 0 : 1; R( sticky() ); }
EMU_ERROR E( DeviceReset )() { for ( auto & b : s().blocks ) { munmap( b.second.base, b.second.mapped ); } s().blocks.clear(); s().queue.clear(); s().sticky = s().last = 0; R( 0 ); }
unsigned E__( PushCallConfiguration )( dim3 g, dim3 b, size_t sh, EMU_STREAM st ) { g_config.g = g; g_config.b = b; g_config.sh = sh; g_config.st = st; return 0; }
EMU_ERROR E__( PopCallConfiguration )( dim3 * g, dim3 * b, size_t * sh, void * st ) { *g = g_config.g; *b = g_config.b; *sh = g_config.sh; *static_cast< void ** >( st ) = g_config.st; R( 0 ); }
EMU_ERROR E( LaunchKernel )( void const * f, dim3 g, dim3 b, void ** args, size_t, EMU_STREAM )
{
  Event e{ eLaunch, f, nullptr, 0, 0, 0, "", 0 };
  size_t const total = size_t( g.x ) * g.y * g.z * b.x * b.y * b.z;
  auto it = s().kernels.find( f );
  e.threads = unsigned( total ); e.name = it == s().kernels.end() ? "?" : it->second.name;
  e.error = sticky();
  if ( !e.error && s().faults.launches > 0 ) { --s().faults.launches; e.error = fail( E( ErrorNoKernelImageForDevice ) ); }
  if ( !e.error && ( total == 0 || size_t( b.x ) * b.y * b.z > 1024 ) ) { e.error = fail( E( ErrorInvalidConfiguration ) ); }
  if ( !e.error && ( it == s().kernels.end() || !it->second.call ) ) { e.error = fail( E( ErrorNoKernelImageForDevice ) ); s().misuse.push_back( "the device has no kernel " + e.name ); }
  if ( !e.error )
  {
    Kernel const & k = it->second;
    std::vector< std::vector< unsigned char > > copies;
    for ( int i = 0; i < k.n; ++i )
    {
      std::vector< unsigned char > v( size_t( k.sizes[i] ) ); std::memcpy( v.data(), args[i], v.size() ); copies.push_back( std::move( v ) );
    }
    s().queue.push_back( [=] { runKernel( k, g, b, copies ); } );
  }
  s().log.push_back( e ); R( e.error );
}
// registration: the "fat binary" of a translation unit is the path of its device code
void ** E__( RegisterFatBinary )( void * w )
{
  struct Wrapper { int magic, version; char const * data; void * unused; };
  std::string path( static_cast< Wrapper * >( w )->data );
  while ( !path.empty() && ( path.back() == '\n' || path.back() == ' ' ) ) { path.pop_back(); }
  void * h = dlopen( path.c_str(), RTLD_NOW | RTLD_LOCAL );
  if ( !h ) { std::fprintf( stderr, "emu: %s\n", dlerror() ); _exit( 64 ); }
  return static_cast< void ** >( h );
}
void E__( RegisterFatBinaryEnd )( void ** ) {}
void E__( UnregisterFatBinary )( void ** ) {}
int E__( RegisterFunction )( void ** h, void const * stub, char *, char const * name, int, void *, void *, void *, void *, int * )
{
  Kernel k; k.name = name;
  k.call = reinterpret_cast< void ( * )( void ** ) >( dlsym( h, ( k.name + "__emu" ).c_str() ) );
  if ( k.call ) { k.n = *static_cast< int * >( dlsym( h, ( k.name + "__emu_n" ).c_str() ) ); k.sizes = static_cast< long long * >( dlsym( h, ( k.name + "__emu_sizes" ).c_str() ) ); }
  s().kernels[stub] = k; return 0;
}
void E__( RegisterVar )( void **, char *, char *, char const *, int, size_t, int, int ) {}
// called by kernels
int emu_printf( char const * f, int n, EmuArg const * a )
{
  int used = 0;
  auto add = [] ( char const * x, size_t c ) { if ( r.printedSize + c < sizeof r.printed ) { std::memcpy( r.printed + r.printedSize, x, c ); r.printedSize += c; } };
  while ( *f )
  {
    if ( *f != '%' ) { add( f++, 1 ); continue; }
    if ( f[1] == '%' ) { add( "%", 1 ); f += 2; continue; }
    char spec[64] = "%"; size_t len = 1; ++f;
    while ( *f && std::strchr( "-+ #0123456789.*hljztL", *f ) )
    {
      if ( *f == '*' ) { if ( used < n && a[used].tag == 'i' ) { len += size_t( std::snprintf( spec + len, sizeof spec - len, "%lld", a[used++].i ) ); } else { r.badPrint = true; } }
      else if ( !std::strchr( "hljztL", *f ) && len < 40 ) { spec[len++] = *f; spec[len] = 0; }
      ++f;
    }
    char const c = *f; if ( c ) { ++f; }
    if ( used >= n ) { r.badPrint = true; continue; }
    EmuArg const & x = a[used++]; char b[512] = ""; int m = 0;
    bool const real = c && std::strchr( "eEfFgGaA", c ), text = c == 's', pointer = c == 'p';
    if ( real != ( x.tag == 'd' ) || ( text || pointer ) != ( x.tag == 'p' ) ) { r.badPrint = true; continue; }
    if ( real ) { spec[len++] = c; spec[len] = 0; m = std::snprintf( b, sizeof b, spec, x.d ); }
    else if ( text ) { char const * t = static_cast< char const * >( x.p ); add( t, std::strlen( t ) ); }
    else if ( pointer ) { add( "(pointer)", 9 ); }
    else if ( c == 'c' ) { b[0] = static_cast< char >( x.i ); m = 1; }
    else { spec[len++] = 'l'; spec[len++] = 'l'; spec[len++] = c; spec[len] = 0; m = std::snprintf( b, sizeof b, spec, x.i ); }
    if ( m > 0 ) { add( b, size_t( m ) ); }
  }
  return n;
}
unsigned emu_sreg( int which ) { return r.sreg[which]; }
}
