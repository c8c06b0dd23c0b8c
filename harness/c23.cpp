// C23: evaluations are pure. The value of every (operation, input) is first obtained in a process
// of its own that performs nothing else; then long histories repeat them in random orders, with
// inputs in read-only memory or in reused memory, outputs soiled in different ways, and objects
// whose content changes in between. Every result must equal the history-free one bit for bit.
#include "vh.hpp"
#include "shared.hpp"
#include <algorithm>
#include <cfenv>
#include <new>
#include <sys/mman.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
using namespace vh;
namespace
{
constexpr int K = wl::Objects< double >::KINDS, P = wl::Objects< double >::PARTS;
int g_pattern = 0;
void soil( void * p, size_t n ) { static unsigned char const pat[4] = { 0x00, 0xA5, 0xFF, 0x7F }; std::memset( p, pat[g_pattern & 3], n ); }

template< typename T > T * pages( size_t n ) { void * p = mmap( nullptr, n * sizeof( T ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ); if ( p == MAP_FAILED ) { std::fprintf( stderr, "mmap\n" ); _exit( 64 ); } return static_cast< T * >( p ); }

// An input of a workload operation: variant v < V are made, the rest mixes pieces of two of those.
constexpr int V = 8;
void makeInput( int op, int v, uint64_t seed, unsigned char * to )
{
  wl::Entry const & e = wl::g_ops[op];
  wl::G g( seed * 100003 + uint64_t( op ) * 1009 + uint64_t( v ) );
  if ( v < V ) { e.make( g, to ); return; }
  std::vector< unsigned char > a( e.inSize + 16 ), b( e.inSize + 16 );
  int const base = int( g.below( V ) ), other = int( g.below( V ) );
  makeInput( op, base, seed, a.data() ); makeInput( op, other, seed, b.data() );
  // v - V == 0: only the last piece differs; otherwise random pieces (fields are independent)
  unsigned const pieces = e.inSize / 16;
  for ( unsigned k = 0; k < pieces; ++k ) { bool const take = v == V ? k + 1 == pieces : v == V + 1 ? k == 0 : bool( g.next() & 1 ); if ( take ) { std::memcpy( &a[k * 16], &b[k * 16], 16 ); } }
  std::memcpy( to, a.data(), e.inSize );
}
constexpr int INPUTS = V + 4;
// State s of the shared objects: a random walk over the parts, so that neighbours differ in one part only.
template< typename R > void makeObjects( wl::Objects< R > & o, uint64_t seed, int s )
{
  wl::G g( seed * 31 + 5 ); o.fill( g );
  for ( int k = 1; k <= s; ++k ) { wl::G h( seed * 1000 + uint64_t( k ) ); o.fill( h, h.below( P ) ); }
}
constexpr int STATES = 14;
struct Task { int op, input, k1, k2; };
std::string nameOf( Task const & t ) { return t.op < wl::g_count ? std::string( wl::g_ops[t.op].name ) : fmt( "shared objects of type %d, evaluation %d", ( t.op - wl::g_count ) / K, ( t.op - wl::g_count ) % K ); }
}

VH_CASE( "histories" )
{
  uint64_t const seed = mon().seed;
  wl::g_dirty = soil;
  int const total = wl::g_count + 3 * K;
  std::vector< Task > tasks;
  for ( int op = 0; op < wl::g_count; ++op ) { for ( int i = 0; i < INPUTS; ++i ) { tasks.push_back( { op, i, 0, 0 } ); } }
  for ( int op = wl::g_count; op < total; ++op ) { for ( int s = 0; s < STATES; ++s ) { tasks.push_back( { op, s, rng.below( 12 ), rng.below( 12 ) } ); } }
  size_t const N = tasks.size();

  // inputs: one block per task (made read-only), and one block at a fixed address per operation (reused)
  size_t biggest = 0; for ( int k = 0; k < wl::g_count; ++k ) { biggest = std::max( biggest, size_t( wl::g_ops[k].inSize ) ); }
  size_t const stride = ( biggest + 15 ) / 16 * 16;
  unsigned char * fixedIn = pages< unsigned char >( stride * size_t( wl::g_count ) * INPUTS );
  for ( int op = 0; op < wl::g_count; ++op ) { for ( int i = 0; i < INPUTS; ++i ) { makeInput( op, i, seed, fixedIn + stride * size_t( op * INPUTS + i ) ); } }
  auto * od = pages< wl::Objects< double > >( STATES ); auto * of = pages< wl::Objects< float > >( STATES ); auto * ol = pages< wl::Objects< long double > >( STATES );
  for ( int s = 0; s < STATES; ++s ) { new ( od + s ) wl::Objects< double >; new ( of + s ) wl::Objects< float >; new ( ol + s ) wl::Objects< long double >; makeObjects( od[s], seed, s ); makeObjects( of[s], seed, s ); makeObjects( ol[s], seed, s ); }
  mprotect( fixedIn, stride * size_t( wl::g_count ) * INPUTS, PROT_READ );
  mprotect( od, sizeof( *od ) * STATES, PROT_READ ); mprotect( of, sizeof( *of ) * STATES, PROT_READ ); mprotect( ol, sizeof( *ol ) * STATES, PROT_READ );
  auto runFixed = [&] ( Task const & t, wl::Out & o ) {
    if ( t.op < wl::g_count ) { wl::g_ops[t.op].run( fixedIn + stride * size_t( t.op * INPUTS + t.input ), o ); return; }
    int const k = t.op - wl::g_count; wl::Objects< double > const & d = od[t.input]; wl::Objects< float > const & f = of[t.input]; wl::Objects< long double > const & l = ol[t.input];
    if ( k < K ) { d.run( k % K, t.k1, t.k2, o ); } else if ( k < 2 * K ) { f.run( k % K, t.k1, t.k2, o ); } else { l.run( k % K, t.k1, t.k2, o ); }
  };

  // 1. history-free values, each from a process of its own
  wl::Out * pure = pages< wl::Out >( N );
  int failed = 0;
  {
    constexpr int W = 8; int running = 0;
    auto reap = [&] { int st = 0; if ( wait( &st ) > 0 ) { --running; if ( !WIFEXITED( st ) || WEXITSTATUS( st ) != 0 ) { ++failed; } } };
    for ( size_t k = 0; k < N; ++k )
    {
      while ( running >= W ) { reap(); }
      at( "history-free: " + nameOf( tasks[k] ) );
      pid_t const pid = fork();
      if ( pid < 0 ) { std::fprintf( stderr, "fork\n" ); _exit( 64 ); }
      if ( pid == 0 ) { g_pattern = int( k ); wl::Out o; runFixed( tasks[k], o ); pure[k] = o; _exit( 0 ); }
      ++running;
    }
    while ( running > 0 ) { reap(); }
  }
  mon().count( "history-free processes", N );
  if ( failed ) { mon().fail( "died/history-free", fmt( "%d of %zu evaluations whose inputs are in read-only memory ended their process", failed, N ) ); return; }

  // 2. histories, in child processes so that each starts afresh
  struct Report { int bad, badInput, wrote, rounding; long long output; uint64_t steps, pairs, reused, readonly; Task t; int index; long double is, was; int prev; };
  Report * rep = pages< Report >( 64 );
  int const histories = mon().thorough ? 32 : 6;
  for ( int h = 0; h < histories; ++h )
  {
    Report & r = rep[h]; std::memset( &r, 0, sizeof r );
    char path[] = "/tmp/vchk-c23-XXXXXX"; int const fd = mkstemp( path ); if ( fd >= 0 ) { unlink( path ); }
    uint64_t const hseed = rng.next();
    std::fflush( stdout ); std::fflush( stderr );
    pid_t const pid = fork();
    if ( pid < 0 ) { std::fprintf( stderr, "fork\n" ); _exit( 64 ); }
    if ( pid == 0 )
    {
      if ( fd >= 0 ) { dup2( fd, 1 ); }
      Rng g( hseed );
      std::vector< unsigned char > reuse( stride + 64 ); unsigned char * const slot = reuse.data() + ( 64 - reinterpret_cast< uintptr_t >( reuse.data() ) % 64 ) % 64;
      auto * wd = new wl::Objects< double >; auto * wf = new wl::Objects< float >; auto * wll = new wl::Objects< long double >;
      using ID = typename wl::Objects< double >::Image; using IF = typename wl::Objects< float >::Image; using IL = typename wl::Objects< long double >::Image;
      static ID id1, id2; static IF if1, if2; static IL il1, il2;
      int state = -1, prev = -1; std::unordered_set< uint64_t > pairs;
      int const mode = h % 3;     // 0: anything after anything; 1: few operations, close inputs; 2: one operation at a time
      size_t focus[3] = { 0, 0, 0 };
      int const steps = 4000 * ( mon().scale < 8 ? 4 + mon().scale : 12 );
      for ( int s = 0; s < steps; ++s )
      {
        size_t k = size_t( g.below( int( N ) ) );
        if ( mode == 1 ) { if ( s % 50 == 0 ) { for ( size_t & f : focus ) { f = size_t( g.below( total ) ); } } int const op = int( focus[g.below( 3 )] ); k = op < wl::g_count ? size_t( op * INPUTS + g.below( INPUTS ) ) : size_t( wl::g_count * INPUTS + ( op - wl::g_count ) * STATES + g.below( STATES ) ); }
        if ( mode == 2 ) { int const op = ( s / 30 * 7 + h ) % total; k = op < wl::g_count ? size_t( op * INPUTS + g.below( INPUTS ) ) : size_t( wl::g_count * INPUTS + ( op - wl::g_count ) * STATES + g.below( STATES ) ); }
        Task const & t = tasks[k];
        g_pattern = g.below( 4 ); g_pattern += 0;
        wl::Out o; bool kept = true;
        if ( g.below( 3 ) == 0 ) { runFixed( t, o ); ++r.readonly; }
        else if ( t.op < wl::g_count )
        {
          wl::Entry const & e = wl::g_ops[t.op]; unsigned char const * from = fixedIn + stride * size_t( t.op * INPUTS + t.input );
          std::memset( slot + e.inSize, 0x5A, 16 ); std::memcpy( slot, from, e.inSize ); e.run( slot, o ); ++r.reused;
          kept = std::memcmp( slot, from, e.inSize ) == 0; for ( int b = 0; b < 16; ++b ) { kept = kept && slot[e.inSize + size_t( b )] == 0x5A; }
        }
        else
        {
          // one set of objects at fixed addresses, changed part by part
          if ( state != t.input ) { if ( t.input > state && state >= 0 && t.input - state < 3 ) { for ( int q = state + 1; q <= t.input; ++q ) { wl::G a( seed * 1000 + uint64_t( q ) ); int const part = a.below( P ); wl::G b( seed * 1000 + uint64_t( q ) ); (void)b.below( P ); wl::G c( seed * 1000 + uint64_t( q ) ); (void)c.below( P ); wd->fill( a, part ); wf->fill( b, part ); wll->fill( c, part ); } } else { makeObjects( *wd, seed, t.input ); makeObjects( *wf, seed, t.input ); makeObjects( *wll, seed, t.input ); } state = t.input; }
          int const q = t.op - wl::g_count;
          wl::Objects< double > const & cd = *wd; wl::Objects< float > const & cf = *wf; wl::Objects< long double > const & cl = *wll;
          if ( q < K ) { wd->image( id1 ); cd.run( q % K, t.k1, t.k2, o ); wd->image( id2 ); kept = wl::Objects< double >::same( id1, id2 ); }
          else if ( q < 2 * K ) { wf->image( if1 ); cf.run( q % K, t.k1, t.k2, o ); wf->image( if2 ); kept = wl::Objects< float >::same( if1, if2 ); }
          else { wll->image( il1 ); cl.run( q % K, t.k1, t.k2, o ); wll->image( il2 ); kept = wl::Objects< long double >::same( il1, il2 ); }
          ++r.reused;
        }
        ++r.steps; pairs.insert( uint64_t( prev + 1 ) * 100000 + uint64_t( t.op ) );
        if ( !kept && !r.wrote ) { r.wrote = 1; r.t = t; r.prev = prev; }
        if ( std::fegetround() != FE_TONEAREST && !r.rounding ) { r.rounding = 1; r.t = t; }
        if ( !wl::same( o, pure[k] ) && !r.bad && !r.wrote && !r.rounding )
        {
          int d = 0; while ( d < o.n && d < pure[k].n && std::memcmp( &o.v[d], &pure[k].v[d], 10 ) == 0 ) { ++d; }
          r.bad = 1; r.t = t; r.index = d; r.is = o.v[d]; r.was = pure[k].v[d]; r.prev = prev;
        }
        if ( r.bad || r.wrote || r.rounding ) { break; }
        prev = t.op;
      }
      r.pairs = pairs.size();
      std::fflush( stdout ); r.output = fd >= 0 ? static_cast< long long >( lseek( fd, 0, SEEK_END ) ) : 0;
      delete wd; delete wf; delete wll;
      _exit( 0 );
    }
    int st = 0; waitpid( pid, &st, 0 ); if ( fd >= 0 ) { close( fd ); }
    for ( uint64_t s = 0; s < r.steps; ++s ) { mon().eval( mix( hseed, s ) ); }
    mon().count( "evaluations in histories", r.steps ); mon().count( "distinct (operation before, operation) pairs", r.pairs ); mon().count( "inputs in reused memory", r.reused ); mon().count( "inputs in read-only memory", r.readonly );
    std::string const before = r.prev >= 0 ? nameOf( { r.prev, 0, 0, 0 } ) : "nothing";
    if ( !WIFEXITED( st ) || WEXITSTATUS( st ) != 0 ) { mon().fail( "died/history", fmt( "history %d ended with wait status %d after %llu evaluations", h, st, (unsigned long long)r.steps ) ); }
    else if ( r.wrote ) { mon().fail( "input-changed/" + nameOf( r.t ), fmt( "%s changed its input (input %d)", nameOf( r.t ).c_str(), r.t.input ) ); }
    else if ( r.rounding ) { mon().fail( "rounding/" + nameOf( r.t ), nameOf( r.t ) + " changed the rounding mode" ); }
    else if ( r.bad ) { mon().fail( "history/" + nameOf( r.t ), fmt( "%s: result %d for input %d is %.19Lg in a process of its own and %.19Lg as evaluation %llu of history %d (just before: %s)", nameOf( r.t ).c_str(), r.index, r.t.input, r.was, r.is, (unsigned long long)r.steps, h, before.c_str() ) ); }
    else if ( r.output > 0 ) { mon().fail( "output", fmt( "evaluations wrote %lld bytes to the standard output", r.output ) ); }
  }
  mon().sample( fmt( "%zu history-free values of %d operations; %d histories", N, total, histories ) );
}
