// C22: many threads evaluate at the same time, sharing read-only inputs and objects, each with
// outputs of its own. Monitors: ThreadSanitizer (in those builds) for the races; a bitwise
// comparison with a sequential run for the results. The library is cold when the threads start:
// the sequential run comes afterwards.
#include "vh.hpp"
#include "shared.hpp"
#include <algorithm>
#include <atomic>
#include <memory>
#include <thread>
#if defined( __x86_64__ )
#include <immintrin.h>
#define WL_PAUSE() _mm_pause()
#else
#define WL_PAUSE() ( void )0
#endif
using namespace vh;
namespace
{
struct Task { int op; int input; int k2; };     // op < count: workload; else shared objects
struct Line { Task t; wl::Out o; uint64_t begin, end; };
constexpr int INPUTS = 5;
struct World
{
  std::vector< std::vector< unsigned char > > in;       // per op, INPUTS inputs
  wl::Objects< double > * d; wl::Objects< float > * f; wl::Objects< long double > * l;
};
int ops() { return wl::g_count + 3 * wl::Objects< double >::KINDS; }
void perform( World const & w, Task const & t, wl::Out & o )
{
  constexpr int K = wl::Objects< double >::KINDS;
  if ( t.op < wl::g_count ) { wl::Entry const & e = wl::g_ops[t.op]; e.run( w.in[size_t( t.op )].data() + size_t( t.input ) * ( ( e.inSize + 15 ) / 16 * 16 ), o ); return; }
  int const k = t.op - wl::g_count, kind = k % K;
  wl::Objects< double > const & cd = *w.d; wl::Objects< float > const & cf = *w.f; wl::Objects< long double > const & cl = *w.l;
  if ( k < K ) { cd.run( kind, t.input, t.k2, o ); } else if ( k < 2 * K ) { cf.run( kind, t.input, t.k2, o ); } else { cl.run( kind, t.input, t.k2, o ); }
}
std::string nameOf( Task const & t ) { return t.op < wl::g_count ? wl::g_ops[t.op].name : fmt( "shared objects, evaluation %d of type %d", ( t.op - wl::g_count ) % wl::Objects< double >::KINDS, ( t.op - wl::g_count ) / wl::Objects< double >::KINDS ); }
World makeWorld( uint64_t seed )
{
  World w;
  for ( int k = 0; k < wl::g_count; ++k )
  {
    wl::Entry const & e = wl::g_ops[k]; size_t const stride = ( e.inSize + 15 ) / 16 * 16; w.in.emplace_back( stride * INPUTS );
    for ( int i = 0; i < INPUTS; ++i ) { wl::G g( seed * 100003 + uint64_t( k ) * 1009 + uint64_t( i ) ); e.make( g, w.in.back().data() + size_t( i ) * stride ); }
  }
  w.d = new wl::Objects< double >; w.f = new wl::Objects< float >; w.l = new wl::Objects< long double >;
  wl::G g( seed ); w.d->fill( g ); w.f->fill( g ); w.l->fill( g );
  return w;
}
// relaxed: orders nothing, so that the log hides no race
std::atomic< uint64_t > g_ticket{ 0 };
std::atomic< int > g_ready{ 0 }, g_go{ 0 };

// Every thread performs its list of tasks; all start together.
void together( World const & w, std::vector< std::vector< Task > > const & lists, std::vector< std::vector< Line > > & logs )
{
  int const n = int( lists.size() ); g_ready = 0; g_go = 0; logs.assign( size_t( n ), {} );
  std::vector< std::thread > threads;
  for ( int t = 0; t < n; ++t )
  {
    logs[size_t( t )].resize( lists[size_t( t )].size() );
    threads.emplace_back( [&, t] {
      auto & log = logs[size_t( t )]; auto const & list = lists[size_t( t )];
      g_ready.fetch_add( 1 ); while ( g_go.load() == 0 ) { std::this_thread::yield(); }
      for ( size_t k = 0; k < list.size(); ++k )
      {
        Line & l = log[k]; l.t = list[k];
        l.begin = g_ticket.fetch_add( 1, std::memory_order_relaxed );
        perform( w, list[k], l.o );
        l.end = g_ticket.fetch_add( 1, std::memory_order_relaxed );
        for ( int spin = list[k].k2 % 3 == 0 ? list[k].input * 16 : 0; spin > 0; --spin ) { WL_PAUSE(); }
      }
    } );
  }
  while ( g_ready.load() < n ) { std::this_thread::yield(); }
  g_go = 1;
  for ( auto & t : threads ) { t.join(); }
}
}

VH_CASE( "threads" )
{
  World const w = makeWorld( mon().seed );
  int const T = 8, total = ops();
  std::unordered_set< uint64_t > orders;
  uint64_t overlaps = 0, sameOverlaps = 0, executed = 0;
  std::vector< std::vector< Task > > lists; std::vector< std::vector< Line > > logs; std::vector< Line > all;
  std::map< std::pair< int, int >, wl::Out > expected; // key: op, input*64+k2
  auto settle = [&] ( char const * what, bool compare )
  {
    // offline: results, then the interleaving
    struct Ev { uint64_t ticket; int thread; bool begin; int op; }; std::vector< Ev > ev;
    for ( size_t t = 0; t < logs.size(); ++t ) { for ( Line const & l : logs[t] ) { ev.push_back( { l.begin, int( t ), true, l.t.op } ); ev.push_back( { l.end, int( t ), false, l.t.op } ); } }
    std::sort( ev.begin(), ev.end(), [] ( Ev const & a, Ev const & b ) { return a.ticket < b.ticket; } );
    uint64_t h = 7; std::vector< int > running( logs.size(), -1 );
    for ( Ev const & e : ev )
    {
      h = mix( h, uint64_t( e.thread * 2 + e.begin ) );
      if ( e.begin ) { bool any = false, same = false; for ( size_t t = 0; t < running.size(); ++t ) { if ( running[t] >= 0 ) { any = true; same = same || running[t] == e.op; } } overlaps += any; sameOverlaps += same; running[size_t( e.thread )] = e.op; } else { running[size_t( e.thread )] = -1; }
    }
    orders.insert( h );
    if ( !compare ) { return; }
    for ( auto const & log : logs ) { for ( Line const & l : log )
    {
      auto const key = std::make_pair( l.t.op, l.t.input * 64 + l.t.k2 );
      auto it = expected.find( key );
      if ( it == expected.end() ) { at( "sequential " + nameOf( l.t ) ); wl::Out o; perform( w, l.t, o ); it = expected.emplace( key, o ).first; }
      ++executed; mon().eval( mix( mix( uint64_t( l.t.op ), uint64_t( key.second ) ), uint64_t( h ) ) );
      if ( !wl::same( l.o, it->second ) )
      {
        int d = 0; while ( d < l.o.n && d < it->second.n && std::memcmp( &l.o.v[d], &it->second.v[d], 10 ) == 0 ) { ++d; }
        mon().fail( "result/" + nameOf( l.t ), fmt( "%s (%s): result %d is %.19Lg when 8 threads run and %.19Lg in a sequential run (input %d, choice %d)", nameOf( l.t ).c_str(), what, d, l.o.v[d], it->second.v[d], l.t.input, l.t.k2 ) );
      }
    } }
  };
  // 1. cold: each operation for the first time in this process, by all threads at once, with different inputs
  std::vector< int > perm( static_cast< size_t >( total ) ); for ( int k = 0; k < total; ++k ) { perm[size_t( k )] = k; }
  for ( int k = total - 1; k > 0; --k ) { std::swap( perm[size_t( k )], perm[size_t( rng.below( k + 1 ) )] ); }
  std::vector< std::vector< Line > > cold;
  at( "cold start" );
  for ( int c = 0; c < total; c += 2 )
  {
    lists.assign( T, {} );
    for ( int t = 0; t < T; ++t ) { for ( int k = c; k < c + 2 && k < total; ++k ) { int const op = perm[size_t( k )]; lists[size_t( t )].push_back( { op, op < wl::g_count ? ( t + 1 ) % INPUTS : t % 12, ( t * 5 ) % 12 } ); } }
    together( w, lists, logs );
    settle( "cold", false );
    for ( auto & l : logs ) { cold.push_back( l ); }
  }
  logs = cold; { auto const o = overlaps, s = sameOverlaps; settle( "cold", true ); overlaps = o; sameOverlaps = s; }
  mon().count( "cold first-time executions", uint64_t( total ) * T );
  // 2. the same operation on different inputs, over and over
  int const rounds = 20 * mon().scale;
  for ( int r = 0; r < rounds; ++r )
  {
    at( "same operation" );
    lists.assign( T, {} );
    for ( int k = 0; k < total; ++k )
    {
      int const op = ( k * 7 + r ) % total;
      for ( int t = 0; t < T; ++t ) { for ( int n = 0; n < 2; ++n ) { lists[size_t( t )].push_back( { op, op < wl::g_count ? rng.below( INPUTS ) : rng.below( 12 ), rng.below( 12 ) } ); } }
    }
    together( w, lists, logs ); settle( "same operation", true );
  }
  // 3. random mixes, few operations at a time, different thread counts
  for ( int r = 0; r < 150 * mon().scale; ++r )
  {
    at( "mixes" );
    int const threads = 2 + rng.below( 15 ); int pool[4]; for ( int & p : pool ) { p = rng.below( total ); }
    lists.assign( size_t( threads ), {} );
    for ( auto & l : lists ) { for ( int n = 0; n < 60; ++n ) { int const op = rng.below( 3 ) == 0 ? rng.below( total ) : pool[rng.below( 4 )]; l.push_back( { op, op < wl::g_count ? rng.below( INPUTS ) : rng.below( 12 ), rng.below( 12 ) } ); } }
    together( w, lists, logs ); settle( "mixes", true );
  }
  mon().count( "executions compared with the sequential run", executed ); mon().count( "executions that began while another ran", overlaps ); mon().count( "executions that began while the same operation ran", sameOverlaps ); mon().count( "distinct interleavings", orders.size() ); mon().count( "operations", uint64_t( total ) );
  mon().sample( fmt( "%d operations, %zu distinct global orders of begin and end events, %llu overlapping executions", total, orders.size(), (unsigned long long)overlaps ) );
  delete w.d; delete w.f; delete w.l;
}
