// C21: the whole workload, every input in a heap block of its exact size, the outputs' previous
// content poisoned. Compiled and run under ASan+UBSan, MSan (and valgrind); no std::string, so
// that nothing uninstrumented touches the data.
#include "shared.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <unistd.h>
#if defined( __has_feature )
#if __has_feature( memory_sanitizer )
#include <sanitizer/msan_interface.h>
#define WL_MSAN 1
#endif
#endif
extern "C" void __sanitizer_set_death_callback( void (*)( void ) ) __attribute__(( weak ));

namespace wl
{
struct ExactCase { char const * name; void ( *f )( G &, Out & ); ExactCase * next; ExactCase( char const * n, void ( *g )( G &, Out & ) ); };
static ExactCase * g_cases = nullptr;
ExactCase::ExactCase( char const * n, void ( *g )( G &, Out & ) ): name( n ), f( g ), next( g_cases ) { g_cases = this; }
}
static char g_where[512] = "(start)";
static void say() { char b[600]; int const n = std::snprintf( b, sizeof b, "\nVH-AT: %s\n", g_where ); if ( n > 0 ) { ssize_t const r = write( 2, b, size_t( n ) ); (void)r; } }
static unsigned long long g_runs = 0, g_values = 0, g_bytes = 0, g_ops = 0, g_distinct = 0, g_bad = 0, g_dirtied = 0, g_alone = 0;
static char g_fail[16][400]; static char g_key[16][120]; static int g_fails = 0;
static void fail( char const * key, char const * name, int i, char const * what )
{
  ++g_bad; if ( g_fails < 16 ) { std::snprintf( g_key[g_fails], sizeof g_key[0], "%s/%s", key, name ); std::snprintf( g_fail[g_fails], sizeof g_fail[0], "%s: result %d %s", name, i, what ); ++g_fails; }
}
// an open-addressing set of hashes
static unsigned long long * g_set; constexpr unsigned SETSIZE = 1u << 21;
static void distinct( unsigned long long h ) { if ( !h ) { h = 1; } for ( unsigned k = unsigned( h % SETSIZE ), n = 0; n < 64; ++n, k = ( k + 1 ) % SETSIZE ) { if ( g_set[k] == h ) { return; } if ( !g_set[k] ) { g_set[k] = h; ++g_distinct; return; } } }

static int g_pattern = 0;
static void soil( void * p, size_t n )
{
  ++g_dirtied;
#ifdef WL_MSAN
  __msan_poison( p, n );
#else
  static unsigned char const pat[3] = { 0xA5, 0xFF, 0x7F };
  std::memset( p, pat[g_pattern], n );
#endif
}
static void inspect( char const * name, wl::Out const & o )
{
  if ( o.n > wl::CAP ) { std::fprintf( stderr, "workload capacity\n" ); _exit( 64 ); }
  for ( int i = 0; i < o.n; ++i )
  {
#ifdef WL_MSAN
    if ( __msan_test_shadow( &o.v[i], 10 ) >= 0 ) { fail( "uninitialised", name, i, "was computed from uninitialised memory" ); }
#endif
    ++g_values;
  }
}
static unsigned long long hashBytes( void const * p, unsigned n, unsigned long long h ) { unsigned char const * c = static_cast< unsigned char const * >( p ); for ( unsigned i = 0; i < n; ++i ) { h = ( h ^ c[i] ) * 1099511628211ull; } return h; }

template< typename R > static void objects( char const * name, unsigned long long seed, int rounds )
{
  for ( int r = 0; r < rounds; ++r )
  {
    wl::G g( seed * 77 + unsigned( r ) );
    wl::Objects< R > * o = new wl::Objects< R >; o->fill( g );
    for ( int k = 0; k < wl::Objects< R >::KINDS; ++k )
    {
      std::snprintf( g_where, sizeof g_where, "shared objects of %s, evaluation %d, round %d", name, k, r );
      wl::Out * out = static_cast< wl::Out * >( std::malloc( sizeof( wl::Out ) ) ); new ( out ) wl::Out;
      o->run( k, g.below( 12 ), g.below( 12 ), *out ); inspect( name, *out ); ++g_runs; distinct( hashBytes( &r, sizeof r, 1469598103934665603ull ^ ( unsigned( k ) * 1000003ull + sizeof( R ) ) ) ); std::free( out );
    }
    delete o;
  }
}

// Array and index uses at the edges of what is valid.
template< typename I > static void edges( wl::Out & o )
{
  shiva::CArrayNd< double, 2, 3, 4 > a; for ( int k = 0; k < 24; ++k ) { a.data()[k] = k; }
  shiva::CArrayNd< double, 2, 3, 4 > const & c = a;
  I const one = I( 1 ), two = I( 2 ), three = I( 3 ), zero = I( 0 );
  o.put( a( one, two, three ) ); o.put( c( zero, zero, zero ) ); o.put( c[one][two][three] ); o.put( a[zero][two][zero] ); a( one, two, three ) = 5; a[one][two][three] = 7; o.put( c.template operator()< 1, 2, 3 >() );
  double * heap = static_cast< double * >( std::malloc( 24 * sizeof( double ) ) ); for ( int k = 0; k < 24; ++k ) { heap[k] = -k; }
  { shiva::CArrayViewNd< double, 2, 3, 4 > v( heap ); o.put( v( one, two, three ) ); o.put( v[one][two][three] ); o.put( v( zero, two, zero ) ); v( one, two, three ) = 1; o.put( heap[23] ); auto const copy = v; o.put( copy( zero, zero, one ) ); o.put( copy[one][zero][zero] ); }
  std::free( heap );
}
template< typename B, B ... RANGES > static void farIndex( wl::Out & o )
{
  shiva::MultiIndexRange< B, RANGES ... > x; B const last[] = { B( RANGES - 1 ) ... };
  for ( int k = 0; k < int( sizeof...( RANGES ) ); ++k ) { x.data[k] = last[k]; }
  o.put( shiva::linearIndex( x ) );
  int n = 0; shiva::forRange( x, [&] ( auto const & ) { ++n; } ); o.put( n );
  for ( int k = 0; k < int( sizeof...( RANGES ) ); ++k ) { x.data[k] = B( k == 0 ? last[0] : last[k] / 2 ); }
  o.put( shiva::linearIndex( x ) );
}
static void special()
{
  struct Case { char const * name; void ( *f )( wl::Out & ); } const cases[] = {
    { "signed char indices", &edges< signed char > }, { "unsigned char indices", &edges< unsigned char > }, { "short indices", &edges< short > }, { "unsigned indices", &edges< unsigned > }, { "long indices", &edges< long > }, { "size_t indices", &edges< std::size_t > }, { "long long indices", &edges< long long > },
    { "far int index", &farIndex< int, 1290, 1290, 1290 > }, { "far long index", &farIndex< long, 50000, 300, 7, 3 > }, { "far size_t index", &farIndex< std::size_t, 40000, 40000 > }, { "far short index", &farIndex< short, 181, 181 > }, { "far unsigned index", &farIndex< unsigned, 65536, 65535 > }, { "far unsigned char index", &farIndex< unsigned char, 16, 15 > }, { "far long index, many", &farIndex< long, 1000, 1000, 1000, 1000, 1000 > },
    { "powers at the limits", []( wl::Out & o ) { o.put( wl::mu::pow< int, 30 >( 2 ) ); o.put( wl::mu::pow< int, 2 >( -46340 ) ); o.put( wl::mu::pow< long long, 62 >( -2 ) ); o.put( wl::mu::pow< long long, 13 >( 28 ) ); o.put( wl::mu::pow< int, 0 >( -2147483647 - 1 ) ); o.put( wl::mu::pow< int, 1 >( -2147483647 - 1 ) ); o.put( wl::mu::pow< double, 31 >( -1.5 ) ); o.put( wl::mu::binomialCoefficient< int, 12, 6 >::value ); o.put( wl::mu::binomialCoefficient< long, 20, 10 >::value ); } },
    { "measures at the limits", []( wl::Out & o ) { using A = wl::sg::NCube< double, 3, -2147483647, 2147483647, 7 >; using B = wl::sg::NSimplex< double, 2, -2147483647, 2147483647, 1 >; using C = wl::sg::NCube< float, 12, 0, 2147483647, 2147483647 >; o.put( A::length() ); o.put( A::volume() ); o.put( A::minCoord() ); o.put( A::maxCoord() ); o.put( B::length() ); o.put( B::volume() ); o.put( C::numVertices() ); o.put( C::numEdges() ); o.put( C::numFaces() ); o.put( C::length() ); o.put( C::volume() ); } },
    { "a whole row as reference", []( wl::Out & o ) { shiva::CArrayNd< double, 4, 4, 4, 4 > a; for ( int k = 0; k < 256; ++k ) { a.data()[k] = k; } auto s = a[3]; auto t = s[3]; auto u = t[3]; u[3] = -1; o.put( a( 3, 3, 3, 3 ) ); o.put( a[3][3][3][3] ); o.put( s( 0, 0, 0 ) ); o.put( t( 3, 0 ) ); auto const & c = a; auto cs = c[0]; o.put( cs( 0, 0, 0 ) ); auto const f = []( auto x ) { return x[1][2]; }; o.put( f( a[2] )[3] ); } },
    { "large array", []( wl::Out & o ) { using Big = shiva::CArrayNd< unsigned char, 128, 256, 256 >; Big * b = new Big; for ( int k = 0; k < 3; ++k ) { ( *b )( 127, 255, 253 + k ) = static_cast< unsigned char >( k + 1 ); } o.put( ( *b )[127][255][255] ); o.put( b->data()[128 * 256 * 256 - 1] ); o.put( b->size() ); delete b; } },
  };
  for ( Case const & c : cases ) { std::snprintf( g_where, sizeof g_where, "%s", c.name ); wl::Out * o = static_cast< wl::Out * >( std::malloc( sizeof( wl::Out ) ) ); new ( o ) wl::Out; c.f( *o ); inspect( c.name, *o ); ++g_runs; distinct( hashBytes( c.name, unsigned( std::strlen( c.name ) ), 77 ) ); std::free( o ); }
}

int main( int argc, char ** argv )
{
  char const * outPath = nullptr; unsigned long long seed = 1; int scale = 1;
  for ( int i = 1; i + 1 < argc; ++i )
  {
    if ( !std::strcmp( argv[i], "--seed" ) ) { seed = std::strtoull( argv[++i], nullptr, 10 ); }
    else if ( !std::strcmp( argv[i], "--scale" ) ) { scale = std::atoi( argv[++i] ); }
    else if ( !std::strcmp( argv[i], "--out" ) ) { outPath = argv[++i]; }
    else if ( !std::strcmp( argv[i], "--property" ) ) { ++i; }
  }
  if ( __sanitizer_set_death_callback ) { __sanitizer_set_death_callback( say ); }
  g_set = static_cast< unsigned long long * >( std::calloc( SETSIZE, sizeof *g_set ) );
  wl::g_dirty = soil;
  int const rounds = 600 * scale;
  for ( int k = 0; k < wl::g_count; ++k )
  {
    wl::Entry const & e = wl::g_ops[k]; ++g_ops;
    void * other = std::malloc( e.inSize );
    for ( int r = 0; r < rounds; ++r )
    {
      std::snprintf( g_where, sizeof g_where, "%s, input %d, seed %llu", e.name, r, seed );
      void * in = std::malloc( e.inSize );
      wl::G g( seed * 100003 + unsigned( k ) * 1009 + unsigned( r ) );
      e.make( g, in );
      if ( r % 3 == 2 ) { for ( unsigned b = 0; b + 16 <= e.inSize; b += 16 ) { if ( g.next() & 1 ) { std::memcpy( static_cast< char * >( in ) + b, static_cast< char * >( other ) + b, 16 ); } } }
      std::memcpy( other, in, e.inSize );
      wl::Out * o = static_cast< wl::Out * >( std::malloc( sizeof( wl::Out ) ) ); new ( o ) wl::Out;
      g_pattern = r % 3;
      e.run( in, *o );
      inspect( e.name, *o );
      ++g_runs; g_bytes += e.inSize;
#ifdef WL_MSAN
      distinct( unsigned( k ) * 1000003ull + unsigned( r ) );
#else
      distinct( hashBytes( in, e.inSize, 1469598103934665603ull ^ ( unsigned( k ) * 7919ull ) ) );
#endif
      std::free( o ); std::free( in );
    }
    std::free( other );
  }
  objects< double >( "double", seed, 500 * scale ); objects< float >( "float", seed, 500 * scale ); objects< long double >( "long double", seed, 100 * scale );
  special();
  for ( wl::ExactCase const * c = wl::g_cases; c; c = c->next )
  {
    for ( int r = 0; r < 150 * scale; ++r )
    {
      std::snprintf( g_where, sizeof g_where, "each object alone: %s, input %d, seed %llu", c->name, r, seed );
      wl::Out * o = static_cast< wl::Out * >( std::malloc( sizeof( wl::Out ) ) ); new ( o ) wl::Out; g_pattern = r % 3;
      wl::G g( seed * 1009 + unsigned( r ) ); c->f( g, *o ); inspect( c->name, *o ); ++g_runs; ++g_alone; distinct( hashBytes( c->name, unsigned( std::strlen( c->name ) ), 1469598103934665603ull ) + unsigned( r ) ); std::free( o );
    }
  }
  if ( outPath )
  {
    FILE * f = std::fopen( outPath, "w" );
    if ( !f ) { return 64; }
    std::fprintf( f, "{\"evaluations\":%llu,\"distinct\":%llu,\"counters\":{\"operations\":%llu,\"results inspected\":%llu,\"input bytes in exact heap blocks\":%llu,\"outputs soiled before use\":%llu,\"runs with each object alone in its block\":%llu},\"samples\":[", g_runs, g_distinct, g_ops, g_values, g_bytes, g_dirtied, g_alone );
    for ( int k = 0; k < wl::g_count && k < 16; ++k ) { std::fprintf( f, "%s\"%s: %d inputs\"", k ? "," : "", wl::g_ops[( k * 7 ) % wl::g_count].name, rounds ); }
    std::fprintf( f, "],\"violations\":[" );
    for ( int k = 0; k < g_fails; ++k ) { std::fprintf( f, "%s{\"key\":\"%s\",\"detail\":\"%s\"}", k ? "," : "", g_key[k], g_fail[k] ); }
    std::fprintf( f, "]}\n" ); std::fclose( f );
  }
  std::free( g_set );
  return g_bad ? 1 : 0;
}
