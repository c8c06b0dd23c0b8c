// C20: each operation of the workload, evaluated in a constant expression and at run time.
#include "vh.hpp"
#include "workload.hpp"
using namespace vh;
VH_CASE( "compile time against run time" )
{
  std::vector< char > raw; 
  for ( int k = 0; k < wl::g_count; ++k )
  {
    wl::Entry const & e = wl::g_ops[k];
    at( e.name );
    if ( !e.ce ) { mon().count( "run-time only operations" ); continue; }
    void * in = std::malloc( e.inSize );
    for ( int c = 0; c < e.ceCount; ++c )
    {
      wl::Out const * fixed = e.ce( c );
      wl::G g( launder( e.ceSeed ) + uint64_t( launder( c ) ) ); e.make( g, in );
      wl::Out o; e.run( in, o );
      int const d = wl::firstDifference( *fixed, o, e.cls );
      for ( int i = 0; i < o.n; ++i ) { mon().eval( mix( mix( strHash( e.name ), uint64_t( i ) ), bitsOf( double( o.v[i] ) ) ), o.v[i] != 0 && o.v[i] != 1 ); }
      mon().count( "constant expressions" ); mon().count( e.cls == 0 ? "values compared exactly" : "values compared up to rounding", uint64_t( o.n ) ); if ( wl::same( *fixed, o ) ) { mon().count( "bitwise equal evaluations" ); }
      if ( d >= 0 ) { mon().fail( std::string( "differs/" ) + e.name, fmt( "%s, input %d: result %d of %d is %.19Lg in a constant expression and %.19Lg at run time (%d results)", e.name, c, d, fixed->n, fixed->v[d], o.v[d], o.n ) ); }
      if ( c == 0 && k % 7 == 0 ) { mon().sample( fmt( "%s: %.17Lg %.17Lg ... (%d results), both ways", e.name, o.v[0], o.v[1], o.n ) ); }
    }
    std::free( in );
  }
  (void)rng;
}
