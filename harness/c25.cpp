// C25: performs the workload on inputs read from (or, once, written to) a file and logs every
// result; vrun compares the logs of all configurations offline.
#include "shared.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>

static void dumpOut( FILE * f, int kind, int op, int input, int cls, wl::Out const & o )
{
  int const head[5] = { kind, op, input, cls, o.n };
  std::fwrite( head, sizeof head, 1, f ); std::fwrite( o.v, sizeof( long double ), size_t( o.n ), f );
}
template< typename R > static void objects( FILE * f, FILE * inputs, bool dump, int type, unsigned long long seed, int rounds )
{
  for ( int r = 0; r < rounds; ++r )
  {
    wl::Objects< R > * o = new wl::Objects< R >; int k12[wl::Objects< R >::KINDS * 2];
    wl::G g( seed * 77 + unsigned( r ) ); o->fill( g ); for ( int & k : k12 ) { k = g.below( 12 ); }
    static typename wl::Objects< R >::Image im;
    if ( dump ) { std::memset( &im, 0, sizeof im ); o->image( im ); std::fwrite( &im, sizeof im, 1, inputs ); std::fwrite( k12, sizeof k12, 1, inputs ); }
    else { if ( std::fread( &im, sizeof im, 1, inputs ) != 1 || std::fread( k12, sizeof k12, 1, inputs ) != 1 ) { std::exit( 64 ); } o->restore( im ); }
    for ( int k = 0; k < wl::Objects< R >::KINDS; ++k ) { wl::Out out; o->run( k, k12[2 * k], k12[2 * k + 1], out ); dumpOut( f, 1 + type, k, r, wl::classOf< R >(), out ); }
    delete o;
  }
}
int main( int argc, char ** argv )
{
  char const * outPath = nullptr, * log = nullptr, * in = nullptr; bool dump = false; unsigned long long seed = 1; int scale = 1;
  for ( int i = 1; i + 1 < argc; ++i )
  {
    if ( !std::strcmp( argv[i], "--seed" ) ) { seed = std::strtoull( argv[++i], nullptr, 10 ); }
    else if ( !std::strcmp( argv[i], "--scale" ) ) { scale = std::atoi( argv[++i] ); }
    else if ( !std::strcmp( argv[i], "--out" ) ) { outPath = argv[++i]; }
    else if ( !std::strcmp( argv[i], "--log" ) ) { log = argv[++i]; }
    else if ( !std::strcmp( argv[i], "--dump" ) ) { in = argv[++i]; dump = true; }
    else if ( !std::strcmp( argv[i], "--inputs" ) ) { in = argv[++i]; }
    else { ++i; }
  }
  FILE * f = std::fopen( log, "wb" ); FILE * inputs = std::fopen( in, dump ? "wb" : "rb" );
  if ( !f || !inputs ) { return 64; }
  int const rounds = 150 * scale; unsigned long long runs = 0;
  for ( int k = 0; k < wl::g_count; ++k )
  {
    wl::Entry const & e = wl::g_ops[k];
    for ( int r = 0; r < rounds; ++r )
    {
      void * p = std::malloc( e.inSize ); wl::G g( seed * 100003 + unsigned( k ) * 1009 + unsigned( r ) );
      if ( dump ) { std::memset( p, 0, e.inSize ); e.make( g, p ); std::fwrite( p, e.inSize, 1, inputs ); } else if ( std::fread( p, e.inSize, 1, inputs ) != 1 ) { return 64; }
      wl::Out o; e.run( p, o ); dumpOut( f, 0, k, r, e.cls, o ); ++runs; std::free( p );
    }
  }
  objects< double >( f, inputs, dump, 0, seed, 100 * scale ); objects< float >( f, inputs, dump, 1, seed, 100 * scale ); objects< long double >( f, inputs, dump, 2, seed, 40 * scale );
  std::fclose( f ); std::fclose( inputs );
  if ( outPath )
  {
    FILE * j = std::fopen( outPath, "w" ); if ( !j ) { return 64; }
    std::fprintf( j, "{\"evaluations\":0,\"distinct\":0,\"counters\":{},\"samples\":[],\"violations\":[],\"names\":[" );
    for ( int k = 0; k < wl::g_count; ++k ) { std::fprintf( j, "%s\"%s\"", k ? "," : "", wl::g_ops[k].name ); }
    std::fprintf( j, "]}\n" ); std::fclose( j );
  }
  return 0;
}
