#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#define DECL( k ) void unitValues##k( unsigned long long, std::vector< long double > & ); void unitAddresses##k( std::vector< void const * > & );
DECL( 0 ) DECL( 1 ) DECL( 2 ) DECL( 3 )
int main( int, char ** argv )
{
  unsigned long long const seed = std::strtoull( argv[1], nullptr, 10 ); unsigned long long values = 0, addresses = 0; int bad = 0;
  void ( * const f[] )( unsigned long long, std::vector< long double > & ) = { unitValues0, unitValues1, unitValues2, unitValues3 };
  void ( * const a[] )( std::vector< void const * > & ) = { unitAddresses0, unitAddresses1, unitAddresses2, unitAddresses3 };
  static_assert( UNITS == 4, "" );
  for ( int s = 0; s < 200; ++s )
  {
    std::vector< long double > ref; f[( s + 1 ) % 4]( seed * 1000 + unsigned( s ), ref );
    for ( int u = 0; u < 4; ++u )
    {
      std::vector< long double > o; f[( s * 3 + u ) % 4]( seed * 1000 + unsigned( s ), o ); values += o.size();
      if ( o.size() != ref.size() ) { std::printf( "DIFFERENT count %zu %zu\n", o.size(), ref.size() ); ++bad; continue; }
      for ( size_t k = 0; k < o.size(); ++k ) { if ( std::memcmp( &o[k], &ref[k], 10 ) != 0 && bad++ < 5 ) { std::printf( "DIFFERENT value %zu: unit %d %.19Lg, unit %d %.19Lg\n", k, ( s * 3 + u ) % 4, o[k], ( s + 1 ) % 4, ref[k] ); } }
    }
  }
  std::vector< void const * > p; a[0]( p );
  for ( int u = 1; u < 4; ++u ) { std::vector< void const * > q; a[u]( q ); for ( size_t k = 0; k < q.size(); ++k ) { ++addresses; if ( q[k] != p[k] ) { std::printf( "DIFFERENT address of shared object %zu in unit %d\n", k, u ); ++bad; } } }
  std::printf( "V %llu %llu\n", values, addresses );
  return bad ? 1 : 0;
}
