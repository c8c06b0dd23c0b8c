// Offline checker of C25: compares the result logs of two configurations.
//   c25cmp reference.log other.log
// Prints: records values exact | and a line "D kind op input index count reference other" per differing record.
#include "workload.hpp"
#include <cstdio>
static bool next( FILE * f, int (&head)[5], wl::Out & o ) { if ( std::fread( head, sizeof head, 1, f ) != 1 ) { return false; } o.n = head[4]; return o.n >= 0 && o.n <= wl::CAP && std::fread( o.v, sizeof( long double ), size_t( o.n ), f ) == size_t( o.n ); }
int main( int, char ** argv )
{
  FILE * a = std::fopen( argv[1], "rb" ), * b = std::fopen( argv[2], "rb" ); if ( !a || !b ) { return 64; }
  static wl::Out x, y; int h[5], g[5]; unsigned long long records = 0, values = 0, exact = 0; int shown = 0;
  for (;;)
  {
    bool const p = next( a, h, x ), q = next( b, g, y );
    if ( !p || !q ) { if ( p != q ) { std::printf( "L %llu\n", records ); } break; }
    ++records; values += unsigned( x.n );
    bool const same = wl::same( x, y ); exact += same;
    if ( !same )
    {
      int const d = h[1] != g[1] || h[0] != g[0] || h[2] != g[2] ? 0 : wl::firstDifference( x, y, h[3] );
      if ( d >= 0 && shown++ < 40 ) { std::printf( "D %d %d %d %d %d %.19Lg %.19Lg\n", h[0], h[1], h[2], d, x.n, x.v[d], y.v[d] ); }
    }
  }
  std::printf( "S %llu %llu %llu\n", records, values, exact );
  return 0;
}
