// C18: reference shapes: counts of m-faces and measures.
#include "elements.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/geometry/shapes/NSimplex.hpp"
#include "shiva/geometry/shapes/InterpolatedShape.hpp"
#include GEN
using namespace vh;
namespace sg = shiva::geometry;

static long binom( int n, int k ) { if ( k < 0 || k > n ) { return 0; } long r = 1; for ( int i = 1; i <= k; ++i ) { r = r * ( n - k + i ) / i; } return r; }
static void number( std::string const & what, long got, long want )
{
  mon().eval( strHash( what.c_str() ), want > 1 );
  if ( got != want ) { mon().fail( "count/" + what, fmt( "%s is %ld, should be %ld", what.c_str(), got, want ) ); }
}
// independent count of cube faces: faces are the words over {0,1,*} with m stars
static long cubeFaces( int n, int m ) { long c = 0, total = 1; for ( int i = 0; i < n; ++i ) { total *= 3; } for ( long w = 0; w < total; ++w ) { int s = 0; for ( long x = w, i = 0; i < n; ++i, x /= 3 ) { s += x % 3 == 2; } c += s == m; } return c; }
// faces of a simplex: subsets of m+1 of the n+1 vertices
static long simplexFaces( int n, int m ) { long c = 0; for ( long w = 0; w < ( 1L << ( n + 1 ) ); ++w ) { c += __builtin_popcountl( w ) == m + 1; } return c; }

template< typename S, int N, int ... M > static std::vector< long > cubeCounts( std::integer_sequence< int, M... > ) { return { long( S::template numMCubes< M >() ) ... }; }
template< typename S, int N, int ... M > static std::vector< long > simplexCounts( std::integer_sequence< int, M... > ) { return { long( S::template numMSimplexes< M >() ) ... }; }
template< typename S, int N > static void counts( std::string const & name, std::vector< long > const & got, long ( *faces )( int, int ) )
{
  long euler = 0;
  for ( int m = 0; m <= N; ++m ) { number( fmt( "%s of dimension %d: number of %d-faces", name.c_str(), N, m ), got[size_t( m )], faces( N, m ) ); euler += m % 2 ? -got[size_t( m )] : got[size_t( m )]; }
  number( fmt( "%s of dimension %d: alternating sum", name.c_str(), N ), euler, 1 );
  number( fmt( "%s of dimension %d: numVertices", name.c_str(), N ), S::numVertices(), faces( N, 0 ) );
  number( fmt( "%s of dimension %d: numEdges", name.c_str(), N ), S::numEdges(), N > 0 ? faces( N, 1 ) : 0 );
  number( fmt( "%s of dimension %d: numFaces", name.c_str(), N ), S::numFaces(), N > 1 ? faces( N, 2 ) : 0 );
  number( fmt( "%s of dimension %d: numCells", name.c_str(), N ), S::numCells(), N > 2 ? faces( N, 3 ) : 0 );
  if constexpr ( N > 0 ) { number( fmt( "%s of dimension %d: numHyperFaces", name.c_str(), N ), S::numHyperFaces(), faces( N, N - 1 ) ); }
  number( fmt( "%s of dimension %d: numDims", name.c_str(), N ), S::numDims(), N );
  if ( N == 3 ) { mon().sample( fmt( "%s of dimension 3: %ld %ld %ld %ld", name.c_str(), got[0], got[1], got[2], got[3] ) ); }
}
template< typename R, int ... N > static void allCounts( std::integer_sequence< int, N... > )
{
  ( counts< sg::NCube< R, N + 1, -1, 1, 1 >, N + 1 >( "cube", cubeCounts< sg::NCube< R, N + 1, -1, 1, 1 >, N + 1 >( std::make_integer_sequence< int, N + 2 >{} ), cubeFaces ), ... );
}
template< typename R, int ... N > static void allSimplex( std::integer_sequence< int, N... > )
{
  ( counts< sg::NSimplex< R, N + 1, 0, 1, 1 >, N + 1 >( "simplex", simplexCounts< sg::NSimplex< R, N + 1, 0, 1, 1 >, N + 1 >( std::make_integer_sequence< int, N + 2 >{} ), simplexFaces ), ... );
}
template< typename R > static void near( std::string const & what, R got, Q want, int n, uint64_t h )
{
  mon().eval( h, want != 1 && want != 0 );
  if ( want > Q( std::numeric_limits< R >::max() ) ) { mon().count( "not representable: skipped" ); return; }
  if ( !( qabs( Q( got ) - want ) <= ( 8 + 4 * n ) * Q( unitRoundoff< R >() ) * qabs( want ) + Q( std::numeric_limits< R >::min() ) ) ) { mon().fail( "measure/" + what, fmt( "%s %s is %.17g, should be %.17g", RealName< R >::get(), what.c_str(), double( got ), qd( want ) ) ); }
}
template< typename R, int N, int MIN, int MAX, int DIV > static void measure()
{
  Q const lo = Q( MIN ) / DIV, hi = Q( MAX ) / DIV, len = ( Q( MAX ) - Q( MIN ) ) / DIV;
  Q vol = 1, fac = 1; for ( int i = 1; i <= N; ++i ) { vol *= len; fac *= i; }
  auto go = [&] ( auto shape, char const * n, Q v )
  {
    using S = decltype( shape );
    std::string const name = fmt( "%s<%d,%d,%d,%d>", n, N, MIN, MAX, DIV );
    uint64_t const h = mix( strHash( name.c_str() ), sizeof( R ) );
    near< R >( name + " minCoord", S::minCoord(), lo, N, h + 1 ); near< R >( name + " maxCoord", S::maxCoord(), hi, N, h + 2 ); near< R >( name + " length", S::length(), len, N, h + 3 ); near< R >( name + " volume", S::volume(), v, N, h + 4 );
    mon().count( "shapes measured" );
    if ( DIV == 3 ) { mon().sample( fmt( "%s: length %.17g, volume %.17g, reference %.17g", name.c_str(), double( S::length() ), double( S::volume() ), qd( v ) ) ); }
  };
  go( sg::NCube< R, N, MIN, MAX, DIV >{}, "NCube", vol );
  go( sg::NSimplex< R, N, MIN, MAX, DIV >{}, "NSimplex", vol / fac );
}
template< typename R, int MIN, int MAX, int DIV > static void dims() { measure< R, 1, MIN, MAX, DIV >(); measure< R, 2, MIN, MAX, DIV >(); measure< R, 3, MIN, MAX, DIV >(); measure< R, 4, MIN, MAX, DIV >(); measure< R, 5, MIN, MAX, DIV >(); measure< R, 7, MIN, MAX, DIV >(); measure< R, 10, MIN, MAX, DIV >(); }
template< typename R > static void fixed()
{
  dims< R, -1, 1, 1 >(); dims< R, 0, 1, 1 >(); dims< R, -1, 1, 2 >(); dims< R, 0, 1, 3 >(); dims< R, -7, -2, 1 >(); dims< R, 3, 11, 7 >(); dims< R, -1, 0, 1 >(); dims< R, 5, 6, 1000 >();
  dims< R, -2147483647 - 1, 2147483647, 1 >(); dims< R, -2147483647, 2147483647, 2147483647 >(); dims< R, -1500000000, 1500000000, 1000000000 >(); dims< R, 0, 2147483647, 2147483647 >(); dims< R, 2147483646, 2147483647, 1 >(); dims< R, 0, 16777217, 2 >();
}
VH_CASE( "counts" )
{
  (void)binom;
  allCounts< double >( std::make_integer_sequence< int, 12 >{} ); allSimplex< double >( std::make_integer_sequence< int, 11 >{} );
  allCounts< float >( std::make_integer_sequence< int, 5 >{} ); allSimplex< float >( std::make_integer_sequence< int, 5 >{} );
  number( "0-cube vertices", sg::NCube< double, 0, 0, 1, 1 >::numVertices(), 1 ); number( "0-cube edges", sg::NCube< double, 0, 0, 1, 1 >::numEdges(), 0 );
  number( "0-simplex vertices", sg::NSimplex< double, 0, 0, 1, 1 >::numVertices(), 1 ); number( "0-simplex edges", sg::NSimplex< double, 0, 0, 1, 1 >::numEdges(), 0 );
  number( "Square vertices", sg::Square< double >::numVertices(), 4 ); number( "Cube faces", sg::Cube< float >::numFaces(), 6 ); number( "Triangle edges", sg::Triangle< double >::numEdges(), 3 ); number( "Tetrahedron faces", sg::Tetrahedron< float >::numFaces(), 4 );
  using L1 = elems::LO< double, 1 >; using L3 = elems::LO< double, 3 >;
  number( "interpolated square vertices", sg::InterpolatedShape< double, sg::Square< double >, L3, L1 >::numVertices, 4 );
  number( "interpolated cube vertices", sg::InterpolatedShape< double, sg::Cube< double >, L1, L3, L1 >::numVertices, 8 );
  near< double >( "Square volume", sg::Square< double >::volume(), 4, 2, 1 ); near< double >( "Cube volume", sg::Cube< double >::volume(), 8, 3, 2 ); near< double >( "Triangle volume", sg::Triangle< double >::volume(), Q( 1 ) / 2, 2, 3 ); near< double >( "Tetrahedron volume", sg::Tetrahedron< double >::volume(), Q( 1 ) / 6, 3, 4 );
}
VH_CASE( "measures" ) { fixed< double >(); fixed< float >(); fixed< long double >(); }
VH_CASE( "generated measures" ) { generated< double >(); generated< float >(); }
