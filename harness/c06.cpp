// C06: node sets are the true, ordered, symmetric points on [-1,1].
#include "nodes.hpp"
using namespace vh;
using nodes::Set;

template< typename R > static void checkSet( Set< R > const & s, Rng & g )
{
  auto const t = ref::trueNodes( s.fam, s.n );
  Q const tol = std::is_same_v< R, float > ? Q( 4e-7 ) : Q( 2e-14 );
  std::string const name = fmt( "%s<%s,%d>", s.what, RealName< R >::get(), s.n );
  std::vector< R > rt( size_t( s.n ), R( 99 ) );
  // visit the indices in random order, some of them repeatedly
  std::vector< int > order;
  for ( int i = 0; i < s.n; ++i ) { order.push_back( i ); }
  for ( int k = 0; k < 3 * s.n; ++k ) { order.insert( order.begin() + g.below( int( order.size() ) + 1 ), g.below( s.n ) ); }
  for ( int i : order )
  {
    R const v = s.rt( launder( i ) );
    if ( rt[size_t( i )] != R( 99 ) && rt[size_t( i )] != v ) { mon().fail( "repeat/" + name, fmt( "%s: coordinate(%d) changed between calls: %.17g then %.17g", name.c_str(), i, double( rt[size_t( i )] ), double( v ) ) ); }
    rt[size_t( i )] = v;
  }
  auto one = [&] ( char const * form, std::vector< R > const & x )
  {
    for ( int i = 0; i < s.n; ++i )
    {
      R const v = x[size_t( i )];
      mon().eval( mix( mix( strHash( name.c_str() ), strHash( form ) ), uint64_t( i ) ) );
      if ( !( qabs( Q( v ) - t[size_t( i )] ) <= tol ) ) { mon().fail( "node/" + name, fmt( "%s node %d (%s) is %.17g, the true node is %.17g", name.c_str(), i, form, double( v ), qd( t[size_t( i )] ) ) ); }
      if ( !( qabs( Q( v ) ) <= 1 + tol ) ) { mon().fail( "range/" + name, fmt( "%s node %d (%s) = %.17g is outside [-1,1]", name.c_str(), i, form, double( v ) ) ); }
      if ( i > 0 && !( x[size_t( i - 1 )] < v ) ) { mon().fail( "order/" + name, fmt( "%s nodes %d,%d (%s) are not increasing: %.17g %.17g", name.c_str(), i - 1, i, form, double( x[size_t( i - 1 )] ), double( v ) ) ); }
      if ( !( qabs( Q( v ) + Q( x[size_t( s.n - 1 - i )] ) ) <= tol ) ) { mon().fail( "symmetry/" + name, fmt( "%s nodes %d and %d (%s) are not symmetric", name.c_str(), i, s.n - 1 - i, form ) ); }
      if ( !( qabs( Q( v ) - Q( s.ct[size_t( i )] ) ) <= Q( 8 * unitRoundoff< R >() ) ) ) { mon().fail( "rt-ct/" + name, fmt( "%s node %d: %s value %.17g differs from compile-time lookup %.17g", name.c_str(), i, form, double( v ), double( s.ct[size_t( i )] ) ) ); }
    }
  };
  one( "run-time index", rt ); one( "compile-time index", s.ct ); one( "constant expression", s.ce );
  mon().count( "node_sets" );
  if ( mon().wantSample( name ) && s.n <= 9 ) { mon().sample( fmt( "%s: coordinate(%d)=%.17g true %.17g", name.c_str(), s.n / 2, double( rt[size_t( s.n / 2 )] ), qd( t[size_t( s.n / 2 )] ) ) ); }
}
template< typename R > static void all( Rng & g )
{
  for ( int rep = 0; rep < 40 * mon().scale; ++rep )
  {
    for ( auto const & s : nodes::spacings< R >() ) { at( s.what ); checkSet( s, g ); }
    for ( auto const & s : nodes::quadratures< R >() ) { at( s.what ); checkSet( s, g ); }
  }
}
#if VH_PART == 0
VH_CASE( "nodes float" ) { all< float >( rng ); }
#endif
#if VH_PART == 1
VH_CASE( "nodes double" ) { all< double >( rng ); }
#endif
#if VH_PART == 2
VH_CASE( "nodes long double" ) { all< long double >( rng ); }
#endif
