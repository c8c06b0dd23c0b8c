// C08: Lagrange basis values are the nodal interpolation polynomials.
// C09: Lagrange basis gradients are their derivatives.
// GRAD selects the property (0: C08, 1: C09); VH_PART the family and type.
#include "bases.hpp"
using namespace vh;
using bases::Basis;

template< typename R > static bool usable( R x, Basis< R > const & b )
{
  // keep every intermediate product inside the range of R
  double const lim = std::is_same_v< R, float > ? 1e30 : 1e250;
  return std::pow( std::fabs( double( x ) ) + 2, b.n - 1 ) * std::pow( 10.0, b.n ) < lim;
}
template< typename R > static void check( std::vector< Basis< R > > const & bs, Rng & g )
{
  Q const eps = unitRoundoff< R >(), floorTol = std::is_same_v< R, float > ? Q( 1e-35 ) : Q( 1e-290 );
  for ( auto const & b : bs )
  {
    at( b.name );
    int const n = b.n;
    double const farLimit = std::is_same_v< R, float > ? 1e3 : 1e6;
    // the nodes used below are those the library reports; they must be the true ones
    for ( int i = 0; i < n; ++i )
    {
      if ( !( qabs( b.x[size_t( i )] - b.truth[size_t( i )] ) <= ( std::is_same_v< R, float > ? Q( 4e-7 ) : Q( 2e-14 ) ) ) )
      { mon().fail( "nodes/" + b.name, fmt( "%s: node %d is %.17g instead of %.17g", b.name.c_str(), i, qd( b.x[size_t( i )] ), qd( b.truth[size_t( i )] ) ) ); }
    }
    int const reps = ( 400 + 4000 / n ) * mon().scale;
    for ( int k = 0; k < reps; ++k )
    {
      int kind;
      R const x = launder( k < n ? R( b.x[size_t( k )] ) : hostileCoord< R >( g, b.x, farLimit, &kind ) );
      if ( !usable( x, b ) ) { continue; }
      if ( k < n ) { kind = 0; }
      mon().count( fmt( "coordinate_kind_%02d", kind ) );
      Q sum = 0, sumb = 0; bool const sampled = k >= n && kind > 9 && mon().wantSample( b.name );
      // a random polynomial of degree <= order, by its values at the nodes
      std::vector< Q > c( size_t( n ), 0 ); for ( auto & q : c ) { q = g.uni( -1, 1 ); }
      if ( g.coin() ) { int const d = g.below( n ); for ( int i = 0; i < n; ++i ) { c[size_t( i )] = i == d ? 1 : 0; } }
      auto poly = [&] ( Q t, Q & v, Q & dv ) { v = dv = 0; for ( int i = n - 1; i >= 0; --i ) { dv = dv * t + v; v = v * t + c[size_t( i )]; } };
      Q interp = 0, interpb = 0;
      for ( int i = 0; i < n; ++i )
      {
#if GRAD
        R const v = b.gradient[size_t( i )]( x );
#else
        R const v = b.value[size_t( i )]( x );
#endif
        ref::Lag const r = ref::lagrange( b.x, i, Q( x ) );
#if GRAD
        Q const want = r.g, bound = r.gb;
#else
        Q const want = r.v, bound = r.vb;
#endif
        Q const tol = Q( 16 + 8 * n ) * eps * bound + floorTol;
        mon().eval( mix( mix( strHash( b.name.c_str() ), uint64_t( i ) ), bitsOf( x ) ), want != 0 && want != 1 );
        if ( !( qabs( Q( v ) - want ) <= tol ) )
        {
          mon().fail( ( GRAD ? "gradient/" : "value/" ) + b.name, fmt( "%s: %s<%d>(%.21g) = %.17g, the polynomial has %.17g (allowed error %.3g)", b.name.c_str(), GRAD ? "gradient" : "value", i, double( x ), double( v ), qd( want ), qd( tol ) ) );
        }
        if ( !GRAD && k < n && !( qabs( Q( v ) - ( i == k ) ) <= tol ) ) { mon().fail( "kronecker/" + b.name, fmt( "%s: function %d at node %d is %.17g", b.name.c_str(), i, k, double( v ) ) ); }
        if ( sampled && i == n / 2 ) { mon().sample( fmt( "%s: %s<%d>(%.17g) = %.17g, reference %.17g", b.name.c_str(), GRAD ? "gradient" : "value", i, double( x ), double( v ), qd( want ) ) ); }
        sum += v; sumb += bound;
        Q pv, pd; poly( b.x[size_t( i )], pv, pd );
        interp += pv * Q( v ); interpb += qabs( pv ) * bound;
      }
      Q const C = Q( 16 + 8 * n ) * eps;
      if ( !( qabs( sum - ( GRAD ? 0 : 1 ) ) <= C * sumb + floorTol ) ) { mon().fail( "sum/" + b.name, fmt( "%s: %s sum to %.17g at %.21g", b.name.c_str(), GRAD ? "gradients" : "values", qd( sum ), double( x ) ) ); }
      Q pv, pd; poly( Q( x ), pv, pd );
      Q const pw = GRAD ? pd : pv;
      if ( !( qabs( interp - pw ) <= C * interpb + Q( 1e-30 ) * ( qabs( pw ) + interpb ) + floorTol ) ) { mon().fail( "reproduction/" + b.name, fmt( "%s: a degree %d polynomial is not reproduced at %.21g: %.17g instead of %.17g", b.name.c_str(), n - 1, double( x ), qd( interp ), qd( pw ) ) ); }
    }
    mon().count( "bases_checked" );
  }
}
#if VH_PART == 0
VH_CASE( "equal float" ) { check( bases::familyA< float >(), rng ); }
#elif VH_PART == 1
VH_CASE( "equal double" ) { check( bases::familyA< double >(), rng ); }
#elif VH_PART == 2
VH_CASE( "equal long double" ) { check( bases::familyA< long double >(), rng ); }
#elif VH_PART == 3
VH_CASE( "gauss float" ) { check( bases::familyB< float >(), rng ); }
#elif VH_PART == 4
VH_CASE( "gauss double" ) { check( bases::familyB< double >(), rng ); }
#elif VH_PART == 5
VH_CASE( "gauss long double" ) { check( bases::familyB< long double >(), rng ); }
#endif
