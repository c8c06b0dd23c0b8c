// C07: quadrature rules integrate polynomials exactly to their nominal degree.
#include "nodes.hpp"
using namespace vh;
using nodes::Set;
using ref::Family;

// a polynomial as coefficients of Legendre polynomials, or as a monomial
struct Poly
{
  std::vector< Q > c; bool mono;
  void eval( Q x, Q & f, Q & df, Q & mag ) const
  {
    f = df = mag = 0;
    for ( int k = 0; k < int( c.size() ); ++k )
    {
      if ( c[size_t( k )] == 0 ) { continue; }
      Q p, d;
      if ( mono ) { p = 1; for ( int i = 0; i < k; ++i ) { p *= x; } d = k; for ( int i = 0; i + 1 < k; ++i ) { d *= x; } }
      else { ref::legendre( k, x, p, d ); }
      f += c[size_t( k )] * p; df += qabs( c[size_t( k )] * d ); mag += qabs( c[size_t( k )] * p );
    }
  }
  Q integral() const
  {
    Q s = 0;
    for ( int k = 0; k < int( c.size() ); ++k ) { if ( mono ) { s += ( k & 1 ) ? 0 : c[size_t( k )] * 2 / ( k + 1 ); } else if ( k == 0 ) { s += 2 * c[0]; } }
    return s;
  }
};
static Poly randomPoly( Rng & g, int deg )
{
  Poly p; p.mono = g.coin(); p.c.assign( size_t( deg + 1 ), 0 );
  int const kind = g.below( 4 );
  if ( kind == 0 ) { p.c[size_t( deg )] = 1; }
  else if ( kind == 1 ) { p.c[size_t( g.below( deg + 1 ) )] = g.sgn() * g.logUni( 1e-6, 1e6 ); }
  else { for ( auto & c : p.c ) { c = g.uni( -1, 1 ) * ( kind == 3 ? g.logUni( 1e-3, 1e3 ) : 1.0 ); } }
  return p;
}
template< typename R > struct Rule { std::vector< Q > x, w; int deg; std::string name; };

template< typename R > static void integrate( Rule< R > const & r, Poly const & p )
{
  Q s = 0, tol = 0;
  Q const eNode = std::is_same_v< R, float > ? Q( 4e-7 ) : Q( 2e-14 ), eW = eNode;
  for ( size_t i = 0; i < r.x.size(); ++i )
  {
    Q f, df, mag; p.eval( r.x[i], f, df, mag );
    s += r.w[i] * f;
    tol += qabs( r.w[i] ) * df * eNode + mag * eW;
  }
  Q const err = qabs( s - p.integral() );
  if ( !( err <= tol ) ) { mon().fail( "exactness/" + r.name, fmt( "%s: degree %d polynomial integrates to %.17g instead of %.17g (error %.3g, allowed %.3g)", r.name.c_str(), int( p.c.size() ) - 1, qd( s ), qd( p.integral() ), qd( err ), qd( tol ) ) ); }
  mon().eval( mix( mix( strHash( r.name.c_str() ), bitsOf( qd( p.integral() ) ) ), bitsOf( qd( s ) ) ), p.c.size() > 1 );
}

template< typename R > static void all( Rng & g )
{
  for ( auto const & s : nodes::quadratures< R >() )
  {
    int const deg = s.fam == Family::Legendre ? 2 * s.n - 1 : 2 * s.n - 3;
    std::string const name = fmt( "%s<%s,%d>", s.what, RealName< R >::get(), s.n );
    at( name );
    Q const eW = std::is_same_v< R, float > ? Q( 4e-7 ) : Q( 2e-14 );
    std::vector< R > wrt;
    if ( s.wrt ) { wrt.assign( size_t( s.n ), 0 ); for ( int rep = 0; rep < 3; ++rep ) for ( int k = 0; k < s.n; ++k ) { int const i = rep == 1 ? s.n - 1 - k : k; wrt[size_t( i )] = s.wrt( launder( i ) ); } }
    auto weights = [&] ( char const * form, std::vector< R > const & w )
    {
      Q sum = 0;
      for ( int i = 0; i < s.n; ++i )
      {
        Q const v = Q( w[size_t( i )] ); sum += v;
        if ( !( v > 0 ) ) { mon().fail( "positive/" + name, fmt( "%s weight %d (%s) = %.17g is not positive", name.c_str(), i, form, qd( v ) ) ); }
        if ( !( qabs( v - Q( w[size_t( s.n - 1 - i )] ) ) <= eW ) ) { mon().fail( "symmetry/" + name, fmt( "%s weights %d and %d (%s) differ", name.c_str(), i, s.n - 1 - i, form ) ); }
        if ( !( qabs( v - Q( s.wct[size_t( i )] ) ) <= Q( 8 * unitRoundoff< R >() ) ) ) { mon().fail( "rt-ct/" + name, fmt( "%s weight %d: %s %.17g differs from compile-time lookup %.17g", name.c_str(), i, form, qd( v ), double( s.wct[size_t( i )] ) ) ); }
        mon().eval( mix( mix( strHash( name.c_str() ), strHash( form ) ), uint64_t( i ) ) );
      }
      if ( !( qabs( sum - 2 ) <= eW * s.n ) ) { mon().fail( "sum/" + name, fmt( "%s weights (%s) sum to %.17g", name.c_str(), form, qd( sum ) ) ); }
      // exactness with run-time and compile-time nodes
      for ( int nodeForm = 0; nodeForm < 2; ++nodeForm )
      {
        Rule< R > r; r.deg = deg; r.name = name + fmt( " (%s weights, %s nodes)", form, nodeForm ? "run-time" : "compile-time" );
        for ( int i = 0; i < s.n; ++i ) { r.w.push_back( Q( w[size_t( i )] ) ); r.x.push_back( Q( nodeForm ? s.rt( launder( i ) ) : s.ct[size_t( i )] ) ); }
        for ( int d = 0; d <= deg; ++d )
        {
          for ( int m = 0; m < 2; ++m ) { Poly p; p.mono = m; p.c.assign( size_t( d + 1 ), 0 ); p.c[size_t( d )] = 1; integrate( r, p ); }
        }
        for ( int k = 0; k < 300 * mon().scale; ++k ) { integrate( r, randomPoly( g, g.between( 0, deg ) ) ); }
        mon().count( "rules_checked" );
      }
    };
    if ( s.wrt ) { weights( "run-time", wrt ); }
    weights( "compile-time", s.wct ); weights( "constant-expression", s.wce );
    if ( mon().wantSample( name ) ) { mon().sample( fmt( "%s: weight[0]=%.17g, nominal degree %d", name.c_str(), double( s.wct[0] ), deg ) ); }
  }
  // tensor products: different rules per direction, computed in R as a user would
  auto qs = nodes::quadratures< R >();
  for ( int k = 0; k < 300 * mon().scale; ++k )
  {
    int const dim = g.between( 2, 3 );
    Set< R > const * s[3]; Poly p[3]; Q exact = 1; std::string name = RealName< R >::get();
    std::vector< Q > fs[3]; Q allow = 1, mags = 1;
    for ( int d = 0; d < dim; ++d )
    {
      s[d] = &qs[size_t( g.below( int( qs.size() ) ) )];
      p[d] = randomPoly( g, g.between( 0, s[d]->fam == Family::Legendre ? 2 * s[d]->n - 1 : 2 * s[d]->n - 3 ) );
      exact *= p[d].integral(); name += fmt( " x %s%d", s[d]->fam == Family::Legendre ? "G" : "L", s[d]->n );
      Q t = 0, m = 0;
      for ( int i = 0; i < s[d]->n; ++i )
      {
        Q f, df, mag; p[d].eval( Q( s[d]->wrt ? s[d]->rt( launder( i ) ) : s[d]->ct[size_t( i )] ), f, df, mag ); fs[d].push_back( f );
        t += ( df + mag ) * 2; m += mag;
      }
      allow *= ( t + m ); mags *= m;
    }
    Q sum = 0;
    int const n2 = dim == 3 ? s[2]->n : 1;
    for ( int a = 0; a < s[0]->n; ++a ) for ( int b = 0; b < s[1]->n; ++b ) for ( int c = 0; c < n2; ++c )
    {
      auto w = [&] ( int d, int i ) -> Q { return Q( s[d]->wrt ? s[d]->wrt( launder( i ) ) : s[d]->wct[size_t( i )] ); };
      Q t = w( 0, a ) * w( 1, b ) * fs[0][size_t( a )] * fs[1][size_t( b )];
      if ( dim == 3 ) { t *= w( 2, c ) * fs[2][size_t( c )]; }
      sum += t;
    }
    Q const tol = allow * ( std::is_same_v< R, float > ? Q( 2e-6 ) : Q( 1e-13 ) );
    if ( !( qabs( sum - exact ) <= tol ) ) { mon().fail( "tensor", fmt( "tensor rule %s integrates to %.17g instead of %.17g", name.c_str(), qd( sum ), qd( exact ) ) ); }
    mon().eval( mix( strHash( name.c_str() ), bitsOf( qd( sum ) ) ) );
    mon().count( "tensor_integrals" );
  }
}
#if VH_PART == 0
VH_CASE( "quadrature float" ) { all< float >( rng ); }
#endif
#if VH_PART == 1
VH_CASE( "quadrature double" ) { all< double >( rng ); }
#endif
#if VH_PART == 2
VH_CASE( "quadrature long double" ) { all< long double >( rng ); }
#endif
