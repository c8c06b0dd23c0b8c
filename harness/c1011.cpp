// C10: shape functions are tensor products, and BasisProduct, InterpolatedShape and
//      ParentElement agree (PROP 10).
// C11: fields and field gradients interpolate nodal data (PROP 11).
#include "elements.hpp"
using namespace vh;
using namespace elems;

#if PROP == 10
template< typename E > static void one( std::string const & name, Rng & g )
{
  using R = typename E::Real;
  at( name );
  uint64_t const hn = strHash( name.c_str() );
  auto const nodes = E::nodes();
  for ( int d = 0; d < E::dim; ++d ) { if ( E::Parent::numSupportPoints[d] != E::counts[d] ) { mon().fail( "counts/" + name, name + ": node count of the parent element differs from its basis" ); } }
  if ( E::Parent::numDims != E::dim || E::Shape::numDims != E::dim || E::Product::numDims != E::dim || E::Shape::numVertices != 1 << E::dim ) { mon().fail( "counts/" + name, name + ": dimension or vertex count" ); }
  { // the support loop visits every tuple once, in order
    std::vector< int > seen; auto f = [&] ( auto ... i ) { int const t[] = { int( i ) ... }; int v = 0; for ( int d = 0; d < E::dim; ++d ) { v = v * E::counts[d] + t[d]; } seen.push_back( v ); };
    E::Shape::supportLoop( f ); E::Product::supportLoop( f );
    bool ok = int( seen.size() ) == 2 * E::total; for ( int k = 0; ok && k < 2 * E::total; ++k ) { ok = seen[size_t( k )] == k % E::total; }
    if ( !ok ) { mon().fail( "supportLoop/" + name, name + ": the support loop does not visit every node tuple once in order" ); }
  }
  using C = typename E::Coord; using CC = typename E::CCoord; using All = typename E::All;
  auto const v0 = E::template values< typename E::Product, C >( All{} );
  auto const v1 = E::template values< typename E::Shape, CC >( All{} );
  auto const v2 = E::template values< typename E::Parent, C >( All{} );
  auto const g0 = E::template gradients< typename E::Product, CC >( All{} );
  auto const g1 = E::template gradients< typename E::Shape, C >( All{} );
  auto const g2 = E::template gradients< typename E::Parent, CC >( All{} );
  Q const eps = unitRoundoff< R >(), K = Q( tolFactor( E::counts ) );
  int const points = ( E::total > 20 ? 250 : 500 ) * mon().scale;
  for ( int k = 0; k < points; ++k )
  {
    C c; CC cc;
    auto const q = point< E >( g, nodes, c, cc );
    RefPoint const rp( nodes, q );
    for ( int f = 0; f < E::total; ++f )
    {
      int t[E::dim]; E::tuple( f, t );
      for ( int dir = -1; dir < E::dim; ++dir )
      {
        Q want, bound; rp.shape( t, dir, want, bound );
        Q const tol = K * eps * bound + tinyFloor< R >();
        R got[3];
        if ( dir < 0 ) { got[0] = v0[size_t( f )]( c ); got[1] = v1[size_t( f )]( cc ); got[2] = v2[size_t( f )]( c ); }
        else { got[0] = g0[size_t( f )]( cc )( dir ); got[1] = g1[size_t( f )]( c )( dir ); got[2] = g2[size_t( f )]( cc )( dir ); }
        static char const * const who[] = { "BasisProduct", "InterpolatedShape", "ParentElement" };
        for ( int w = 0; w < 3; ++w )
        {
          mon().eval( mix( mix( hn, uint64_t( f * 64 + dir * 4 + w ) ), bitsOf( c[0] ) ^ ( bitsOf( c[E::dim - 1] ) << 1 ) ), want != 0 && want != 1 );
          if ( !( qabs( Q( got[w] ) - want ) <= tol ) )
          {
            mon().fail( ( dir < 0 ? "value/" : "gradient/" ) + name, fmt( "%s: %s %s of function %d (direction %d) at %s is %.17g, the tensor product is %.17g (allowed %.3g)", name.c_str(), who[w], dir < 0 ? "value" : "gradient", f, dir, coordStr( q ).c_str(), double( got[w] ), qd( want ), qd( tol ) ) );
          }
        }
        if ( k == 5 && f == E::total / 2 && dir == E::dim - 1 ) { if ( mon().wantSample( name ) ) { mon().sample( fmt( "%s: function %d, derivative %d at %s = %.17g, reference %.17g", name.c_str(), f, dir, coordStr( q ).c_str(), double( got[0] ), qd( want ) ) ); } }
      }
    }
    mon().count( "points" );
  }
  mon().count( "elements" );
}
#else
template< typename E, typename V > static void field( V const & var, typename E::Coord const & c, typename E::Real & v, typename E::Grad & gr ) { v = E::Parent::value( c, var ); gr = E::Parent::gradient( c, var ); }
template< typename E, int ... D > static auto functorOf( std::vector< typename E::Real > const & x, std::integer_sequence< int, D... > )
{
  return [&x] ( auto ... i ) -> typename E::Real { int const t[] = { int( i ) ... }; int f = 0; for ( int d = 0; d < E::dim; ++d ) { f = f * E::counts[d] + t[d]; } return x[size_t( f )]; };
}
template< typename E > static void one( std::string const & name, Rng & g )
{
  using R = typename E::Real;
  at( name );
  uint64_t const hn = strHash( name.c_str() );
  auto const nodes = E::nodes();
  Q const eps = unitRoundoff< R >(), K = Q( tolFactor( E::counts ) + 4 * E::total );
  int const points = ( E::total > 20 ? 500 : 1000 ) * mon().scale;
  for ( int k = 0; k < points; ++k )
  {
    typename E::Coord c; typename E::CCoord cc;
    auto const q = point< E >( g, nodes, c, cc );
    RefPoint const rp( nodes, q );
    // nodal data
    std::vector< R > x( size_t( E::total ), R( 0 ) );
    int const kind = g.below( 6 );
    static char const * const kinds[] = { "impulse", "monomial", "random", "scaled", "indexed", "polynomial" };
    int pw[E::dim]; for ( int d = 0; d < E::dim; ++d ) { pw[d] = g.below( E::counts[d] ); }
    int hot = g.below( E::total );
    double const scale = kind == 3 ? std::pow( 10.0, std::is_same_v< R, float > ? g.uni( -12, 12 ) : g.uni( -80, 80 ) ) : 1.0;
    for ( int f = 0; f < E::total; ++f )
    {
      int t[E::dim]; E::tuple( f, t );
      Q m = 1; for ( int d = 0; d < E::dim; ++d ) { for ( int p = 0; p < pw[d]; ++p ) { m *= nodes[size_t( d )][size_t( t[d] )]; } }
      switch ( kind )
      {
        case 0: x[size_t( f )] = f == hot ? R( 1 ) : R( 0 ); break;
        case 1: x[size_t( f )] = R( m ); break;
        case 4: x[size_t( f )] = R( f + 1 ); break;
        case 5: { Q s = 1; for ( int d = 0; d < E::dim; ++d ) { Q const y = nodes[size_t( d )][size_t( t[d] )]; s += ( d + 2 ) * y + ( E::counts[d] > 2 ? y * y : 0 ); } x[size_t( f )] = R( s ); } break;
        default: x[size_t( f )] = R( g.uni( -1, 1 ) * scale );
      }
    }
    // data of other types than the element's: values that all of them hold exactly
    bool const mixed = kind != 1 && kind != 3 && g.below( 3 ) == 0;
    bool const whole = mixed && g.coin();
    if ( mixed ) { for ( R & y : x ) { y = whole ? R( int( double( y ) * ( kind == 2 ? 50 : 1 ) ) ) : R( float( y ) ); } }
    typename E::Field a; for ( int f = 0; f < E::total; ++f ) { a.data()[f] = x[size_t( f )]; }
    R buf[E::total]; for ( int f = 0; f < E::total; ++f ) { buf[f] = x[size_t( f )]; }
    R v[8]; typename E::Grad gr[8]; int forms = 4;
    field< E >( a, c, v[0], gr[0] );
    field< E >( typename E::FieldView( buf ), c, v[1], gr[1] );
    field< E >( typename E::FieldCView( buf ), c, v[2], gr[2] );
    field< E >( functorOf< E >( x, typename E::Dims{} ), c, v[3], gr[3] );
    if ( mixed )
    {
      auto other = [&] ( auto zero ) { using D = decltype( zero ); typename E::template FieldOf< D > o; for ( int f = 0; f < E::total; ++f ) { o.data()[f] = D( x[size_t( f )] ); } field< E >( o, c, v[forms], gr[forms] ); ++forms; };
      other( 0.0f ); other( 0.0 ); other( 0.0L ); if ( whole ) { other( 0 ); }
      mon().count( whole ? "fields: whole numbers in four types" : "fields: values in three types" );
    }
    static char const * const who[] = { "array", "view", "view of const", "function", "array of float", "array of double", "array of long double", "array of int" };
    for ( int dir = -1; dir < E::dim; ++dir )
    {
      Q want = 0, bound = 0;
      for ( int f = 0; f < E::total; ++f ) { int t[E::dim]; E::tuple( f, t ); Q s, b; rp.shape( t, dir, s, b ); want += s * Q( x[size_t( f )] ); bound += b * qabs( Q( x[size_t( f )] ) ); }
      Q const tol = K * eps * bound + tinyFloor< R >();
      if ( !finiteQ( want ) || bound > ( std::is_same_v< R, float > ? Q( 1e35 ) : Q( 1e300 ) ) ) { continue; }
      for ( int w = 0; w < forms; ++w )
      {
        R const got = dir < 0 ? v[w] : gr[w]( dir );
        mon().eval( mix( mix( hn, uint64_t( kind * 1024 + dir * 32 + w ) ), mix( bitsOf( c[0] ), bitsOf( x[size_t( hot )] ) ) ), want != 0 );
        if ( !( qabs( Q( got ) - want ) <= tol ) )
        {
          mon().fail( ( dir < 0 ? "field/" : "field-gradient/" ) + name, fmt( "%s: %s of a %s field held in %s (direction %d) at %s is %.17g, the sum over the nodes is %.17g (allowed %.3g)", name.c_str(), dir < 0 ? "value" : "gradient", kinds[kind], who[w], dir, coordStr( q ).c_str(), double( got ), qd( want ), qd( tol ) ) );
        }
      }
      // a monomial within the order is reproduced
      if ( kind == 1 )
      {
        Q m = 1; for ( int d = 0; d < E::dim; ++d ) { Q y = 1; for ( int p = 0; p < pw[d] - ( d == dir ); ++p ) { y *= q[size_t( d )]; } m *= d == dir ? ( pw[d] ? pw[d] * y : 0 ) : y; }
        R const got = dir < 0 ? v[0] : gr[0]( dir );
        if ( !( qabs( Q( got ) - m ) <= 2 * tol + Q( 1e-30 ) ) ) { mon().fail( "reproduction/" + name, fmt( "%s: a monomial field (direction %d) at %s is %.17g instead of %.17g", name.c_str(), dir, coordStr( q ).c_str(), double( got ), qd( m ) ) ); }
      }
      if ( dir == E::dim - 1 && k > 3 ) { if ( mon().wantSample( name ) ) { mon().sample( fmt( "%s: %s field, derivative %d at %s = %.17g, reference %.17g", name.c_str(), kinds[kind], dir, coordStr( q ).c_str(), double( gr[0]( dir ) ), qd( want ) ) ); } }
    }
    // linearity, exact for powers of two
    typename E::Field b; for ( int f = 0; f < E::total; ++f ) { b.data()[f] = R( 4 ) * a.data()[f]; }
    R v4; typename E::Grad g4; field< E >( b, c, v4, g4 );
    bool lin = kind == 3 || qabs( Q( v4 ) - 4 * Q( v[0] ) ) <= 8 * tinyFloor< R >() * Q( 1e6 );
    for ( int d = 0; d < E::dim; ++d ) { lin = lin && ( kind == 3 || qabs( Q( g4( d ) ) - 4 * Q( gr[0]( d ) ) ) <= 8 * tinyFloor< R >() * Q( 1e6 ) ); }
    if ( !lin )
    {
      // a compiler may evaluate the two in different ways: fall back to the rounding bound
      Q bound = 0; for ( int f = 0; f < E::total; ++f ) { int t[E::dim]; E::tuple( f, t ); for ( int dir = -1; dir < E::dim; ++dir ) { Q s, bb; rp.shape( t, dir, s, bb ); bound += bb * qabs( Q( x[size_t( f )] ) ); } }
      bool ok = qabs( Q( v4 ) - 4 * Q( v[0] ) ) <= 8 * K * eps * bound; for ( int d = 0; d < E::dim; ++d ) { ok = ok && qabs( Q( g4( d ) ) - 4 * Q( gr[0]( d ) ) ) <= 8 * K * eps * bound; }
      if ( !ok ) { mon().fail( "linearity/" + name, fmt( "%s: four times the data does not give four times the field at %s", name.c_str(), coordStr( q ).c_str() ) ); }
    }
    mon().count( std::string( "fields: " ) + kinds[kind] );
  }
  mon().count( "elements" );
}
#endif
#define ONE( R, ... ) one< Element< R, __VA_ARGS__ > >( std::string( #R ) + " " #__VA_ARGS__, rng )
#if VH_PART == 0
VH_CASE( "1-D and 2-D double" ) { using R = double; ONE( R, EQ< R, 1 > ); ONE( R, LO< R, 4 > ); ONE( R, LE< R, 2 > ); ONE( R, LO< R, 1 >, EQ< R, 2 > ); ONE( R, EQ< R, 3 >, LE< R, 1 > ); ONE( R, QL< R, 2 >, QL< R, 2 > ); }
#elif VH_PART == 1
VH_CASE( "3-D double a" ) { using R = double; ONE( R, LO< R, 1 >, LO< R, 1 >, LO< R, 1 > ); ONE( R, EQ< R, 1 >, LO< R, 2 >, LE< R, 3 > ); }
#elif VH_PART == 2
VH_CASE( "3-D double b" ) { using R = double; ONE( R, EQ< R, 3 >, LO< R, 1 >, LO< R, 2 > ); ONE( R, EQ< R, 2 >, EQ< R, 2 >, EQ< R, 2 > ); }
#elif VH_PART == 3
VH_CASE( "4-D double" ) { using R = double; ONE( R, EQ< R, 1 >, LO< R, 2 >, EQ< R, 1 >, LE< R, 1 > ); }
#elif VH_PART == 4
VH_CASE( "float" ) { using R = float; ONE( R, EQ< R, 2 > ); ONE( R, LO< R, 3 >, EQ< R, 1 > ); ONE( R, LO< R, 2 >, EQ< R, 1 >, LE< R, 2 > ); }
#elif VH_PART == 5
VH_CASE( "long double" ) { using R = long double; ONE( R, LO< R, 2 >, EQ< R, 1 > ); ONE( R, LO< R, 1 >, LE< R, 1 >, EQ< R, 2 > ); }
#elif VH_PART == 6
VH_CASE( "3-D cubic" ) { using R = double; ONE( R, LO< R, 3 >, LO< R, 3 >, LO< R, 1 > ); }
#elif VH_PART == 7
VH_CASE( "5-D" ) { using R = double; ONE( R, EQ< R, 1 >, LO< R, 1 >, LE< R, 1 >, EQ< R, 2 >, LO< R, 1 > ); }
#elif VH_PART == 8
VH_CASE( "6-D" ) { using R = double; ONE( R, LO< R, 1 >, EQ< R, 1 >, LE< R, 1 >, EQ< R, 1 >, LE< R, 1 >, LO< R, 1 > ); }
#endif
