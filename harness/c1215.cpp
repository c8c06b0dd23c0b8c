// Cell geometry (LinearTransform).
// C12 (PROP 12): node coordinates are kept exactly.
// C13 (PROP 13): the Jacobian is the derivative of the mapping.
// C14 (PROP 14): quadrature-indexed Jacobians.
// C15 (PROP 15): inverse, determinant, volume.
#include "elements.hpp"
#include "shiva/geometry/mapping/LinearTransform.hpp"
#include "shiva/geometry/mapping/JacobianTransforms.hpp"
#include <algorithm>
#include <array>
#include <memory>
using namespace vh;
using namespace elems;
namespace su = shiva::geometry::utilities;

template< typename E > using Cell = shiva::geometry::LinearTransform< typename E::Real, typename E::Shape >;
template< typename E > using Jac = typename Cell< E >::JacobianType;

// node coordinates in tuple order (last direction fastest), [flat * dim + component]
template< typename E > static std::vector< typename E::Real > makeCell( Rng & g, std::vector< std::vector< Q > > const & nodes, std::string & kind, bool nice )
{
  using R = typename E::Real;
  constexpr int D = E::dim;
  int const k = nice ? ( g.below( 10 ) + 9 ) % 12 : g.below( 12 );
  static char const * const names[] = { "reference", "box", "affine", "perturbed", "mirrored", "shifted", "anisotropic", "random", "huge", "few nodes moved", "extruded", "face moved" };
  kind = names[k];
  double A[D][D], b[D];
  double const s = k == 6 ? 1.0 : g.logUni( 1e-3, 1e3 );
  for ( int i = 0; i < D; ++i ) { b[i] = g.uni( -3, 3 ) * s; for ( int j = 0; j < D; ++j ) { A[i][j] = i == j ? s * g.uni( 0.5, 2 ) : ( k == 2 || k == 3 || k == 4 || k == 5 ? s * g.uni( -.3, .3 ) : 0 ); } }
  if ( k == 0 ) { for ( int i = 0; i < D; ++i ) { b[i] = 0; for ( int j = 0; j < D; ++j ) { A[i][j] = i == j; } } }
  if ( k == 4 ) { int const m = g.below( D ); if ( D > 1 && g.coin() ) { int const o = ( m + 1 ) % D; for ( int j = 0; j < D; ++j ) { std::swap( A[m][j], A[o][j] ); } } else { for ( int j = 0; j < D; ++j ) { A[m][j] = -A[m][j]; } } }
  if ( k == 5 ) { for ( double & x : b ) { x = s * g.uni( -1, 1 ) * ( std::is_same_v< R, float > ? 50 : 1e4 ); } }
  if ( k == 6 ) { for ( int i = 0; i < D; ++i ) { double const f = g.logUni( 1e-3, 1e3 ); for ( int j = 0; j < D; ++j ) { A[i][j] *= f; } b[i] *= f; } }
  std::vector< R > x( size_t( E::total * D ) );
  if ( k >= 9 )
  {
    // a lattice with exact coordinates, in which symmetries hold exactly unless a few nodes break them
    double const u = std::ldexp( 1.0, g.between( -6, 6 ) ); int const cut = g.below( 3 );
    double shift[D], origin[D]; for ( int i = 0; i < D; ++i ) { shift[i] = u * g.between( -1, 1 ) * ( k == 11 ? 0.5 : 0.25 ); origin[i] = cut ? u * g.between( -2, 2 ) : 0; }
    bool shear = g.coin(); double const S = shear ? u * 0.5 : 0;
    for ( int f = 0; f < E::total; ++f ) { int t[D]; E::tuple( f, t ); for ( int i = 0; i < D; ++i ) { x[size_t( f * D + i )] = R( origin[i] + u * t[i] + ( i + 1 < D ? S * t[i + 1] : 0 ) ); } }
    int const m = g.below( D ), end = g.coin() ? 0 : E::counts[m] - 1, moved = g.between( 1, 3 );
    if ( k == 9 ) { for ( int n = 0; n < moved; ++n ) { int const f = g.below( E::total ); bool const all = g.coin(); int const only = g.below( D ); for ( int i = 0; i < D; ++i ) { if ( all || i == only ) { x[size_t( f * D + i )] += R( u * 0.125 * ( g.coin() ? 1 : -1 ) * g.between( 1, 2 ) ); } } } }
    else
    {
      std::vector< double > table( size_t( E::total * D ) ); for ( double & v : table ) { v = u * 0.0625 * g.between( -2, 2 ); }
      for ( int f = 0; f < E::total; ++f )
      {
        int t[D]; E::tuple( f, t );
        if ( k == 11 && t[m] == end ) { for ( int i = 0; i < D; ++i ) { x[size_t( f * D + i )] += R( i == m ? shift[i] / 2 : shift[i] ); } }
        if ( k == 10 ) { int key = 0; for ( int j = 0; j < D; ++j ) { key = j == m ? key : key * E::counts[j] + t[j]; } for ( int i = 0; i < D; ++i ) { x[size_t( f * D + i )] += R( table[size_t( key * D + i )] ); } }
      }
    }
    return x;
  }
  for ( int f = 0; f < E::total; ++f )
  {
    int t[D]; E::tuple( f, t );
    for ( int i = 0; i < D; ++i )
    {
      double v = b[i]; double row = 0;
      for ( int j = 0; j < D; ++j ) { v += A[i][j] * qd( nodes[size_t( j )][size_t( t[j] )] ); row += std::fabs( A[i][j] ); }
      if ( k == 3 || ( k >= 4 && k <= 6 && g.below( 3 ) == 0 ) ) { v += g.uni( -.06, .06 ) * row / E::total * 8 / ( 1 << D ); }
      if ( k == 7 ) { v = g.uni( -1, 1 ) * s; }
      if ( k == 8 ) { v = g.uni( -1, 1 ) * ( std::is_same_v< R, float > ? 1e9 : 1e60 ); }
      x[size_t( f * D + i )] = R( v );
    }
  }
  return x;
}
template< typename E > static void put( Cell< E > & cell, std::vector< typename E::Real > const & x ) { auto & d = cell.getData(); for ( size_t k = 0; k < x.size(); ++k ) { d.data()[k] = x[k]; } }
template< typename E > struct RefJac { Q j[E::dim][E::dim], b[E::dim][E::dim]; };
template< typename E > static RefJac< E > refJacobian( std::vector< typename E::Real > const & x, RefPoint const & rp )
{
  RefJac< E > r;
  for ( int i = 0; i < E::dim; ++i ) { for ( int j = 0; j < E::dim; ++j ) { r.j[i][j] = r.b[i][j] = 0; } }
  for ( int f = 0; f < E::total; ++f )
  {
    int t[E::dim]; E::tuple( f, t );
    for ( int j = 0; j < E::dim; ++j ) { Q s, b; rp.shape( t, j, s, b ); for ( int i = 0; i < E::dim; ++i ) { Q const X = x[size_t( f * E::dim + i )]; r.j[i][j] += s * X; r.b[i][j] += b * qabs( X ); } }
  }
  return r;
}
template< typename E > constexpr int factor() { return tolFactor( E::counts ) + 4 * E::total; }
template< typename M > static void garbage( M & m, Rng & g, int n )
{
  using R = typename M::value_type;
  int const k = g.below( 4 );
  for ( int i = 0; i < n; ++i ) { m.data()[i] = k == 0 ? R( 0 ) : k == 1 ? std::numeric_limits< R >::quiet_NaN() : k == 2 ? R( g.uni( -1e6, 1e6 ) ) : std::numeric_limits< R >::infinity(); }
}
template< typename E > static void compareJac( Jac< E > const & J, RefJac< E > const & r, std::string const & key, std::string const & what, uint64_t h )
{
  using R = typename E::Real;
  for ( int i = 0; i < E::dim; ++i )
  {
    for ( int j = 0; j < E::dim; ++j )
    {
      Q const tol = Q( factor< E >() ) * unitRoundoff< R >() * r.b[i][j] + tinyFloor< R >();
      mon().eval( mix( h, uint64_t( i * 8 + j ) ), r.j[i][j] != 0 );
      if ( !( qabs( Q( J( i, j ) ) - r.j[i][j] ) <= tol ) ) { mon().fail( key, fmt( "%s: J(%d,%d) = %.17g, derivative of the mapping %.17g (allowed %.3g)", what.c_str(), i, j, double( J( i, j ) ), qd( r.j[i][j] ), qd( tol ) ) ); }
    }
  }
}

#if PROP == 12
// flat list in every container setData accepts, first direction fastest
template< typename E > static void set( Cell< E > & cell, std::vector< std::array< typename E::Real, 3 > > const & list, int form, Rng & g )
{
  using R = typename E::Real;
  switch ( form )
  {
    case 0: { R c[E::total][3]; for ( int f = 0; f < E::total; ++f ) { for ( int i = 0; i < 3; ++i ) { c[f][i] = list[size_t( f )][size_t( i )]; } } cell.setData( c ); break; }
    case 1: { shiva::CArrayNd< R, E::total, 3 > c; for ( int f = 0; f < E::total; ++f ) { for ( int i = 0; i < 3; ++i ) { c( f, i ) = list[size_t( f )][size_t( i )]; } } cell.setData( c ); break; }
    case 2: cell.setData( list ); break;
    default: { std::vector< R > flat; std::vector< R const * > c; for ( auto & n : list ) { for ( R v : n ) { flat.push_back( v ); } } for ( int f = 0; f < E::total; ++f ) { c.push_back( flat.data() + 3 * f ); } cell.setData( c ); }
  }
  (void)g;
}
template< typename E > static void one( std::string const & name, Rng & g )
{
  using R = typename E::Real;
  at( name );
  uint64_t const hn = strHash( name.c_str() );
  constexpr int n = E::total * E::dim;
  struct Entry { std::unique_ptr< Cell< E > > cell; std::vector< R > shadow; };
  std::vector< Entry > cells;
  auto fresh = [&] { cells.push_back( { std::make_unique< Cell< E > >(), std::vector< R >( size_t( n ), R( 0 ) ) } ); put< E >( *cells.back().cell, cells.back().shadow ); };
  fresh(); fresh();
  auto verify = [&] ( char const * op )
  {
    for ( size_t c = 0; c < cells.size(); ++c )
    {
      Cell< E > const & cc = *cells[c].cell;
      auto const & d = cc.getData();
      for ( int f = 0; f < E::total; ++f )
      {
        int t[4] = {}; E::tuple( f, t );
        for ( int i = 0; i < E::dim; ++i )
        {
          R v;
          if constexpr ( E::dim == 1 ) { v = d( t[0], i ); } else if constexpr ( E::dim == 2 ) { v = d( t[0], t[1], i ); } else { v = d( t[0], t[1], t[2], i ); }
          if ( std::memcmp( &v, &cells[c].shadow[size_t( f * E::dim + i )], sizeof( R ) < 10 ? sizeof( R ) : 10 ) ) { mon().fail( "stored/" + name, fmt( "%s: after %s, node %d component %d of cell %zu holds %.17g instead of %.17g", name.c_str(), op, f, i, c, double( v ), double( cells[c].shadow[size_t( f * E::dim + i )] ) ) ); return; }
        }
      }
    }
  };
  auto value = [&] () -> R { switch ( g.below( 5 ) ) { case 0: return R( g.uni( -1, 1 ) ); case 1: return R( g.sgn() * g.logUni( 1e-30, 1e30 ) ); case 2: return R( g.below( 1000 ) ); case 3: return -R( 0 ); default: return std::numeric_limits< R >::denorm_min() * R( g.below( 9 ) ); } };
  static int serial = 0;
  for ( int step = 0; step < 400 * mon().scale; ++step )
  {
    int const op = g.below( 6 ), k = g.below( int( cells.size() ) );
    Entry & e = cells[size_t( k )];
    static char const * const ops[] = { "setData", "a write through the accessor", "copying a cell", "assigning a cell", "replacing the data", "assigning the data" };
    switch ( op )
    {
      case 0: case 4:
        if constexpr ( E::dim == 3 )
        {
          std::vector< std::array< R, 3 > > list( E::total );
          // the node list handed over: unrelated to what the cell holds, or a small change of it
          for ( int f = 0; f < E::total; ++f ) { int t[3]; E::tuple( f, t ); for ( int i = 0; i < 3; ++i ) { list[size_t( t[0] + E::counts[0] * ( t[1] + E::counts[1] * t[2] ) )][size_t( i )] = e.shadow[size_t( f * 3 + i )]; } }
          int const how = g.below( 9 );
          switch ( how )
          {
            case 0: for ( auto & p : list ) { std::rotate( p.begin(), p.begin() + 1 + g.below( 2 ), p.end() ); } break;
            case 1: for ( auto & p : list ) { if ( g.coin() ) { std::swap( p[0], p[size_t( 1 + g.below( 2 ) )] ); } } break;
            case 2: std::reverse( list.begin(), list.end() ); break;
            case 3: for ( auto & p : list ) { for ( R & v : p ) { v = -v; } } break;
            case 4: { R & v = list[size_t( g.below( E::total ) )][size_t( g.below( 3 ) )]; v = std::nextafter( v, g.coin() ? R( 9e9 ) : R( -9e9 ) ); break; }
            case 5: std::swap( list[size_t( g.below( E::total ) )], list[size_t( g.below( E::total ) )] ); break;
            case 6: { R const s = R( ++serial % 100 ); for ( auto & p : list ) { p = { p[0] + s, p[1] - s, p[2] }; } break; }
            default: for ( auto & p : list ) { for ( R & v : p ) { v = g.coin() ? R( ++serial % 8000000 ) : value(); } }
          }
          mon().count( how > 6 ? "node lists unrelated to the content" : "node lists derived from the content" );
          int const form = g.below( 4 );
          set< E >( *e.cell, list, form, g );
          for ( int f = 0; f < E::total; ++f ) { int t[3]; E::tuple( f, t ); for ( int i = 0; i < 3; ++i ) { e.shadow[size_t( f * 3 + i )] = list[size_t( t[0] + E::counts[0] * ( t[1] + E::counts[1] * t[2] ) )][size_t( i )]; } }
          mon().count( fmt( "setData form %d", form ) );
          break;
        }
        [[fallthrough]];
      case 1:
      {
        int const f = g.below( E::total ), i = g.below( E::dim ); int t[4] = {}; E::tuple( f, t );
        R const v = g.coin() ? R( ++serial % 8000000 ) : value();
        auto & d = e.cell->getData();
        if constexpr ( E::dim == 1 ) { d( t[0], i ) = v; } else if constexpr ( E::dim == 2 ) { d( t[0], t[1], i ) = v; } else { if ( g.coin() ) { d( t[0], t[1], t[2], i ) = v; } else { d[t[0]][t[1]][t[2]][i] = v; } }
        e.shadow[size_t( f * E::dim + i )] = v;
        break;
      }
      case 2: if ( cells.size() < 6 ) { auto copy = std::make_unique< Cell< E > >( *e.cell ); std::vector< R > s = e.shadow; cells.push_back( { std::move( copy ), s } ); } else { cells.erase( cells.begin() + k ); } break;
      case 3: { int const o = g.below( int( cells.size() ) ); *cells[size_t( o )].cell = *e.cell; cells[size_t( o )].shadow = e.shadow; break; }
      default: { int const o = g.below( int( cells.size() ) ); typename Cell< E >::DataType tmp = cells[size_t( o )].cell->getData(); e.cell->getData() = tmp; std::vector< R > const s = cells[size_t( o )].shadow; e.shadow = s; }
    }
    mon().eval( mix( mix( hn, uint64_t( op ) ), mon().evaluations ), true ); mon().count( std::string( "operation: " ) + ops[op] );
    verify( ops[op] );
  }
  if ( &static_cast< Cell< E > const & >( *cells[0].cell ).getData() != &cells[0].cell->getData() ) { mon().fail( "accessor/" + name, name + ": the two accessors designate different objects" ); }
  mon().sample( fmt( "%s: %zu cells alive after the history, %d nodes each", name.c_str(), cells.size(), E::total ) );
}
#elif PROP == 13
template< typename E > static void one( std::string const & name, Rng & g )
{
  using R = typename E::Real;
  at( name );
  uint64_t const hn = strHash( name.c_str() );
  auto const nodes = E::nodes();
  Cell< E > cell; Jac< E > kept;
  for ( int k = 0; k < ( E::total > 20 ? 150 : 400 ) * mon().scale; ++k )
  {
    std::string kind; auto const x = makeCell< E >( g, nodes, kind, false );
    put< E >( cell, x );
    Cell< E > const & cc = cell;
    for ( int p = 0; p < 3; ++p )
    {
      typename E::Coord c; typename E::CCoord ccoord;
      auto const q = point< E >( g, nodes, c, ccoord );
      RefPoint const rp( nodes, q );
      auto const r = refJacobian< E >( x, rp );
      uint64_t const h = mix( mix( hn, bitsOf( x[0] ) ^ bitsOf( x[x.size() - 1] ) ), mix( bitsOf( c[0] ), uint64_t( p ) ) );
      std::string const what = fmt( "%s, %s cell, at %s", name.c_str(), kind.c_str(), coordStr( q ).c_str() );
      Jac< E > J; garbage( J, g, E::dim * E::dim );
      su::jacobian( cc, c, J ); compareJac< E >( J, r, "jacobian/" + name, what, h );
      su::jacobian( cc, ccoord, kept ); compareJac< E >( kept, r, "reused-output/" + name, what + ", output reused", h + 1 );
      if ( kind != "huge" ) { for ( int e = 0; e < E::dim * E::dim; ++e ) { if ( !( qabs( Q( J.data()[e] ) - Q( kept.data()[e] ) ) <= Q( factor< E >() ) * unitRoundoff< R >() * r.b[e / E::dim][e % E::dim] + tinyFloor< R >() ) ) { mon().fail( "history/" + name, what + ": the result depends on what the output held" ); break; } } }
      if constexpr ( E::dim == 3 )
      {
        auto const J2 = su::jacobian( cc, c ); compareJac< E >( J2, r, "returned/" + name, what + ", returning form", h + 2 );
      }
      mon().count( "cells: " + kind );
      if ( k > 3 && p == 1 && mon().wantSample( name ) ) { mon().sample( fmt( "%s: J(0,%d) = %.17g, reference %.17g", what.c_str(), E::dim - 1, double( J( 0, E::dim - 1 ) ), qd( r.j[0][E::dim - 1] ) ) ); }
    }
  }
}
#elif PROP == 14
template< typename E, typename QR, int ... QA > static void atPoint( Cell< E > const & cell, Jac< E > & J ) { su::jacobian< QR, QA ... >( cell, J ); }
template< typename E, typename QR, int N, int F, int ... D > static void flatPoint( Cell< E > const & c, Jac< E > & J, std::integer_sequence< int, D... > ) { atPoint< E, QR, ref::digit< ( ( void )D, N ) ... >( F, D ) ... >( c, J ); }
constexpr int ipow( int b, int e ) { return e == 0 ? 1 : b * ipow( b, e - 1 ); }
#ifndef GSEED
#define GSEED 1
#endif
#ifdef VH_DEEP
constexpr int depth = 4;
#else
constexpr int depth = 1;
#endif
// k-th of M points chosen from all; the choice depends on the seed
constexpr int chosen( int k, int M, int all ) { return M >= all ? k : int( ( ( long long )( k ) * all / M + ( GSEED * 7 + k * 5 ) % ( all / M ) ) % all ); }
template< typename E, typename QR, int N, int M, int ... K > static std::vector< void ( * )( Cell< E > const &, Jac< E > & ) > table( std::integer_sequence< int, K... > )
{
  return { +[]( Cell< E > const & c, Jac< E > & J ) { flatPoint< E, QR, N, chosen( K, M, ipow( N, E::dim ) ) >( c, J, std::make_integer_sequence< int, E::dim >{} ); } ... };
}
template< typename QR, int ... I > static std::vector< Q > qcoords( std::integer_sequence< int, I... > ) { return { Q( QR::template coordinate< I >() ) ... }; }
template< typename E, typename QR, int N, int LIMIT > static void rule( std::string const & ename, char const * qname, Rng & g )
{
  std::string const name = ename + fmt( " with %s %d", qname, N );
  at( name );
  auto const nodes = E::nodes();
  constexpr int all = ipow( N, E::dim ), M = LIMIT * depth < all ? LIMIT * depth : all;
  auto const t = table< E, QR, N, M >( std::make_integer_sequence< int, M >{} );
  auto const qc = qcoords< QR >( std::make_integer_sequence< int, N >{} );
  Cell< E > cell; Jac< E > kept;
  for ( int k = 0; k < 200 * mon().scale; ++k )
  {
    std::string kind; auto const x = makeCell< E >( g, nodes, kind, false );
    put< E >( cell, x );
    for ( int e = 0; e < int( t.size() ); ++e )
    {
      int const f = chosen( e, M, all );
      std::vector< Q > q( E::dim ); int r = f; for ( int d = E::dim - 1; d >= 0; --d ) { q[size_t( d )] = qc[size_t( r % N )]; r /= N; }
      auto const want = refJacobian< E >( x, RefPoint( nodes, q ) );
      Jac< E > J; garbage( J, g, E::dim * E::dim );
      t[size_t( e )]( cell, J );
      uint64_t const h = mix( mix( strHash( name.c_str() ), uint64_t( f ) ), bitsOf( x[0] ) );
      std::string const what = fmt( "%s point %d, %s cell", name.c_str(), f, kind.c_str() );
      compareJac< E >( J, want, "quadrature/" + name, what, h );
      t[size_t( e )]( cell, kept ); compareJac< E >( kept, want, "reused-output/" + name, what + ", output reused", h + 1 );
      // against the coordinate form
      typename E::Coord c; for ( int d = 0; d < E::dim; ++d ) { c[d] = typename E::Real( q[size_t( d )] ); }
      Jac< E > P; su::jacobian( cell, c, P );
      for ( int i = 0; i < E::dim; ++i ) { for ( int j = 0; j < E::dim; ++j ) { if ( !( qabs( Q( P( i, j ) ) - Q( J( i, j ) ) ) <= 2 * Q( factor< E >() ) * unitRoundoff< typename E::Real >() * want.b[i][j] + tinyFloor< typename E::Real >() ) ) { mon().fail( "forms/" + name, what + fmt( ": J(%d,%d) is %.17g for the indices and %.17g for the coordinate", i, j, double( J( i, j ) ), double( P( i, j ) ) ) ); } } }
      mon().count( "quadrature points" );
      if ( e == int( t.size() ) / 2 && mon().wantSample( ename ) ) { mon().sample( fmt( "%s: J(0,0) = %.17g, reference %.17g", what.c_str(), double( J( 0, 0 ) ), qd( want.j[0][0] ) ) ); }
    }
  }
}
template< typename E > static void one( std::string const & name, Rng & g )
{
  using R = typename E::Real;
  rule< E, shiva::QuadratureGaussLegendre< R, 2 >, 2, E::total <= 12 ? 8 : 4 >( name, "GaussLegendre", g );
  rule< E, shiva::QuadratureGaussLobatto< R, 3 >, 3, E::total <= 8 ? 14 : E::total <= 12 ? 8 : 4 >( name, "GaussLobatto", g );
  if constexpr ( E::total <= 12 ) { rule< E, shiva::QuadratureGaussLegendre< R, 3 >, 3, 7 >( name, "GaussLegendre", g ); rule< E, shiva::QuadratureGaussLobatto< R, 4 >, 4, 5 >( name, "GaussLobatto", g ); }
  if constexpr ( E::dim <= 2 ) { rule< E, shiva::QuadratureGaussLobatto< R, 5 >, 5, 8 >( name, "GaussLobatto", g ); rule< E, shiva::QuadratureGaussLegendre< R, 4 >, 4, 8 >( name, "GaussLegendre", g ); rule< E, shiva::QuadratureGaussLobatto< R, 8 >, 8, 8 >( name, "GaussLobatto", g ); }
}
#else
template< typename E > static void one( std::string const & name, Rng & g )
{
  static_assert( E::dim == 3 );
  using R = typename E::Real;
  at( name );
  uint64_t const hn = strHash( name.c_str() );
  auto const nodes = E::nodes();
  Q const eps = unitRoundoff< R >(), K = factor< E >();
  Cell< E > cell; Jac< E > kept; R keptDet = 0;
  for ( int k = 0; k < ( E::total > 20 ? 150 : 400 ) * mon().scale; ++k )
  {
    std::string kind; auto const x = makeCell< E >( g, nodes, kind, g.below( 5 ) != 0 );
    if ( kind == "huge" ) { continue; }
    put< E >( cell, x );
    Cell< E > const & cc = cell;
    int negative = 0, positive = 0;
    for ( int p = 0; p < 3; ++p )
    {
      typename E::Coord c; typename E::CCoord ccoord;
      auto q = point< E >( g, nodes, c, ccoord );
      for ( int d = 0; d < 3; ++d ) { if ( std::fabs( double( c[d] ) ) > 1.2 ) { c[d] = R( g.uni( -1, 1 ) ); ccoord( d ) = c[d]; q[size_t( d )] = c[d]; } }
      auto const r = refJacobian< E >( x, RefPoint( nodes, q ) );
      Q inv[3][3], ib[3][3], det, perm; ref::inverse3( r.j, inv, ib, det, perm );
      Q const B = ref::perm3( r.b );
      Q const detTol = 4 * K * eps * B + tinyFloor< R >();
      std::string const what = fmt( "%s, %s cell, at %s", name.c_str(), kind.c_str(), coordStr( q ).c_str() );
      uint64_t const h = mix( mix( hn, bitsOf( x[0] ) ), bitsOf( c[0] ) );
      auto judge = [&] ( Jac< E > const & I, R d, char const * form )
      {
        mon().eval( mix( h, strHash( form ) ), det != 1 );
        if ( !( qabs( Q( d ) - det ) <= detTol ) ) { mon().fail( "determinant/" + name, fmt( "%s, %s: determinant %.17g, the Jacobian has %.17g (allowed %.3g)", what.c_str(), form, double( d ), qd( det ), qd( detTol ) ) ); return; }
        if ( !( 200 * detTol < qabs( det ) ) ) { mon().count( "points too degenerate for the inverse" ); return; }   // inconclusive: nearly singular
        if ( ( d < 0 ) != ( det < 0 ) ) { mon().fail( "sign/" + name, what + ": sign of the determinant" ); }
        for ( int i = 0; i < 3; ++i )
        {
          for ( int j = 0; j < 3; ++j )
          {
            Q tol = 32 * eps * ib[i][j] + tinyFloor< R >() * ( 1 + qabs( inv[i][j] ) / qabs( det ) );
            for ( int a = 0; a < 3; ++a ) { for ( int b = 0; b < 3; ++b ) { tol += 2 * qabs( inv[i][a] ) * K * eps * r.b[a][b] * qabs( inv[b][j] ); } }
            // cofactor errors caused by rounding of the Jacobian entries, relative to the determinant
            tol += ( detTol / qabs( det ) ) * qabs( inv[i][j] ) * 2;
            { int const r0 = ( j + 1 ) % 3, r1 = ( j + 2 ) % 3, c0 = ( i + 1 ) % 3, c1 = ( i + 2 ) % 3; tol += 4 * K * eps * ( r.b[r0][c0] * r.b[r1][c1] + r.b[r0][c1] * r.b[r1][c0] ) / qabs( det ); }
            if ( !( qabs( Q( I( i, j ) ) - inv[i][j] ) <= tol ) ) { mon().fail( "inverse/" + name, fmt( "%s, %s: inverse(%d,%d) = %.17g, should be %.17g (allowed %.3g)", what.c_str(), form, i, j, double( I( i, j ) ), qd( inv[i][j] ), qd( tol ) ) ); return; }
          }
        }
        mon().count( det < 0 ? "inverses checked, mirrored" : "inverses checked" );
      };
      Jac< E > I; garbage( I, g, 9 ); R d = std::numeric_limits< R >::quiet_NaN();
      su::inverseJacobian( cc, c, I, d ); judge( I, d, "output form" );
      su::inverseJacobian( cc, ccoord, kept, keptDet ); judge( kept, keptDet, "output reused" );
      auto const t = su::inverseJacobian( cc, c );
      judge( std::get< 1 >( t ), std::get< 0 >( t ), "returning form" );
      ( det < 0 ? negative : positive )++;
      if ( k > 3 && p == 1 && mon().wantSample( name ) ) { mon().sample( fmt( "%s: det %.17g, reference %.17g; inverse(0,0) %.17g, reference %.17g", what.c_str(), double( d ), qd( det ), double( I( 0, 0 ) ), qd( inv[0][0] ) ) ); }
    }
    mon().count( "cells: " + kind );
    // volume with the library's quadrature against 113-bit integration of the reference
    if ( k % 4 == 0 )
    {
      constexpr int mx = E::counts[0] > E::counts[1] ? ( E::counts[0] > E::counts[2] ? E::counts[0] : E::counts[2] ) : ( E::counts[1] > E::counts[2] ? E::counts[1] : E::counts[2] );
      static_assert( mx <= 3, "needs a more exact rule" );      // determinant has degree <= 3*order-1 per direction
      constexpr int nq = mx == 2 ? 2 : 3;
      using QR = shiva::QuadratureGaussLegendre< R, nq >;
      static auto const X = ref::trueNodes( ref::Family::Legendre, 5 ), W = ref::trueWeights( ref::Family::Legendre, 5 );
      Q vol = 0, mag = 0;
      for ( int a = 0; a < 125; ++a )
      {
        std::vector< Q > q{ X[size_t( a / 25 )], X[size_t( a / 5 % 5 )], X[size_t( a % 5 )] };
        auto const r = refJacobian< E >( x, RefPoint( nodes, q ) );
        Q const w = W[size_t( a / 25 )] * W[size_t( a / 5 % 5 )] * W[size_t( a % 5 )];
        vol += w * ref::det3( r.j ); mag += w * ref::perm3( r.b );
      }
      Q sum = 0;
      for ( int a = 0; a < nq * nq * nq; ++a )
      {
        int const i = a / ( nq * nq ), j = a / nq % nq, l = a % nq;
        typename E::Coord c = { QR::coordinate( i ), QR::coordinate( j ), QR::coordinate( l ) };
        Jac< E > I; R d; su::inverseJacobian( cc, c, I, d );
        sum += Q( d ) * Q( QR::weight( i ) ) * Q( QR::weight( j ) ) * Q( QR::weight( l ) );
      }
      Q const tol = 8 * K * eps * mag + tinyFloor< R >();
      mon().eval( mix( mix( hn, bitsOf( x[0] ) ), 0xF01 ), vol != 8 ); mon().count( "cell volumes" );
      if ( !( qabs( sum - vol ) <= tol ) ) { mon().fail( "volume/" + name, fmt( "%s, %s cell: quadrature of the determinant gives %.17g, the volume is %.17g (allowed %.3g)", name.c_str(), kind.c_str(), qd( sum ), qd( vol ), qd( tol ) ) ); }
    }
  }
}
#endif
#define ONE( R, ... ) one< Element< R, __VA_ARGS__ > >( std::string( #R ) + " " #__VA_ARGS__, rng )
#if PROP == 14
#if VH_PART == 0
VH_CASE( "linear" ) { using R = double; ONE( R, LO< R, 1 >, LO< R, 1 >, LO< R, 1 > ); }
#elif VH_PART == 1
VH_CASE( "mixed" ) { using R = double; ONE( R, LE< R, 1 >, EQ< R, 2 >, LO< R, 1 > ); }
#elif VH_PART == 2
VH_CASE( "float" ) { using R = float; ONE( R, EQ< R, 1 >, LO< R, 1 >, LE< R, 1 > ); }
#elif VH_PART == 3
VH_CASE( "long double" ) { using R = long double; ONE( R, LO< R, 1 >, EQ< R, 2 >, EQ< R, 1 > ); }
#elif VH_PART == 4
VH_CASE( "1-D and 2-D" ) { using R = double; ONE( R, LO< R, 3 > ); ONE( R, EQ< R, 1 >, LO< R, 2 > ); }
#elif VH_PART == 5
VH_CASE( "1-D and 2-D" ) { using R = double; ONE( R, LO< R, 1 >, LO< R, 1 > ); using F = float; ONE( F, EQ< F, 2 >, LE< F, 1 > ); }
#elif VH_PART == 6
VH_CASE( "high order" ) { using R = double; ONE( R, EQ< R, 2 >, LO< R, 1 >, LO< R, 3 > ); }
#elif VH_PART == 7
VH_CASE( "quadratic" ) { using R = double; one< Element< R, EQ< R, 2 >, LO< R, 2 >, EQ< R, 2 > > >( "double EQ2 LO2 EQ2", rng ); }
#endif
#elif VH_PART == 0
VH_CASE( "linear" ) { using R = double; ONE( R, LO< R, 1 >, LO< R, 1 >, LO< R, 1 > ); }
#elif VH_PART == 1
#if PROP == 15
VH_CASE( "mixed" ) { using R = double; ONE( R, EQ< R, 2 >, LO< R, 1 >, LE< R, 1 > ); ONE( R, LE< R, 1 >, EQ< R, 2 >, LO< R, 2 > ); }
#else
VH_CASE( "mixed" ) { using R = double; ONE( R, EQ< R, 2 >, LO< R, 1 >, LO< R, 3 > ); ONE( R, LE< R, 1 >, EQ< R, 2 >, LO< R, 1 > ); }
#endif
#elif VH_PART == 2
#if PROP == 15
VH_CASE( "float" ) { using R = float; ONE( R, LO< R, 1 >, LO< R, 1 >, LO< R, 1 > ); ONE( R, EQ< R, 1 >, LO< R, 2 >, EQ< R, 1 > ); }
#else
VH_CASE( "float" ) { using R = float; ONE( R, LO< R, 1 >, LO< R, 1 >, LO< R, 1 > ); ONE( R, EQ< R, 1 >, LO< R, 2 >, EQ< R, 1 > ); }
VH_CASE( "1-D and 2-D" ) { using R = double; ONE( R, LO< R, 3 > ); ONE( R, EQ< R, 1 >, LO< R, 2 > ); ONE( R, LO< R, 1 >, LO< R, 1 > ); using F = float; ONE( F, EQ< F, 2 >, LE< F, 1 > ); }
#endif
#elif VH_PART == 3
VH_CASE( "long double" ) { using R = long double; ONE( R, LO< R, 1 >, EQ< R, 1 >, LO< R, 2 > ); }
#elif VH_PART == 4
VH_CASE( "quadratic" ) { using R = double; ONE( R, EQ< R, 2 >, EQ< R, 2 >, EQ< R, 2 > ); }
#endif
