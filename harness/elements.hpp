// Elements of one to four dimensions with mixed bases, as run-time tables.
#pragma once
#include "ref.hpp"
#include "shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp"
#include "shiva/functions/bases/BasisProduct.hpp"
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/quadrature/Quadrature.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include "shiva/geometry/shapes/InterpolatedShape.hpp"
#include "shiva/geometry/shapes/NCube.hpp"

namespace elems
{
using vh::Q;
template< typename R, int O > using EQ = shiva::functions::LagrangeBasis< R, O, shiva::EqualSpacing >;
template< typename R, int O > using LO = shiva::functions::LagrangeBasis< R, O, shiva::GaussLobattoSpacing >;
template< typename R, int O > using LE = shiva::functions::LagrangeBasis< R, O, shiva::GaussLegendreSpacing >;
template< typename R, int O > using QL = shiva::functions::LagrangeBasis< R, O, shiva::QuadratureGaussLobatto >;

template< typename B, int ... I > std::vector< Q > basisNodes( std::integer_sequence< int, I... > ) { return { Q( B::template coordinate< I >() ) ... }; }
template< typename B > std::vector< Q > basisNodes() { return basisNodes< B >( std::make_integer_sequence< int, B::numSupportPoints >{} ); }

template< typename R, typename ... B > struct Element
{
  static constexpr int dim = sizeof...( B );
  static constexpr int counts[dim] = { B::numSupportPoints ... };
  static constexpr int total = ( B::numSupportPoints * ... );
  using Real = R;
  using Geom = shiva::geometry::NCube< R, dim, -1, 1, 1 >;
  using Product = shiva::functions::BasisProduct< R, B ... >;
  using Shape = shiva::geometry::InterpolatedShape< R, Geom, B ... >;
  using Parent = shiva::discretizations::finiteElementMethod::ParentElement< R, Geom, B ... >;
  using Coord = R[dim];
  using CCoord = shiva::CArrayNd< R, dim >;
  using Grad = shiva::CArrayNd< R, dim >;
  using Field = shiva::CArrayNd< R, B::numSupportPoints ... >;
  template< typename D > using FieldOf = shiva::CArrayNd< D, B::numSupportPoints ... >;
  using FieldView = shiva::CArrayViewNd< R, B::numSupportPoints ... >;
  using FieldCView = shiva::CArray< R const, R const * const, B::numSupportPoints ... >;
  using All = std::make_integer_sequence< int, total >;
  using Dims = std::make_integer_sequence< int, dim >;

  // X provides value< a, b, ... >( coord ); C is the type of the coordinate
  template< typename X, typename C, int F, int ... D > static R callV( C const & c, std::integer_sequence< int, D... > ) { return X::template value< ref::digit< B::numSupportPoints ... >( F, D ) ... >( c ); }
  template< typename X, typename C, int F, int ... D > static Grad callG( C const & c, std::integer_sequence< int, D... > ) { return X::template gradient< ref::digit< B::numSupportPoints ... >( F, D ) ... >( c ); }
  template< typename X, typename C, int ... F > static std::vector< R ( * )( C const & ) > values( std::integer_sequence< int, F... > ) { return { +[]( C const & c ) -> R { return callV< X, C, F >( c, Dims{} ); } ... }; }
  template< typename X, typename C, int ... F > static std::vector< Grad ( * )( C const & ) > gradients( std::integer_sequence< int, F... > ) { return { +[]( C const & c ) -> Grad { return callG< X, C, F >( c, Dims{} ); } ... }; }

  static std::vector< std::vector< Q > > nodes() { return { basisNodes< B >() ... }; }
  static void tuple( int f, int * t ) { for ( int d = dim - 1; d >= 0; --d ) { t[d] = f % counts[d]; f /= counts[d]; } }
};

// reference shape functions at a point: per direction values and derivatives
struct RefPoint
{
  std::vector< std::vector< ref::Lag > > l;
  RefPoint( std::vector< std::vector< Q > > const & nodes, std::vector< Q > const & c )
  {
    for ( size_t d = 0; d < nodes.size(); ++d ) { l.emplace_back(); for ( int i = 0; i < int( nodes[d].size() ); ++i ) { l[d].push_back( ref::lagrange( nodes[d], i, c[d] ) ); } }
  }
  // dir -1: value; otherwise the derivative in direction dir
  void shape( int const * t, int dir, Q & v, Q & b ) const
  {
    v = b = 1;
    for ( size_t d = 0; d < l.size(); ++d )
    {
      ref::Lag const & x = l[d][size_t( t[d] )];
      v *= int( d ) == dir ? x.g : x.v; b *= int( d ) == dir ? x.gb : x.vb;
    }
  }
};
template< int N > constexpr int tolFactor( int const (&counts)[N] ) { int s = 16; for ( int c : counts ) { s += 10 * c; } return s; }
template< typename R > Q tinyFloor() { return std::is_same_v< R, float > ? Q( 1e-32 ) : Q( 1e-280 ); }
inline std::string coordStr( std::vector< Q > const & c ) { std::string s = "("; for ( size_t d = 0; d < c.size(); ++d ) { s += vh::fmt( "%s%.17g", d ? "," : "", vh::qd( c[d] ) ); } return s + ")"; }

// point with one independent hostile coordinate per direction
template< typename E > std::vector< Q > point( vh::Rng & g, std::vector< std::vector< Q > > const & nodes, typename E::Coord & c, typename E::CCoord & cc )
{
  using R = typename E::Real;
  double const far = std::is_same_v< R, float > ? 30 : 1e3;
  std::vector< Q > q;
  bool const distinct = g.coin();
  for ( int d = 0; d < E::dim; ++d )
  {
    R x = distinct ? R( g.uni( -1, 1 ) ) : vh::hostileCoord< R >( g, nodes[size_t( d )], far );
    if ( !( std::fabs( double( x ) ) < far ) ) { x = R( g.uni( -1, 1 ) ); }
    c[d] = vh::launder( x ); cc( d ) = c[d]; q.push_back( Q( x ) );
  }
  return q;
}
} // namespace elems
