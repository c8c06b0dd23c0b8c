// Run-time tables over Lagrange bases of every order, family and type.
#pragma once
#include "ref.hpp"
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/quadrature/Quadrature.hpp"
#include "shiva/functions/spacing/Spacing.hpp"

namespace bases
{
template< typename R > struct Basis
{
  std::string name; int n;
  std::vector< R ( * )( R const & ) > value, gradient;
  std::vector< vh::Q > x;                 // the nodes the library reports
  std::vector< vh::Q > truth;         // true nodes
};
template< typename R, typename B, int ... I >
Basis< R > make( char const * fam, ref::Family f, std::integer_sequence< int, I... > )
{
  Basis< R > b;
  b.n = sizeof...( I );
  b.name = vh::fmt( "LagrangeBasis<%s,%d,%s>", vh::RealName< R >::get(), b.n - 1, fam );
  b.value = { +[]( R const & x ) -> R { return B::template value< I >( x ); } ... };
  b.gradient = { +[]( R const & x ) -> R { return B::template gradient< I >( x ); } ... };
  b.x = { vh::Q( B::template coordinate< I >() ) ... };
  b.truth = ref::trueNodes( f, b.n );
  if ( B::numSupportPoints != b.n || B::order != b.n - 1 ) { vh::mon().fail( "counts/" + b.name, b.name + ": order or number of support points is wrong" ); }
  return b;
}
using shiva::functions::LagrangeBasis;
template< typename R, int O > Basis< R > eq() { return make< R, LagrangeBasis< R, O, shiva::EqualSpacing > >( "EqualSpacing", ref::Family::Equal, std::make_integer_sequence< int, O + 1 >{} ); }
template< typename R, int O > Basis< R > lo() { return make< R, LagrangeBasis< R, O, shiva::GaussLobattoSpacing > >( "GaussLobattoSpacing", ref::Family::Lobatto, std::make_integer_sequence< int, O + 1 >{} ); }
template< typename R, int O > Basis< R > le() { return make< R, LagrangeBasis< R, O, shiva::GaussLegendreSpacing > >( "GaussLegendreSpacing", ref::Family::Legendre, std::make_integer_sequence< int, O + 1 >{} ); }
template< typename R, int O > Basis< R > ql() { return make< R, LagrangeBasis< R, O, shiva::QuadratureGaussLobatto > >( "QuadratureGaussLobatto", ref::Family::Lobatto, std::make_integer_sequence< int, O + 1 >{} ); }
template< typename R > std::vector< Basis< R > > familyA()   // equal spacing
{
  return { eq< R, 1 >(), eq< R, 2 >(), eq< R, 3 >(), eq< R, 4 >(), eq< R, 5 >(), eq< R, 6 >(), eq< R, 7 >(), eq< R, 8 >(), eq< R, 10 >() };
}
template< typename R > std::vector< Basis< R > > familyB()   // Gauss points
{
  return { lo< R, 1 >(), lo< R, 2 >(), lo< R, 3 >(), lo< R, 4 >(), lo< R, 5 >(), lo< R, 6 >(), lo< R, 7 >(), lo< R, 8 >(),
           le< R, 1 >(), le< R, 2 >(), le< R, 3 >(), ql< R, 2 >(), ql< R, 4 >() };
}
}
