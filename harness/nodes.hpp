// Run-time access to node/weight facilities of every family, count and type.
#pragma once
#include "ref.hpp"
#include "shiva/common/ShivaMacros.hpp"
#include "shiva/functions/quadrature/Quadrature.hpp"
#include "shiva/functions/spacing/Spacing.hpp"

namespace nodes
{
using ref::Family;
template< typename R > struct Set
{
  char const * what; Family fam; int n;
  R ( * rt )( int );                 // coordinate( i ), run time
  std::vector< R > ct;               // coordinate< I >(), evaluated at run time
  std::vector< R > ce;               // coordinate< I >(), constant expression
  R ( * wrt )( int ) = nullptr;      // weight( i )
  std::vector< R > wct, wce;         // weight< I >()
};
template< typename R, typename S, int ... I >
Set< R > makeSpacing( char const * what, Family f, std::integer_sequence< int, I... > )
{
  Set< R > s; s.what = what; s.fam = f; s.n = sizeof...( I );
  s.rt = []( int i ) -> R { return S::coordinate( i ); };
  R ( * const fn[] )() = { +[]() -> R { return S::template coordinate< I >(); } ... };
  for ( auto p : fn ) { s.ct.push_back( p() ); }
  constexpr R ce[] = { S::template coordinate< I >() ... };
  for ( R v : ce ) { s.ce.push_back( v ); }
  return s;
}
template< typename R, typename S, bool RT, int ... I >
Set< R > makeQuad( char const * what, Family f, std::integer_sequence< int, I... > seq )
{
  Set< R > s = makeSpacing< R, S >( what, f, seq );
  if constexpr ( RT ) { s.wrt = []( int i ) -> R { return S::weight( i ); }; }
  R ( * const fn[] )() = { +[]() -> R { return S::template weight< I >(); } ... };
  for ( auto p : fn ) { s.wct.push_back( p() ); }
  constexpr R ce[] = { S::template weight< I >() ... };
  for ( R v : ce ) { s.wce.push_back( v ); }
  return s;
}
template< int N > using Seq = std::make_integer_sequence< int, N >;
template< typename R > std::vector< Set< R > > quadratures()
{
  using namespace shiva;
  return {
    makeQuad< R, QuadratureGaussLegendre< R, 2 >, true >( "QuadratureGaussLegendre", Family::Legendre, Seq< 2 >{} ),
    makeQuad< R, QuadratureGaussLegendre< R, 3 >, true >( "QuadratureGaussLegendre", Family::Legendre, Seq< 3 >{} ),
    makeQuad< R, QuadratureGaussLegendre< R, 4 >, true >( "QuadratureGaussLegendre", Family::Legendre, Seq< 4 >{} ),
    makeQuad< R, QuadratureGaussLobatto< R, 2 >, true >( "QuadratureGaussLobatto", Family::Lobatto, Seq< 2 >{} ),
    makeQuad< R, QuadratureGaussLobatto< R, 3 >, true >( "QuadratureGaussLobatto", Family::Lobatto, Seq< 3 >{} ),
    makeQuad< R, QuadratureGaussLobatto< R, 4 >, true >( "QuadratureGaussLobatto", Family::Lobatto, Seq< 4 >{} ),
    makeQuad< R, QuadratureGaussLobatto< R, 5 >, true >( "QuadratureGaussLobatto", Family::Lobatto, Seq< 5 >{} ),
    makeQuad< R, QuadratureGaussLobatto< R, 6 >, false >( "QuadratureGaussLobatto", Family::Lobatto, Seq< 6 >{} ),
    makeQuad< R, QuadratureGaussLobatto< R, 7 >, false >( "QuadratureGaussLobatto", Family::Lobatto, Seq< 7 >{} ),
    makeQuad< R, QuadratureGaussLobatto< R, 8 >, false >( "QuadratureGaussLobatto", Family::Lobatto, Seq< 8 >{} ),
    makeQuad< R, QuadratureGaussLobatto< R, 9 >, false >( "QuadratureGaussLobatto", Family::Lobatto, Seq< 9 >{} ),
  };
}
template< typename R > std::vector< Set< R > > spacings()
{
  using namespace shiva;
  std::vector< Set< R > > v = {
    makeSpacing< R, EqualSpacing< R, 2 > >( "EqualSpacing", Family::Equal, Seq< 2 >{} ),
    makeSpacing< R, EqualSpacing< R, 3 > >( "EqualSpacing", Family::Equal, Seq< 3 >{} ),
    makeSpacing< R, EqualSpacing< R, 4 > >( "EqualSpacing", Family::Equal, Seq< 4 >{} ),
    makeSpacing< R, EqualSpacing< R, 5 > >( "EqualSpacing", Family::Equal, Seq< 5 >{} ),
    makeSpacing< R, EqualSpacing< R, 6 > >( "EqualSpacing", Family::Equal, Seq< 6 >{} ),
    makeSpacing< R, EqualSpacing< R, 7 > >( "EqualSpacing", Family::Equal, Seq< 7 >{} ),
    makeSpacing< R, EqualSpacing< R, 8 > >( "EqualSpacing", Family::Equal, Seq< 8 >{} ),
    makeSpacing< R, EqualSpacing< R, 9 > >( "EqualSpacing", Family::Equal, Seq< 9 >{} ),
    makeSpacing< R, EqualSpacing< R, 10 > >( "EqualSpacing", Family::Equal, Seq< 10 >{} ),
    makeSpacing< R, EqualSpacing< R, 11 > >( "EqualSpacing", Family::Equal, Seq< 11 >{} ),
    makeSpacing< R, EqualSpacing< R, 12 > >( "EqualSpacing", Family::Equal, Seq< 12 >{} ),
    makeSpacing< R, EqualSpacing< R, 17 > >( "EqualSpacing", Family::Equal, Seq< 17 >{} ),
    makeSpacing< R, EqualSpacing< R, 33 > >( "EqualSpacing", Family::Equal, Seq< 33 >{} ),
    makeSpacing< R, GaussLegendreSpacing< R, 2 > >( "GaussLegendreSpacing", Family::Legendre, Seq< 2 >{} ),
    makeSpacing< R, GaussLegendreSpacing< R, 3 > >( "GaussLegendreSpacing", Family::Legendre, Seq< 3 >{} ),
    makeSpacing< R, GaussLegendreSpacing< R, 4 > >( "GaussLegendreSpacing", Family::Legendre, Seq< 4 >{} ),
    makeSpacing< R, GaussLobattoSpacing< R, 2 > >( "GaussLobattoSpacing", Family::Lobatto, Seq< 2 >{} ),
    makeSpacing< R, GaussLobattoSpacing< R, 3 > >( "GaussLobattoSpacing", Family::Lobatto, Seq< 3 >{} ),
    makeSpacing< R, GaussLobattoSpacing< R, 4 > >( "GaussLobattoSpacing", Family::Lobatto, Seq< 4 >{} ),
    makeSpacing< R, GaussLobattoSpacing< R, 5 > >( "GaussLobattoSpacing", Family::Lobatto, Seq< 5 >{} ),
    makeSpacing< R, GaussLobattoSpacing< R, 6 > >( "GaussLobattoSpacing", Family::Lobatto, Seq< 6 >{} ),
    makeSpacing< R, GaussLobattoSpacing< R, 7 > >( "GaussLobattoSpacing", Family::Lobatto, Seq< 7 >{} ),
    makeSpacing< R, GaussLobattoSpacing< R, 8 > >( "GaussLobattoSpacing", Family::Lobatto, Seq< 8 >{} ),
    makeSpacing< R, GaussLobattoSpacing< R, 9 > >( "GaussLobattoSpacing", Family::Lobatto, Seq< 9 >{} ),
  };
  return v;
}
}
