// C17: axis-aligned scalings.
#include "elements.hpp"
#include "shiva/geometry/mapping/LinearTransform.hpp"
#include "shiva/geometry/mapping/Scaling.hpp"
#include "shiva/geometry/mapping/UniformScaling.hpp"
#include "shiva/geometry/mapping/JacobianTransforms.hpp"
using namespace vh;
namespace sg = shiva::geometry;
namespace su = shiva::geometry::utilities;

template< typename R > static void junk( R * p, int n, Rng & g )
{
  int const k = g.below( 4 );
  for ( int i = 0; i < n; ++i ) { p[i] = k == 0 ? R( 0 ) : k == 1 ? std::numeric_limits< R >::quiet_NaN() : k == 2 ? R( g.uni( -1e6, 1e6 ) ) : std::numeric_limits< R >::infinity(); }
}
template< typename R > static void near( char const * what, R got, Q want, R const * h, int k, uint64_t hash )
{
  mon().eval( mix( mix( hash, strHash( what ) ), uint64_t( k ) ), want != 1 );
  if ( !( qabs( Q( got ) - want ) <= 8 * Q( unitRoundoff< R >() ) * qabs( want ) ) ) { mon().fail( what, fmt( "%s: %s, entry %d is %.17g instead of %.17g for lengths %.17g %.17g %.17g", RealName< R >::get(), what, k, double( got ), qd( want ), double( h[0] ), double( h[1] ), double( h[2] ) ) ); }
}
template< typename R > static void one( Rng & g )
{
  using Box = elems::Element< R, elems::LO< R, 1 >, elems::LO< R, 1 >, elems::LO< R, 1 > >;
  using Cell = sg::LinearTransform< R, typename Box::Shape >;
  {
    sg::Scaling< R > const d; sg::UniformScaling< R > const u;
    for ( int k = 0; k < 3; ++k ) { if ( d.getData()[k] != 1 ) { mon().fail( "default", "a new Scaling does not have unit lengths" ); } }
    if ( u.getData() != 1 ) { mon().fail( "default", "a new UniformScaling does not have unit length" ); }
    static_assert( sg::Scaling< R >::jacobianIsConstInCell() && sg::UniformScaling< R >::jacobianIsConstInCell() && !Cell::jacobianIsConstInCell() );
  }
  double const far = std::is_same_v< R, float > ? 1e9 : 1e60;
  sg::Scaling< R > s, other; sg::UniformScaling< R > u, otherU;
  typename sg::Scaling< R >::JacobianType J, I, keptJ, keptI; R d, keptD;
  typename sg::UniformScaling< R >::JacobianType uJ, uI; R uD;
  { R o[3] = { 3, 5, 7 }; other.setData( o ); otherU.setData( R( 11 ) ); }
  for ( int n = 0; n < 20000 * mon().scale; ++n )
  {
    R h[3]; int const kind = g.below( 5 );
    for ( R & x : h ) { x = kind == 0 ? R( g.logUni( 1 / far, far ) ) : kind == 1 ? R( g.between( 1, 9 ) ) : kind == 2 ? R( g.uni( .1, 10 ) ) : kind == 3 ? R( std::ldexp( 1.0, g.between( -20, 20 ) ) ) : R( g.logUni( 1e-3, 1e3 ) ); }
    if ( n % 3 == 0 ) { h[1] = h[2] = h[0]; }
    for ( R & x : h ) { x = launder( x ); }
    uint64_t const hash = mix( mix( bitsOf( h[0] ), bitsOf( h[1] ) ), mix( bitsOf( h[2] ), strHash( RealName< R >::get() ) ) );
    if ( g.coin() ) { s.setData( h ); } else { auto & x = s.setData(); for ( int k = 2; k >= 0; --k ) { x[k] = h[k]; } }
    sg::Scaling< R > const cs = s;
    for ( int k = 0; k < 3; ++k ) { if ( std::memcmp( &cs.getData()[k], &h[k], sizeof( R ) < 10 ? sizeof( R ) : 10 ) ) { mon().fail( "stored", "Scaling does not keep the length it was given" ); } }
    Q const det = Q( h[0] ) * h[1] * h[2] / 8;
    junk( &J.data()[0], 3, g ); junk( &I.data()[0], 3, g ); junk( &d, 1, g );
    su::jacobian( cs, J ); su::inverseJacobian( cs, I, d );
    su::jacobian( s, keptJ ); su::inverseJacobian( s, keptI, keptD );
    auto const rJ = su::jacobian( cs ); auto const rI = su::inverseJacobian( cs );
    near( "Scaling determinant", d, det, h, 0, hash ); near( "Scaling determinant, reused output", keptD, det, h, 0, hash ); near( "Scaling determinant, returning form", std::get< 0 >( rI ), det, h, 0, hash );
    for ( int k = 0; k < 3; ++k )
    {
      near( "Scaling jacobian", J( k ), Q( h[k] ) / 2, h, k, hash ); near( "Scaling jacobian, reused output", keptJ( k ), Q( h[k] ) / 2, h, k, hash ); near( "Scaling jacobian, returning form", rJ( k ), Q( h[k] ) / 2, h, k, hash );
      near( "Scaling inverse", I( k ), 2 / Q( h[k] ), h, k, hash ); near( "Scaling inverse, reused output", keptI( k ), 2 / Q( h[k] ), h, k, hash ); near( "Scaling inverse, returning form", std::get< 1 >( rI )( k ), 2 / Q( h[k] ), h, k, hash );
    }
    mon().count( "boxes" );
    // a cube
    R const hu[3] = { h[0], h[0], h[0] };
    Q const udet = Q( h[0] ) * h[0] * h[0] / 8;
    if ( g.coin() ) { u.setData( h[0] ); } else { u.setData() = h[0]; }
    sg::UniformScaling< R > const cu = u;
    if ( cu.getData() != h[0] ) { mon().fail( "stored", "UniformScaling does not keep the length it was given" ); }
    junk( &uJ.data()[0], 1, g ); junk( &uI.data()[0], 1, g ); junk( &uD, 1, g );
    su::jacobian( cu, uJ ); su::inverseJacobian( cu, uI, uD );
    auto const ruJ = su::jacobian( cu ); auto const ruI = su::inverseJacobian( cu );
    near( "UniformScaling jacobian", uJ( 0 ), Q( h[0] ) / 2, hu, 0, hash ); near( "UniformScaling jacobian, returning form", ruJ( 0 ), Q( h[0] ) / 2, hu, 0, hash );
    near( "UniformScaling inverse", uI( 0 ), 2 / Q( h[0] ), hu, 0, hash ); near( "UniformScaling inverse, returning form", std::get< 1 >( ruI )( 0 ), 2 / Q( h[0] ), hu, 0, hash );
    near( "UniformScaling determinant", uD, udet, hu, 0, hash ); near( "UniformScaling determinant, returning form", std::get< 0 >( ruI ), udet, hu, 0, hash );
    // the general mapping of the same box
    if ( n % 8 == 0 )
    {
      Cell cell; auto & x = cell.getData();
      for ( int f = 0; f < 8; ++f ) { int t[3]; Box::tuple( f, t ); for ( int i = 0; i < 3; ++i ) { x( t[0], t[1], t[2], i ) = t[i] ? h[i] / 2 : -h[i] / 2; } }
      R c[3] = { R( g.uni( -1, 1 ) ), R( g.uni( -1, 1 ) ), R( g.uni( -1, 1 ) ) };
      typename Cell::JacobianType GJ, GI; R gd;
      su::jacobian( cell, c, GJ ); su::inverseJacobian( cell, c, GI, gd );
      Q const eps = unitRoundoff< R >();
      for ( int i = 0; i < 3; ++i )
      {
        for ( int j = 0; j < 3; ++j )
        {
          Q const wJ = i == j ? Q( J( i ) ) : Q( 0 ), wI = i == j ? Q( I( i ) ) : Q( 0 );
          if ( !( qabs( Q( GJ( i, j ) ) - wJ ) <= 200 * eps * Q( h[i] ) ) ) { mon().fail( "general mapping jacobian", fmt( "%s: J(%d,%d) is %.17g by the general mapping, %.17g by the scaling", RealName< R >::get(), i, j, double( GJ( i, j ) ), qd( wJ ) ) ); }
          if ( !( qabs( Q( GI( i, j ) ) - wI ) <= 4000 * eps / Q( h[j] ) ) ) { mon().fail( "general mapping inverse", fmt( "%s: inverse(%d,%d) is %.17g by the general mapping, %.17g by the scaling", RealName< R >::get(), i, j, double( GI( i, j ) ), qd( wI ) ) ); }
        }
      }
      if ( !( qabs( Q( gd ) - Q( d ) ) <= 2000 * eps * det ) ) { mon().fail( "general mapping determinant", fmt( "%s: determinant %.17g by the general mapping, %.17g by the scaling", RealName< R >::get(), double( gd ), double( d ) ) ); }
      mon().eval( mix( hash, 0xB0 ), true ); mon().count( "boxes compared with the general mapping" );
    }
    if ( n > 9 && mon().wantSample( fmt( "%d%s", kind, RealName< R >::get() ) ) ) { mon().sample( fmt( "%s h = %.9g %.9g %.9g: detJ %.17g, reference %.17g", RealName< R >::get(), double( h[0] ), double( h[1] ), double( h[2] ), double( d ), qd( det ) ) ); }
    for ( int k = 0; k < 3; ++k ) { if ( other.getData()[k] != R( 3 + 2 * k ) ) { mon().fail( "other cell", "another Scaling changed" ); } }
    if ( otherU.getData() != 11 ) { mon().fail( "other cell", "another UniformScaling changed" ); }
  }
}
VH_CASE( "double" ) { one< double >( rng ); }
VH_CASE( "float" ) { one< float >( rng ); }
VH_CASE( "long double" ) { one< long double >( rng ); }
