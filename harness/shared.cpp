// The evaluations of shared.hpp: VH_PART = 3 * type + third.
#include "shared.hpp"
namespace wl
{
template< typename M > static void all( M const & m, int n, Out & o ) { for ( int i = 0; i < n; ++i ) { for ( int j = 0; j < n; ++j ) { o.put( m( i, j ) ); } } }
#if VH_PART / 3 == 0
using Real = double;
#elif VH_PART / 3 == 1
using Real = float;
#else
using Real = long double;
#endif
#if VH_PART % 3 == 0
template< typename R > void runLow( Objects< R > const & at, int kind, int k1, int k2, Out & o )
{
  int const p = k1 & 3; (void)p; (void)k2;
  switch ( kind )
  {
    case 0: for ( int i = 0; i < 3; ++i ) { for ( int j = 0; j < 4; ++j ) { o.put( at.a2( i, j ) ); o.put( at.a2[i][j] ); } } o.put( at.a3( k1 & 1, k2 % 3, k1 % 4 ) ); o.put( at.a3[k1 & 1][k2 % 3][k1 % 4] ); o.put( at.a3.template operator()< 1, 2, 3 >() ); o.put( at.a2.rank() ); o.put( at.a3.template extent< 1 >() ); break;
    case 1: { auto const row = at.a2[k1 % 3]; auto const plane = at.a3[k1 & 1]; auto const line = plane[k2 % 3]; for ( int j = 0; j < 4; ++j ) { o.put( row[j] ); o.put( line( j ) ); o.put( plane( k2 % 3, j ) ); } break; }
    case 2: o.put( ShHex< R >::Parent::value( at.p3[p], at.f1 ) ); break;
    case 3: { auto const g = ShHex< R >::Parent::gradient( at.p3[p], at.f1 ); for ( int d = 0; d < 3; ++d ) { o.put( g( d ) ); } break; }
    case 4: { o.put( ShMix< R >::Parent::value( at.p3[p], at.f2 ) ); auto const g = ShMix< R >::Parent::gradient( at.p3[k2 & 3], at.f2 ); for ( int d = 0; d < 3; ++d ) { o.put( g( d ) ); } break; }
    case 5: { o.put( ShFlat< R >::Parent::value( at.p2[p], at.f3 ) ); auto const g = ShFlat< R >::Parent::gradient( at.p2[k2 & 3], at.f3 ); for ( int d = 0; d < 2; ++d ) { o.put( g( d ) ); } break; }
    case 6: { typename ShHex< R >::Cell::JacobianType J; dirty( J ); su::jacobian( at.c1, at.p3[p], J ); all( J, 3, o ); su::jacobian( at.c1, at.q3, J ); all( J, 3, o ); break; }
    case 7: { typename ShMix< R >::Cell::JacobianType J; dirty( J ); su::jacobian( at.c2, at.p3[p], J ); all( J, 3, o ); all( su::jacobian( at.c2, at.p3[k2 & 3] ), 3, o ); break; }
  }
}
template void runLow< Real >( Objects< Real > const &, int, int, int, Out & );
#endif
#if VH_PART % 3 == 1
template< typename R > void runMiddle( Objects< R > const & at, int kind, int k1, int k2, Out & o )
{
  int const p = k1 & 3; (void)p; (void)k2;
  switch ( kind )
  {
    case 8: { typename ShFlat< R >::Cell::JacobianType J; dirty( J ); su::jacobian( at.c3, at.p2[p], J ); all( J, 2, o ); su::jacobian( at.c3, at.q2, J ); all( J, 2, o ); break; }
    case 9: { typename ShHex< R >::Cell::JacobianType J; R d{}; dirty( J ); dirty( d ); su::inverseJacobian( at.c1, at.p3[p], J, d ); all( J, 3, o ); o.put( d ); break; }
    case 10: { auto const t = su::inverseJacobian( at.c2, at.p3[p] ); o.put( std::get< 0 >( t ) ); all( std::get< 1 >( t ), 3, o ); break; }
    case 11: { typename ShHex< R >::Cell::JacobianType J; dirty( J ); su::jacobian< shiva::QuadratureGaussLegendre< R, 2 >, 0, 1, 1 >( at.c1, J ); all( J, 3, o ); su::jacobian< shiva::QuadratureGaussLegendre< R, 2 >, 1, 0, 0 >( at.c1, J ); all( J, 3, o ); break; }
    case 12: { typename ShMix< R >::Cell::JacobianType J; dirty( J ); su::jacobian< shiva::QuadratureGaussLobatto< R, 3 >, 1, 2, 0 >( at.c2, J ); all( J, 3, o ); break; }
  }
}
template void runMiddle< Real >( Objects< Real > const &, int, int, int, Out & );
#endif
#if VH_PART % 3 == 2
template< typename R > void runHigh( Objects< R > const & at, int kind, int k1, int k2, Out & o )
{
  int const p = k1 & 3; (void)p; (void)k2;
  switch ( kind )
  {
    case 13:
      {
        typename sg::Scaling< R >::JacobianType J, I; typename sg::UniformScaling< R >::JacobianType uJ, uI; R d{}, ud{}; dirty( J ); dirty( I ); dirty( uJ ); dirty( uI ); dirty( d ); dirty( ud );
        su::jacobian( at.s, J ); su::inverseJacobian( at.s, I, d ); su::jacobian( at.u, uJ ); su::inverseJacobian( at.u, uI, ud );
        auto const r = su::inverseJacobian( at.s ); auto const ur = su::inverseJacobian( at.u );
        for ( int k = 0; k < 3; ++k ) { o.put( J( k ) ); o.put( I( k ) ); o.put( std::get< 1 >( r )( k ) ); o.put( at.s.getData()[k] ); } o.put( d ); o.put( uJ( 0 ) ); o.put( uI( 0 ) ); o.put( ud ); o.put( std::get< 0 >( r ) ); o.put( std::get< 0 >( ur ) ); break;
      }
    case 14: { o.put( shiva::linearIndex( at.i1 ) ); o.put( shiva::linearIndex( at.i2 ) ); auto x = at.i1; long long n = 0, w = 0; shiva::forRange( x, [&] ( auto const & x_ ) { ++n; w = ( w * 31 + x_.data[0] * 16 + x_.data[1] * 4 + x_.data[2] ) % 1000003; } ); o.put( n ); o.put( w ); break; }
    case 15: { auto copy = at.m; R d{}; dirty( d ); mu::inverse( copy, d ); all( copy, 3, o ); o.put( d ); break; }
    case 16: { R x[3][3]; for ( int i = 0; i < 9; ++i ) { x[i / 3][i % 3] = at.m( i / 3, i % 3 ); } R d{}; dirty( d ); mu::inverse( x, d ); for ( auto & row : x ) { for ( R v : row ) { o.put( v ); } } o.put( d ); break; }
    case 17: { ShapeOp< ShMix< R > >::template one< typename ShMix< R >::Parent, 7 >( at.p3[p], o ); ShapeOp< ShMix< R > >::template one< typename ShMix< R >::Shape, 3 >( at.q3, o ); ShapeOp< ShMix< R > >::template one< typename ShMix< R >::Product, 17 >( at.p3[k2 & 3], o ); break; }
    case 18: { R const x = at.p2[p][k2 & 1]; BasisOp< LO< R, 4 >, R >::all( x, o, std::make_integer_sequence< int, 5 >{} ); BasisOp< EQ< R, 3 >, R >::all( x, o, std::make_integer_sequence< int, 4 >{} ); o.put( shiva::QuadratureGaussLobatto< R, 5 >::coordinate( k1 % 5 ) ); o.put( shiva::QuadratureGaussLobatto< R, 5 >::weight( k2 % 5 ) ); o.put( shiva::QuadratureGaussLegendre< R, 4 >::coordinate( k1 % 4 ) ); o.put( shiva::QuadratureGaussLegendre< R, 4 >::weight( k2 % 4 ) ); o.put( shiva::EqualSpacing< R, 6 >::coordinate( k1 % 6 ) ); break; }
    case 19: { auto copy = at.c1; copy.getData()( 1, 0, 1, 2 ) = at.p3[p][0]; all( su::jacobian( copy, at.p3[k2 & 3] ), 3, o ); auto field = at.f1; field( 0, 1, 0 ) = at.p3[p][2]; o.put( ShHex< R >::Parent::value( at.p3[k2 & 3], field ) ); break; }
  }
}
template void runHigh< Real >( Objects< Real > const &, int, int, int, Out & );
#endif
} // namespace wl
