// One translation unit of a C27 program: evaluates the same things as every other unit.
// Functions with internal linkage, so that each unit uses its own copy of the library's code;
// addresses of what the library shares between units are reported too.
#include <cstdio>
#include <vector>
namespace
{
template< typename R > void evaluate( unsigned long long seed, std::vector< long double > & o )
{
  auto next = [&] { seed = seed * 6364136223846793005ull + 1442695040888963407ull; return R( double( seed >> 40 ) / double( 1 << 24 ) * 2 - 1 ); };
  using LO1 = shiva::functions::LagrangeBasis< R, 1, shiva::GaussLobattoSpacing >; using LO3 = shiva::functions::LagrangeBasis< R, 3, shiva::GaussLobattoSpacing >; using EQ2 = shiva::functions::LagrangeBasis< R, 2, shiva::EqualSpacing >;
  using Cube = shiva::geometry::NCube< R, 3, -1, 1, 1 >;
  using Shape = shiva::geometry::InterpolatedShape< R, Cube, LO1, EQ2, LO1 >; using Parent = shiva::discretizations::finiteElementMethod::ParentElement< R, Cube, LO1, EQ2, LO1 >;
  shiva::geometry::LinearTransform< R, Shape > cell; shiva::CArrayNd< R, 2, 3, 2 > f;
  int const n[3] = { 2, 3, 2 };
  for ( int a = 0; a < n[0]; ++a ) { for ( int b = 0; b < n[1]; ++b ) { for ( int c = 0; c < n[2]; ++c ) { int const i[3] = { a, b, c }; f( a, b, c ) = next(); for ( int d = 0; d < 3; ++d ) { cell.getData()( a, b, c, d ) = R( 2.0 * i[d] / ( n[d] - 1 ) - 1 ) + R( .1 ) * next(); } } } }
  for ( int k = 0; k < 4; ++k )
  {
    R const x[3] = { next(), next(), next() };
    o.push_back( Parent::value( x, f ) ); auto const g = Parent::gradient( x, f ); for ( int d = 0; d < 3; ++d ) { o.push_back( g( d ) ); }
    auto const J = shiva::geometry::utilities::jacobian( cell, x ); auto const t = shiva::geometry::utilities::inverseJacobian( cell, x );
    for ( int i = 0; i < 3; ++i ) { for ( int j = 0; j < 3; ++j ) { o.push_back( J( i, j ) ); o.push_back( std::get< 1 >( t )( i, j ) ); } } o.push_back( std::get< 0 >( t ) );
    o.push_back( LO3::template value< 2 >( x[0] ) ); o.push_back( LO3::template gradient< 1 >( x[1] ) );
    shiva::geometry::Scaling< R > s; R const h[3] = { 1 + x[0] * x[0], 2, 3 }; s.setData( h ); auto const sj = shiva::geometry::utilities::inverseJacobian( s ); o.push_back( std::get< 0 >( sj ) );
    shiva::geometry::UniformScaling< R > u; u.setData( h[0] ); auto const uj = shiva::geometry::utilities::inverseJacobian( u ); o.push_back( std::get< 0 >( uj ) );
  }
  for ( int k = 0; k < 4; ++k ) { o.push_back( shiva::QuadratureGaussLegendre< R, 4 >::coordinate( k ) ); o.push_back( shiva::QuadratureGaussLegendre< R, 4 >::weight( k ) ); o.push_back( shiva::QuadratureGaussLobatto< R, 5 >::coordinate( k ) ); o.push_back( shiva::QuadratureGaussLobatto< R, 5 >::weight( k ) ); o.push_back( shiva::EqualSpacing< R, 5 >::coordinate( k ) ); }
  shiva::MultiIndexRange< int, 3, 4, 2 > i; i.data[0] = 1; i.data[1] = 3; i.data[2] = 1; o.push_back( shiva::linearIndex( i ) );
  int calls = 0; shiva::forRange( i = { 0, 0, 0 }, [&] ( auto const & ) { ++calls; } ); o.push_back( calls );
  shiva::forNestedSequence< 2, 3 >( [&] ( auto const a, auto const b ) { o.push_back( decltype( a )::value * 10 + decltype( b )::value ); } );
  o.push_back( shiva::mathUtilities::pow< R, 3 >( R( 1.5 ) ) ); o.push_back( shiva::mathUtilities::factorial< long long, 9 >::value ); o.push_back( shiva::mathUtilities::binomialCoefficient< int, 9, 4 >::value );
  o.push_back( Cube::volume() ); o.push_back( shiva::geometry::NSimplex< R, 3, 0, 1, 1 >::volume() ); o.push_back( shiva::pmpl::check( R( 1 ), R( 1.25 ), R( .5 ) ) );
  shiva::pmpl::genericKernelWrapper( [&] { o.push_back( 77 ); } );
  SHIVA_ASSERT_MSG( calls == 24, "calls %d", calls );
}
#define UNIT_CAT2( a, b ) a##b
#define UNIT_CAT( a, b ) UNIT_CAT2( a, b )
}
void UNIT_CAT( unitValues, UNIT )( unsigned long long seed, std::vector< long double > & o ) { evaluate< double >( seed, o ); evaluate< float >( seed + 1, o ); }
// static data members of class templates are one object in the whole program
void UNIT_CAT( unitAddresses, UNIT )( std::vector< void const * > & o )
{
  using LO1 = shiva::functions::LagrangeBasis< double, 1, shiva::GaussLobattoSpacing >; using Cube = shiva::geometry::NCube< double, 3, -1, 1, 1 >;
  using Shape = shiva::geometry::InterpolatedShape< double, Cube, LO1, LO1, LO1 >; using Parent = shiva::discretizations::finiteElementMethod::ParentElement< double, Cube, LO1, LO1, LO1 >;
  o.push_back( &Shape::numVertices ); o.push_back( &Shape::numDims ); o.push_back( &Parent::numDims ); o.push_back( &Parent::numSupportPoints[0] ); o.push_back( &LO1::numSupportPoints ); o.push_back( &LO1::order );
  o.push_back( &shiva::MultiIndexRange< int, 3, 4, 2 >::NUM_INDICES ); o.push_back( &shiva::geometry::LinearTransform< double, Shape >::numVertices ); o.push_back( reinterpret_cast< void const * >( &shivaAssertionFailed ) );
  o.push_back( &shiva::QuadratureGaussLegendre< double, 3 >::numPoints ); o.push_back( &shiva::EqualSpacing< double, 3 >::numPoints );
}
