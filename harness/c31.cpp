// C31: what a component publishes about itself (sizes, counts, types) describes it truly: a caller that knows it only
// through these traits uses it right.
#include "elements.hpp"
#include "shiva/common/IndexTypes.hpp"
#include "shiva/common/types.hpp"
#include "shiva/geometry/mapping/JacobianTransforms.hpp"
#include "shiva/geometry/mapping/LinearTransform.hpp"
#include "shiva/geometry/mapping/Scaling.hpp"
#include "shiva/geometry/mapping/UniformScaling.hpp"
#include "shiva/geometry/shapes/NSimplex.hpp"
using namespace vh;
using namespace elems;
namespace sg = shiva::geometry;

static std::string owner;
static void holds( bool ok, char const * what )
{
  mon().eval( mix( strHash( owner.c_str() ), strHash( what ) ) );
  mon().count( "facts" );
  if ( !ok ) { mon().fail( std::string( what ) + "/" + owner, owner + ": " + what + " is not what the component does" ); }
}
static void number( long got, long want, char const * what )
{
  mon().eval( mix( strHash( owner.c_str() ), strHash( what ) ) );
  mon().count( "numbers" );
  if ( got != want ) { mon().fail( std::string( what ) + "/" + owner, fmt( "%s: %s is published as %ld, it is %ld", owner.c_str(), what, got, want ) ); }
}
template< typename A, typename B > static constexpr bool same = std::is_same_v< A, B >;
template< typename A, typename B > static constexpr bool sameVal = std::is_same_v< std::remove_cv_t< std::remove_reference_t< A > >, B >;
template< typename A, int ... I > static std::vector< int > extents( std::integer_sequence< int, I ... > ) { return { A::template extent< I >() ... }; }
// an array type: its element type, rank and extents as used
template< typename A, typename T, int ... E > static void arrayIs( char const * what )
{
  holds( same< typename A::value_type, T > && same< typename A::element_type, T >, what );
  int const want[] = { E ... };
  number( A::rank(), sizeof...( E ), what );
  if constexpr ( A::rank() == sizeof...( E ) )
  {
    auto const got = extents< A >( std::make_integer_sequence< int, int( sizeof...( E ) ) >{} );
    for ( size_t i = 0; i < sizeof...( E ); ++i ) { number( got[i], want[i], what ); }
    A a{}; number( long( sizeof( a ) / sizeof( T ) ), ( E * ... ), what ); number( A::size(), ( E * ... ), what );
    holds( sameVal< decltype( a.data()[0] ), T >, what );
  }
}

// ---- arrays and indices
template< typename T, int ... D > static void arrays()
{
  owner = fmt( "CArray<%s", RealName< T >::get() ); for ( int d : { D ... } ) { owner += fmt( ",%d", d ); } owner += ">";
  using A = shiva::CArrayNd< T, D ... >; using V = shiva::CArrayViewNd< T, D ... >; using C = shiva::CArray< T const, T const * const, D ... >;
  arrayIs< A, T, D ... >( "array type" );
  holds( same< typename V::element_type, T > && same< typename V::value_type, T >, "types of a view" );
  holds( same< typename C::element_type, T const > && same< typename C::value_type, T >, "types of a view of const" );
  holds( std::is_integral_v< typename A::index_type > && std::is_signed_v< typename A::index_type > && sizeof( typename A::index_type ) >= sizeof( int ), "index_type" );
  number( V::rank(), sizeof...( D ), "rank of a view" ); number( V::size(), ( D * ... ), "size of a view" ); number( C::size(), ( D * ... ), "size of a view of const" );
}
template< typename T, T ... R > static void indices( char const * t )
{
  owner = fmt( "MultiIndexRange<%s", t ); for ( T r : { R ... } ) { owner += fmt( ",%ld", long( r ) ); } owner += ">";
  using M = shiva::MultiIndexRange< T, R ... >;
  M m{};
  holds( same< typename M::BaseIndexType, T > && sameVal< decltype( m.data[0] ), T >, "BaseIndexType" );
  number( M::NUM_INDICES, sizeof...( R ), "NUM_INDICES" ); number( long( sizeof( m.data ) / sizeof( T ) ), sizeof...( R ), "number of components" );
  long const want[] = { long( R ) ... };
  for ( int i = 0; i < int( sizeof...( R ) ); ++i ) { number( M::range( launder( i ) ), want[i], "range()" ); }
  using I = shiva::MultiIndex< T, sizeof...( R ) >;
  I i{}; holds( same< typename I::BaseIndexType, T > && sameVal< decltype( i.data[0] ), T >, "BaseIndexType of MultiIndex" ); number( long( sizeof( i.data ) / sizeof( T ) ), sizeof...( R ), "number of components of MultiIndex" );
}
template< int ... > struct Pack {};
static void sequences()
{
  owner = "integer sequences";
  holds( same< shiva::int_sequence< 3, 1, 2 >, std::integer_sequence< int, 3, 1, 2 > >, "int_sequence" );
  holds( same< shiva::make_int_sequence< 4 >, std::integer_sequence< int, 0, 1, 2, 3 > > && same< shiva::make_int_sequence< 0 >, std::integer_sequence< int > >, "make_int_sequence" );
  holds( same< typename shiva::SequenceAlias< Pack, std::integer_sequence< int, 5, 0, -7 > >::type, Pack< 5, 0, -7 > >, "SequenceAlias" );
  holds( same< typename shiva::SequenceAlias< shiva::MultiIndexRangeI, std::integer_sequence< int, 2, 3 > >::type, shiva::MultiIndexRange< int, 2, 3 > >, "MultiIndexRangeI" );
  owner = "tuple";
  int i = 4; double const x = 2.5;
  auto t = shiva::make_tuple( i, x, 'c', 7L );
  holds( same< decltype( t ), shiva::tuple< int, double, char, long > >, "type of make_tuple" );
  using std::get;
  holds( get< 0 >( t ) == 4 && get< 1 >( t ) == 2.5 && get< 2 >( t ) == 'c' && get< 3 >( t ) == 7L, "make_tuple" );
  i = 5; holds( get< 0 >( t ) == 4, "make_tuple keeps copies" );
}

// ---- points, rules, bases
template< typename S, typename R > static void points( char const * what, int n )
{
  owner = fmt( "%s<%s,%d>", what, RealName< R >::get(), n );
  number( S::numPoints, n, "numPoints" );
  holds( same< decltype( S::coordinate( 0 ) ), R > && same< decltype( S::template coordinate< 0 >() ), R >, "type of a coordinate" );
}
template< typename S, typename R > static void rule( char const * what, int n )
{
  points< S, R >( what, n );
  holds( same< decltype( S::weight( 0 ) ), R > && same< decltype( S::template weight< 0 >() ), R >, "type of a weight" );
}
template< typename R, int O, template< typename, int > class S > static void basis( char const * what )
{
  using B = shiva::functions::LagrangeBasis< R, O, S >;
  points< B, R >( what, O + 1 );
  number( B::order, O, "order" ); number( B::numSupportPoints, O + 1, "numSupportPoints" );
  R const x = R( 0.3 );
  holds( same< decltype( B::template value< 0 >( x ) ), R > && same< decltype( B::template gradient< 0 >( x ) ), R >, "type of a value" );
  number( B::SpacingType::numPoints, O + 1, "numPoints of SpacingType" );
  for ( int i = 0; i <= O; ++i ) { holds( B::SpacingType::coordinate( launder( i ) ) == S< R, O + 1 >::coordinate( launder( i ) ), "points of SpacingType" ); }
}
template< typename R, int ... N > static void equal( std::integer_sequence< int, N ... > )
{
  ( points< shiva::EqualSpacing< R, N + 2 >, R >( "EqualSpacing", N + 2 ), ... );
  ( basis< R, N + 1, shiva::EqualSpacing >( "LagrangeBasis on EqualSpacing" ), ... );
}
template< typename R, int ... N > static void legendre( std::integer_sequence< int, N ... > )
{
  ( points< shiva::GaussLegendreSpacing< R, N + 2 >, R >( "GaussLegendreSpacing", N + 2 ), ... );
  ( rule< shiva::QuadratureGaussLegendre< R, N + 2 >, R >( "QuadratureGaussLegendre", N + 2 ), ... );
  ( basis< R, N + 1, shiva::GaussLegendreSpacing >( "LagrangeBasis on GaussLegendreSpacing" ), ... );
}
template< typename R, int ... N > static void lobatto( std::integer_sequence< int, N ... > )
{
  ( points< shiva::GaussLobattoSpacing< R, N + 2 >, R >( "GaussLobattoSpacing", N + 2 ), ... );
  ( rule< shiva::QuadratureGaussLobatto< R, N + 2 >, R >( "QuadratureGaussLobatto", N + 2 ), ... );
  ( basis< R, N + 1, shiva::GaussLobattoSpacing >( "LagrangeBasis on GaussLobattoSpacing" ), ... );
  ( basis< R, N + 1, shiva::QuadratureGaussLobatto >( "LagrangeBasis on QuadratureGaussLobatto" ), ... );
}

// ---- shapes and elements
template< typename S, typename R, int N > static void shape( char const * what )
{
  owner = fmt( "%s<%s,%d>", what, RealName< R >::get(), N );
  number( S::numDims(), N, "numDims" );
  holds( same< typename S::RealType, R >, "RealType" );
  holds( same< typename S::CoordType, R[N] >, "CoordType" );
  holds( same< decltype( S::minCoord() ), R > && same< decltype( S::maxCoord() ), R > && same< decltype( S::length() ), R > && same< decltype( S::volume() ), R >, "type of a measure" );
}
template< typename R > static void near( char const * what, R got, R want )
{
  mon().eval( mix( strHash( owner.c_str() ), strHash( what ) ), want != R( 0 ) ); mon().count( "values" );
  // the same evaluation of the same numbers: to the accuracy of the type itself
  if ( !( std::fabs( double( got - want ) ) <= 64 * double( std::numeric_limits< R >::epsilon() ) * ( 1 + std::fabs( double( want ) ) ) ) ) { mon().fail( std::string( what ) + "/" + owner, fmt( "%s: %s gives %.21Lg through the published coordinate type and %.21Lg with a list of coordinates", owner.c_str(), what, (long double)want, (long double)got ) ); }
}
template< typename X, typename E, typename R, int ... D > static void calls( char const * what, std::integer_sequence< int, D ... > )
{
  // the coordinate type the component asks for, used by its own traits only
  typename X::CoordType c{};
  static constexpr R at[] = { R( 0.1L ), R( -0.7L ), R( 0.3L ), R( 0.9L ) };
  for ( int d = 0; d < X::numDims; ++d ) { c[d] = at[d]; }
  holds( sizeof( c ) == sizeof( R ) * size_t( E::dim ), "CoordType" );
  auto const v = X::template value< ( D * 0 ) ... >( c );
  auto const g = X::template gradient< ( D * 0 ) ... >( c );
  holds( sameVal< decltype( v ), R >, "type of a value" );
  using G = std::remove_const_t< decltype( g ) >;
  arrayIs< G, R, E::dim >( "type of a gradient" );
  // a list of coordinates means the published coordinate type
  near< R >( "value of a list of coordinates", X::template value< ( D * 0 ) ... >( { at[D] ... } ), v );
  auto const gl = X::template gradient< ( D * 0 ) ... >( { at[D] ... } );
  for ( int d = 0; d < E::dim; ++d ) { near< R >( "gradient of a list of coordinates", gl( d ), g( d ) ); }
  mon().sample( fmt( "%s %s: first shape function %.17g", owner.c_str(), what, double( v ) ) );
}
template< typename I, typename ... B > static void ranges( char const * what )
{
  int const counts[] = { B::numSupportPoints ... };
  number( I::NUM_INDICES, sizeof...( B ), what );
  for ( int d = 0; d < int( sizeof...( B ) ); ++d ) { number( I::range( launder( d ) ), counts[d], what ); }
}
template< typename R, typename ... B > static void element( char const * name )
{
  using E = Element< R, B ... >;
  constexpr int dim = sizeof...( B );
  using Seq = std::integer_sequence< int, B::numSupportPoints ... >;
  using D = std::make_integer_sequence< int, dim >;
  std::string const base = fmt( "%s %s", name, RealName< R >::get() );
  {
    using X = typename E::Product;
    owner = "BasisProduct " + base;
    number( X::numDims, dim, "numDims" ); holds( same< typename X::RealType, R >, "RealType" ); holds( same< typename X::CoordType, R[dim] >, "CoordType" );
    holds( same< typename X::numSupportPoints, Seq >, "numSupportPoints" );
    ranges< typename X::IndexType, B ... >( "IndexType" );
    calls< X, E, R >( "BasisProduct", D{} );
    long n = 0; X::supportLoop( [&] ( auto const ... i ) { static_assert( sizeof...( i ) == dim ); ++n; } );
    number( n, E::total, "number of support points visited" );
  }
  {
    using X = typename E::Shape;
    owner = "InterpolatedShape " + base;
    number( X::numDims, dim, "numDims" ); holds( same< typename X::RealType, R >, "RealType" ); holds( same< typename X::CoordType, R[dim] >, "CoordType" );
    holds( same< typename X::StandardGeom, typename E::Geom >, "StandardGeom" ); holds( same< typename X::BasisCombinationType::RealType, R >, "RealType of BasisCombinationType" ); number( X::BasisCombinationType::numDims, dim, "numDims of BasisCombinationType" );
    number( X::numVertices, 1L << dim, "numVertices" );
    holds( same< typename X::numSupportPointsSequence, Seq >, "numSupportPointsSequence" );
    calls< X, E, R >( "InterpolatedShape", D{} );
    long n = 0; X::supportLoop( [&] ( auto const ... i ) { static_assert( sizeof...( i ) == dim ); ++n; } );
    number( n, E::total, "number of support points visited" );
  }
  {
    using X = typename E::Parent;
    owner = "ParentElement " + base;
    number( X::numDims, dim, "numDims" ); holds( same< typename X::RealType, R >, "RealType" ); holds( same< typename X::CoordType, R[dim] >, "CoordType" );
    holds( same< typename X::ShapeType, typename E::Geom >, "ShapeType" );
    int const counts[] = { B::numSupportPoints ... };
    number( long( sizeof( X::numSupportPoints ) / sizeof( X::numSupportPoints[0] ) ), dim, "length of numSupportPoints" );
    for ( int d = 0; d < dim; ++d ) { number( X::numSupportPoints[launder( d )], counts[d], "numSupportPoints" ); }
    calls< X, E, R >( "ParentElement", D{} );
    typename X::CoordType c{};
    typename E::template FieldOf< float > f{}; typename E::template FieldOf< double > d{}; typename E::template FieldOf< int > i{};
    holds( sameVal< decltype( X::value( c, f ) ), R > && sameVal< decltype( X::value( c, d ) ), R > && sameVal< decltype( X::value( c, i ) ), R >, "type of a field value" );
    holds( sameVal< typename decltype( X::gradient( c, f ) )::value_type, R > && sameVal< typename decltype( X::gradient( c, d ) )::value_type, R >, "type of a field gradient" );
  }
}

// ---- cells
template< typename R, typename ... B > static void cell( char const * name )
{
  using E = Element< R, B ... >;
  using T = sg::LinearTransform< R, typename E::Shape >;
  owner = fmt( "LinearTransform %s %s", name, RealName< R >::get() );
  number( T::numDims, 3, "numDims" ); number( T::numVertices, 8, "numVertices" ); holds( same< typename T::RealType, R >, "RealType" );
  holds( same< typename T::InterpolatedShape, typename E::Shape >, "InterpolatedShape" );
  arrayIs< typename T::JacobianType, R, 3, 3 >( "JacobianType" );
  arrayIs< typename T::DataType, R, B::numSupportPoints ..., 3 >( "DataType" );
  ranges< typename T::SupportIndexType, B ... >( "SupportIndexType" );
  T t{}; T const & k = t;
  holds( same< decltype( t.getData() ), typename T::DataType & > && same< decltype( k.getData() ), typename T::DataType const & >, "type of getData()" );
  // the Jacobian varies in the cell that is not a parallelepiped; a cell that claims otherwise is integrated with one Jacobian
  auto & x = t.getData();
  int const n[] = { B::numSupportPoints ... };
  using Nodes = std::vector< std::vector< Q > >; Nodes const nodes = E::nodes();
  for ( int a = 0; a < n[0]; ++a ) { for ( int b = 0; b < n[1]; ++b ) { for ( int c = 0; c < n[2]; ++c ) { R const u = R( nodes[0][size_t( a )] ), v = R( nodes[1][size_t( b )] ), w = R( nodes[2][size_t( c )] ); x( a, b, c, 0 ) = u * ( 1 + R( 0.25 ) * v ); x( a, b, c, 1 ) = v + R( 0.125 ) * u * w; x( a, b, c, 2 ) = w; } } }
  R const p[3] = { R( -0.5 ), R( -0.5 ), R( 0.5 ) }, q[3] = { R( 0.5 ), R( 0.75 ), R( -0.25 ) };
  auto const Jp = sg::utilities::jacobian( k, p ), Jq = sg::utilities::jacobian( k, q );
  holds( sameVal< decltype( Jp ), typename T::JacobianType >, "type of a Jacobian" );
  bool differ = false; for ( int i = 0; i < 3; ++i ) { for ( int j = 0; j < 3; ++j ) { differ = differ || !( std::fabs( double( Jp( i, j ) - Jq( i, j ) ) ) < 1e-3 ); } }
  holds( !( differ && T::jacobianIsConstInCell() ), "jacobianIsConstInCell" );
  auto const inv = sg::utilities::inverseJacobian( k, p );
  holds( sameVal< decltype( inv ), shiva::tuple< R, typename T::JacobianType > >, "type of an inverse Jacobian" );
  // a list of coordinates means coordinates of the published type
  static constexpr R at[3] = { R( 0.1L ), R( -0.7L ), R( 0.3L ) };
  R const atv[3] = { at[0], at[1], at[2] };
  typename T::JacobianType J{}, JL{}; R dJ = 0, dL = 0;
  sg::utilities::jacobian( k, atv, J ); sg::utilities::jacobian( k, { at[0], at[1], at[2] }, JL );
  for ( int i = 0; i < 9; ++i ) { near< R >( "Jacobian at a list of coordinates", JL.data()[i], J.data()[i] ); }
  sg::utilities::inverseJacobian( k, atv, J, dJ ); sg::utilities::inverseJacobian( k, { at[0], at[1], at[2] }, JL, dL );
  near< R >( "determinant at a list of coordinates", dL, dJ );
  for ( int i = 0; i < 9; ++i ) { near< R >( "inverse Jacobian at a list of coordinates", JL.data()[i], J.data()[i] ); }
}
template< typename R > static void scalings()
{
  {
    using T = sg::Scaling< R >; T t{}; T const & k = t;
    owner = fmt( "Scaling<%s>", RealName< R >::get() );
    holds( same< typename T::RealType, R >, "RealType" ); arrayIs< typename T::JacobianType, R, 3 >( "JacobianType" );
    holds( same< typename T::DataType, R[3] > && same< decltype( k.getData() ), typename T::DataType const & >, "DataType" );
    holds( T::jacobianIsConstInCell(), "jacobianIsConstInCell" );
    holds( sameVal< decltype( sg::utilities::jacobian( k ) ), typename T::JacobianType > && sameVal< decltype( sg::utilities::inverseJacobian( k ) ), shiva::tuple< R, typename T::JacobianType > >, "type of a Jacobian" );
  }
  {
    using T = sg::UniformScaling< R >; T t{}; T const & k = t;
    owner = fmt( "UniformScaling<%s>", RealName< R >::get() );
    holds( same< typename T::RealType, R >, "RealType" ); arrayIs< typename T::JacobianType, R, 1 >( "JacobianType" );
    holds( same< typename T::DataType, R > && sameVal< decltype( k.getData() ), typename T::DataType >, "DataType" );
    holds( T::jacobianIsConstInCell(), "jacobianIsConstInCell" );
    holds( sameVal< decltype( sg::utilities::jacobian( k ) ), typename T::JacobianType > && sameVal< decltype( sg::utilities::inverseJacobian( k ) ), shiva::tuple< R, typename T::JacobianType > >, "type of a Jacobian" );
  }
}

template< typename R > static void reals1()
{
  equal< R >( std::make_integer_sequence< int, 9 >{} ); legendre< R >( std::make_integer_sequence< int, 3 >{} ); lobatto< R >( std::make_integer_sequence< int, 8 >{} );
  shape< sg::NCube< R, 1, -1, 1, 1 >, R, 1 >( "NCube" ); shape< sg::NCube< R, 4, 0, 3, 2 >, R, 4 >( "NCube" ); shape< sg::NCube< R, 7, -3, 5, 4 >, R, 7 >( "NCube" ); shape< sg::Square< R >, R, 2 >( "Square" ); shape< sg::Cube< R >, R, 3 >( "Cube" );
  shape< sg::NSimplex< R, 1, 0, 1, 1 >, R, 1 >( "NSimplex" ); shape< sg::NSimplex< R, 4, -1, 3, 2 >, R, 4 >( "NSimplex" ); shape< sg::Triangle< R >, R, 2 >( "Triangle" ); shape< sg::Tetrahedron< R >, R, 3 >( "Tetrahedron" );
  scalings< R >();
}
template< typename R > static void reals2()
{
  element< R, LO< R, 2 > >( "line" ); element< R, EQ< R, 1 >, LO< R, 3 > >( "square 1x3" ); element< R, LE< R, 2 >, EQ< R, 1 >, LO< R, 4 > >( "cube 2x1x4" ); element< R, EQ< R, 1 >, LO< R, 2 >, LE< R, 1 >, QL< R, 2 > >( "hypercube 1x2x1x2" ); element< R, QL< R, 1 >, QL< R, 1 >, QL< R, 1 > >( "cube 1x1x1" );
  cell< R, EQ< R, 1 >, EQ< R, 1 >, EQ< R, 1 > >( "1x1x1" ); cell< R, LO< R, 2 >, EQ< R, 1 >, LE< R, 3 > >( "2x1x3" ); cell< R, QL< R, 1 >, LO< R, 3 >, EQ< R, 2 > >( "1x3x2" );
}
#if VH_PART == 0
VH_CASE( "arrays and indices" )
{
  arrays< double, 1 >(); arrays< float, 5 >(); arrays< double, 2, 3 >(); arrays< long double, 3, 1, 2 >(); arrays< float, 2, 3, 4, 5 >();
  indices< int, 1 >( "int" ); indices< int, 2, 7, 3 >( "int" ); indices< long, 5, 1 >( "long" ); indices< short, 9, 3, 300, 2 >( "short" ); indices< unsigned char, 3, 200 >( "unsigned char" ); indices< unsigned long long, 4, 6, 70000 >( "unsigned long long" );
  sequences();
}
VH_CASE( "points, bases, shapes and scalings" ) { reals1< float >(); reals1< double >(); reals1< long double >(); }
#elif VH_PART == 1
VH_CASE( "elements and cells, double" ) { reals2< double >(); }
#elif VH_PART == 2
VH_CASE( "elements and cells, float" ) { reals2< float >(); }
#elif VH_PART == 3
VH_CASE( "elements and cells, long double" ) { reals2< long double >(); }
#endif
