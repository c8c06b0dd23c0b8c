// Typed operations over the whole library, used by C20 to C23 and C25.
// Each operation has an input struct (independent fields, trivially copyable), a constexpr
// input maker and a constexpr run() that puts every result into Out. Nothing here needs
// compiled library code (std::string, streams), so it can run under MemorySanitizer.
#pragma once
#include "shiva/common/CArray.hpp"
#include "shiva/common/IndexTypes.hpp"
#include "shiva/common/MathUtilities.hpp"
#include "shiva/common/NestedSequenceUtilities.hpp"
#include "shiva/common/SequenceUtilities.hpp"
#include "shiva/common/pmpl.hpp"
#include "shiva/common/types.hpp"
#include "shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp"
#include "shiva/functions/bases/BasisProduct.hpp"
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/quadrature/Quadrature.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include "shiva/geometry/mapping/JacobianTransforms.hpp"
#include "shiva/geometry/mapping/LinearTransform.hpp"
#include "shiva/geometry/mapping/Scaling.hpp"
#include "shiva/geometry/mapping/UniformScaling.hpp"
#include "shiva/geometry/shapes/InterpolatedShape.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/geometry/shapes/NSimplex.hpp"
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <type_traits>
#include <utility>

namespace wl
{
namespace sg = shiva::geometry;
namespace su = shiva::geometry::utilities;
namespace mu = shiva::mathUtilities;

struct G
{
  uint64_t s;
  constexpr explicit G( uint64_t seed ): s( seed * 0x9E3779B97F4A7C15ull + 77 ) { next(); }
  constexpr uint64_t next()
  {
    s += 0x9E3779B97F4A7C15ull; uint64_t z = s;
    z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull; z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull; return z ^ ( z >> 31 );
  }
  constexpr int below( int n ) { return n <= 0 ? 0 : int( next() % uint64_t( n ) ); }
  constexpr double uni( double a, double b ) { return a + ( b - a ) * ( double( next() >> 11 ) * ( 1.0 / 9007199254740992.0 ) ); }
};
constexpr int CAP = 160;
#ifdef WL_DEVICE
using Wide = double;          // devices have no long double
#else
using Wide = long double;
#endif
struct Out
{
  Wide v[CAP] = {};
  int n = 0;
  template< typename T > constexpr void put( T const & x ) { v[n] = static_cast< Wide >( x ); ++n; }
};
// called on outputs about to be written, so that what they held before cannot matter
inline void ( *g_dirty )( void *, size_t ) = nullptr;
#ifdef SHIVA_DEVICE_CONTEXT
constexpr void dirtyBytes( void *, size_t ) {}
#else
inline void dirtyBytes( void * p, size_t n ) { if ( g_dirty ) { g_dirty( p, n ); } }
#endif
template< typename T > constexpr void dirty( T & x ) { if ( !__builtin_is_constant_evaluated() ) { dirtyBytes( &x, sizeof( x ) ); } }
template< typename R > constexpr int classOf() { return std::is_same_v< R, float > ? 1 : 2; }
template< int ... N > constexpr int digit( int flat, int d )
{
  constexpr int n[] = { N ... };
  for ( int k = int( sizeof...( N ) ) - 1; k > d; --k ) { flat /= n[k]; }
  return flat % n[d];
}
template< typename R, int N > struct Reals { R v[N]; };

// ------------------------------------------------------------------ arrays
template< typename T, int ... DIMS > struct ArrayOp
{
  static constexpr int rank = sizeof...( DIMS ), size = ( DIMS * ... );
  static constexpr int cls = 0;
  struct In { T x[size]; int a[8], b[8]; T w[2]; };
  static constexpr In make( G & g )
  {
    In in{}; constexpr int d[] = { DIMS ... };
    for ( int i = 0; i < size; ++i ) { in.x[i] = T( g.below( 2001 ) - 1000 ); }
    for ( int i = 0; i < rank; ++i ) { in.a[i] = g.below( d[i] ); in.b[i] = g.below( d[i] ); }
    in.w[0] = T( g.below( 500 ) ); in.w[1] = T( g.below( 500 ) );
    return in;
  }
  template< typename A, int ... K > static constexpr decltype( auto ) call( A & a, int const (&i)[8], std::integer_sequence< int, K... > ) { return ( a( i[K] ... ) ); }
  template< int K, typename A > static constexpr T get( A const & a, int const (&i)[8] ) { if constexpr ( K == rank - 1 ) { return a[i[K]]; } else { auto const s = a[i[K]]; return get< K + 1 >( s, i ); } }
  template< int K, typename A > static constexpr void set( A & a, int const (&i)[8], T v ) { if constexpr ( K == rank - 1 ) { a[i[K]] = v; } else { auto s = a[i[K]]; set< K + 1 >( s, i, v ); } }
  static constexpr void run( In const & in, Out & o )
  {
    using Seq = std::make_integer_sequence< int, rank >;
    shiva::CArrayNd< T, DIMS ... > a;
    for ( int i = 0; i < size; ++i ) { a.data()[i] = in.x[i]; }
    T buf[size] = {}; for ( int i = 0; i < size; ++i ) { buf[i] = in.x[size - 1 - i]; }
    shiva::CArrayViewNd< T, DIMS ... > v( buf );
    call( a, in.a, Seq{} ) = in.w[0];
    set< 0 >( v, in.b, in.w[1] );
    auto const copy = a;
    o.put( get< 0 >( a, in.a ) ); o.put( get< 0 >( copy, in.b ) ); o.put( call( v, in.b, Seq{} ) ); o.put( get< 0 >( v, in.a ) );
    o.put( a.template operator()< ( DIMS - 1 ) ... >() ); o.put( v.template operator()< ( DIMS * 0 ) ... >() ); o.put( copy.template operator()< ( DIMS / 2 ) ... >() );
    o.put( a.rank() ); o.put( a.size() ); o.put( decltype( a )::template extent< 0 >() ); o.put( decltype( a )::template extent< rank - 1 >() );
    Wide s = 0, t = 0; for ( int i = 0; i < size; ++i ) { s += ( i + 1 ) * static_cast< Wide >( a.data()[i] ); t += ( i + 1 ) * static_cast< Wide >( v.data()[i] ); } o.put( s ); o.put( t );
  }
};
template< typename T > struct ScalarOp
{
  static constexpr int cls = 0;
  struct In { T x[2]; };
  static constexpr In make( G & g ) { return { { T( g.below( 1000 ) ), T( g.below( 1000 ) ) } }; }
  static constexpr void run( In const & in, Out & o )
  {
    shiva::Scalar< T > s{ in.x[0] }; T b[1] = { in.x[1] }; shiva::ScalarView< T > v( b );
    o.put( s( 0 ) ); o.put( s[0] ); o.put( v( 0 ) ); v( 0 ) = T( in.x[0] + 1 ); o.put( b[0] ); s[0] = in.x[1]; o.put( s.template operator()< 0 >() );
  }
};

// ------------------------------------------------------------------ indices and loops
template< typename B, B ... RANGES > struct IndexOp
{
  static constexpr int n = sizeof...( RANGES ), cls = 0;
  struct In { int i[8], start[8]; };
  static constexpr In make( G & g ) { In in{}; constexpr int r[] = { int( RANGES ) ... }; for ( int k = 0; k < n; ++k ) { in.i[k] = g.below( r[k] ); in.start[k] = g.below( 3 ) == 0 ? g.below( r[k] + 1 ) : 0; } return in; }
  static constexpr void run( In const & in, Out & o )
  {
    using I = shiva::MultiIndexRange< B, RANGES ... >;
    I x; for ( int k = 0; k < n; ++k ) { x.data[k] = static_cast< B >( in.i[k] ); o.put( I::range( k ) ); }
    o.put( shiva::linearIndex( x ) );
    I s; for ( int k = 0; k < n; ++k ) { s.data[k] = static_cast< B >( in.start[k] ); }
    long long calls = 0, sum = 0;
    shiva::forRange( s, [&] ( auto const & at ) { ++calls; long long w = 0; for ( int k = 0; k < n; ++k ) { w = w * 16 + static_cast< long long >( at.data[k] ); } sum = ( sum * 31 + w ) % 1000003; } );
    o.put( calls ); o.put( sum );
  }
};
template< int ... E > struct LoopOp
{
  static constexpr int cls = 0;
  struct In { int w[4]; };
  static constexpr In make( G & g ) { return { { g.below( 100 ), g.below( 100 ), g.below( 100 ), g.below( 100 ) } }; }
  static constexpr void run( In const & in, Out & o )
  {
    long long sum = in.w[0]; int calls = 0;
    shiva::forNestedSequence< E... >( [&] ( auto const ... i ) constexpr { ++calls; ( ( sum = ( sum * 7 + decltype( i )::value + in.w[1] ) % 100003 ), ... ); } );
    o.put( sum ); o.put( calls );
    shiva::forSequence< ( E + ... ) >( [&] ( auto const i ) constexpr { sum = ( sum * 5 + decltype( i )::value * in.w[2] ) % 100003; } );
    o.put( sum );
    o.put( shiva::executeSequence< ( E + ... ) >( [&] ( int w, auto ... i ) constexpr { return ( ( w * ( decltype( i )::value + 1 ) ) + ... ); }, in.w[3] ) );
  }
};

// ------------------------------------------------------------------ nodes, weights, bases
template< typename S, typename R, int N, bool WEIGHT, bool RUNTIME_WEIGHT > struct NodeOp
{
  static constexpr int cls = classOf< R >();
  struct In { int i[4]; };
  static constexpr In make( G & g ) { return { { g.below( N ), g.below( N ), g.below( N ), g.below( N ) } }; }
  template< int ... I > static constexpr void fixed( Out & o, std::integer_sequence< int, I... > ) { ( o.put( S::template coordinate< I >() ), ... ); if constexpr ( WEIGHT ) { ( o.put( S::template weight< I >() ), ... ); } }
  static constexpr void run( In const & in, Out & o )
  {
    for ( int k = 0; k < 4; ++k ) { o.put( S::coordinate( in.i[k] ) ); if constexpr ( RUNTIME_WEIGHT ) { o.put( S::weight( in.i[k] ) ); } }
    fixed( o, std::make_integer_sequence< int, N >{} ); o.put( S::numPoints );
  }
};
template< typename B, typename R > struct BasisOp
{
  static constexpr int cls = classOf< R >(), n = B::numSupportPoints;
  struct In { R x[2]; };
  static constexpr In make( G & g ) { In in{}; for ( R & x : in.x ) { int const k = g.below( 6 ); x = k == 0 ? R( g.below( 3 ) - 1 ) : k == 1 ? R( g.below( 9 ) - 4 ) / R( 4 ) : R( g.uni( -1.1, 1.1 ) ); } return in; }
  template< int ... I > static constexpr void all( R const & x, Out & o, std::integer_sequence< int, I... > ) { ( o.put( B::template value< I >( x ) ), ... ); ( o.put( B::template gradient< I >( x ) ), ... ); }
  static constexpr void run( In const & in, Out & o ) { all( in.x[0], o, std::make_integer_sequence< int, n >{} ); all( in.x[1], o, std::make_integer_sequence< int, n >{} ); o.put( B::order ); }
};

// ------------------------------------------------------------------ elements
template< typename R, int O > using EQ = shiva::functions::LagrangeBasis< R, O, shiva::EqualSpacing >;
template< typename R, int O > using LO = shiva::functions::LagrangeBasis< R, O, shiva::GaussLobattoSpacing >;
template< typename R, int O > using LE = shiva::functions::LagrangeBasis< R, O, shiva::GaussLegendreSpacing >;
template< typename R, typename ... B > struct El
{
  static constexpr int dim = sizeof...( B ), total = ( B::numSupportPoints * ... );
  using Real = R;
  using Geom = sg::NCube< R, dim, -1, 1, 1 >;
  using Product = shiva::functions::BasisProduct< R, B ... >;
  using Shape = sg::InterpolatedShape< R, Geom, B ... >;
  using Parent = shiva::discretizations::finiteElementMethod::ParentElement< R, Geom, B ... >;
  using Field = shiva::CArrayNd< R, B::numSupportPoints ... >;
  using View = shiva::CArrayViewNd< R, B::numSupportPoints ... >;
  using Cell = sg::LinearTransform< R, Shape >;
  using Dims = std::make_integer_sequence< int, dim >;
  template< typename X, int F, typename C, int ... D > static constexpr R value( C const & c, std::integer_sequence< int, D... > ) { return X::template value< digit< B::numSupportPoints ... >( F, D ) ... >( c ); }
  template< typename X, int F, typename C, int ... D > static constexpr shiva::CArrayNd< R, dim > gradient( C const & c, std::integer_sequence< int, D... > ) { return X::template gradient< digit< B::numSupportPoints ... >( F, D ) ... >( c ); }
  static constexpr int coordDigit( int f, int d ) { return digit< B::numSupportPoints ... >( f, d ); }
  static constexpr int count( int d ) { constexpr int n[] = { B::numSupportPoints ... }; return n[d]; }
};
template< typename E > constexpr typename E::Real coordinate( G & g ) { using R = typename E::Real; return g.below( 5 ) == 0 ? R( g.below( 3 ) - 1 ) : R( g.uni( -1.05, 1.05 ) ); }
template< typename E > struct ShapeOp
{
  using R = typename E::Real;
  static constexpr int cls = classOf< R >(), last = E::total - 1;
  struct In { R c[E::dim]; };
  static constexpr In make( G & g ) { In in{}; for ( R & x : in.c ) { x = coordinate< E >( g ); } return in; }
  template< typename X, int F, typename C > static constexpr void one( C const & c, Out & o ) { o.put( E::template value< X, F >( c, typename E::Dims{} ) ); auto const g = E::template gradient< X, F >( c, typename E::Dims{} ); for ( int d = 0; d < E::dim; ++d ) { o.put( g( d ) ); } }
  static constexpr void run( In const & in, Out & o )
  {
    shiva::CArrayNd< R, E::dim > cc; for ( int d = 0; d < E::dim; ++d ) { cc( d ) = in.c[d]; }
    one< typename E::Product, 0 >( in.c, o ); one< typename E::Shape, last >( cc, o ); one< typename E::Parent, last / 2 >( in.c, o ); one< typename E::Parent, last * 2 / 3 >( cc, o ); one< typename E::Shape, last / 3 >( in.c, o );
    int calls = 0; E::Shape::supportLoop( [&] ( auto const ... ) constexpr { ++calls; } ); o.put( calls );
  }
};
template< typename E > struct FieldOp
{
  using R = typename E::Real;
  static constexpr int cls = classOf< R >();
  struct In { R c[E::dim]; R f[E::total]; };
  static constexpr In make( G & g ) { In in{}; for ( R & x : in.c ) { x = coordinate< E >( g ); } for ( R & x : in.f ) { x = R( g.uni( -3, 3 ) ); } return in; }
  static constexpr void run( In const & in, Out & o )
  {
    typename E::Field f; for ( int i = 0; i < E::total; ++i ) { f.data()[i] = in.f[i]; }
    R b[E::total] = {}; for ( int i = 0; i < E::total; ++i ) { b[i] = in.f[E::total - 1 - i]; }
    typename E::View const v( b );
    o.put( E::Parent::value( in.c, f ) ); o.put( E::Parent::value( in.c, v ) );
    auto const g = E::Parent::gradient( in.c, f ), h = E::Parent::gradient( in.c, v ); for ( int d = 0; d < E::dim; ++d ) { o.put( g( d ) ); o.put( h( d ) ); }
    for ( int i = 0; i < E::total; ++i ) { if ( b[i] != in.f[E::total - 1 - i] || f.data()[i] != in.f[i] ) { o.put( -12345 ); } }
  }
};

// ------------------------------------------------------------------ cells
template< typename E, int WIDTH > struct CellData
{
  using R = typename E::Real;
  static constexpr void fill( G & g, R * x ) { for ( int f = 0; f < E::total; ++f ) { for ( int d = 0; d < E::dim; ++d ) { x[f * WIDTH + d] = R( 2.0 * E::coordDigit( f, d ) / ( E::count( d ) - 1 ) - 1 + g.uni( -.1, .1 ) ); } } }
};
template< typename E > struct CellOp
{
  using R = typename E::Real;
  static constexpr int cls = classOf< R >(), D = E::dim;
  struct In { R c[2][D]; R x[E::total * D]; };
  static constexpr In make( G & g ) { In in{}; for ( auto & p : in.c ) { for ( R & x : p ) { x = coordinate< E >( g ); } } CellData< E, D >::fill( g, in.x ); return in; }
  static constexpr void run( In const & in, Out & o )
  {
    typename E::Cell cell; for ( int i = 0; i < E::total * D; ++i ) { cell.getData().data()[i] = in.x[i]; }
    typename E::Cell const & cc = cell;
    typename E::Cell::JacobianType J; dirty( J );
    auto all = [&] ( auto const & m ) { for ( int i = 0; i < D; ++i ) { for ( int j = 0; j < D; ++j ) { o.put( m( i, j ) ); } } };
    shiva::CArrayNd< R, D > p; for ( int d = 0; d < D; ++d ) { p( d ) = in.c[1][d]; }
    su::jacobian( cc, in.c[0], J ); all( J );
    su::jacobian( cc, p, J ); all( J );
    if constexpr ( D == 3 )
    {
      all( su::jacobian( cc, in.c[1] ) );
      typename E::Cell::JacobianType I; dirty( I ); R d{}; dirty( d );
      su::inverseJacobian( cc, p, I, d ); all( I ); o.put( d );
      auto const t = su::inverseJacobian( cc, in.c[0] );
      o.put( std::get< 0 >( t ) ); all( std::get< 1 >( t ) );
    }
    for ( int i = 0; i < E::total * D; ++i ) { if ( cc.getData().data()[i] != in.x[i] ) { o.put( -12345 ); } }
  }
};
template< typename E > struct SetDataOp
{
  using R = typename E::Real;
  static constexpr int cls = classOf< R >();
  struct In { R x[E::total][3]; R y[3]; };
  static constexpr In make( G & g ) { In in{}; for ( auto & p : in.x ) { for ( R & x : p ) { x = R( g.uni( -5, 5 ) ); } } for ( R & x : in.y ) { x = R( g.uni( -1, 1 ) ); } return in; }
  static constexpr void run( In const & in, Out & o )
  {
    typename E::Cell cell, other; other.setData( in.x ); cell = other; other.getData().data()[0] = in.y[0];
    for ( int i = 0; i < E::total * 3 && i < CAP - 4; ++i ) { o.put( cell.getData().data()[i] ); }
    o.put( other.getData().data()[0] );
  }
};
template< typename E, typename QR, int ... QA > struct QuadratureCellOp
{
  using R = typename E::Real;
  static constexpr int cls = classOf< R >(), D = E::dim;
  struct In { R x[E::total * D]; };
  static constexpr In make( G & g ) { In in{}; CellData< E, D >::fill( g, in.x ); return in; }
  static constexpr void run( In const & in, Out & o )
  {
    typename E::Cell cell; for ( int i = 0; i < E::total * D; ++i ) { cell.getData().data()[i] = in.x[i]; }
    typename E::Cell::JacobianType J; dirty( J );
    su::jacobian< QR, QA ... >( cell, J );
    for ( int i = 0; i < D; ++i ) { for ( int j = 0; j < D; ++j ) { o.put( J( i, j ) ); } }
  }
};
template< typename R > struct ScalingOp
{
  static constexpr int cls = classOf< R >();
  struct In { R h[3], u[1]; };
  static constexpr In make( G & g ) { In in{}; for ( R & x : in.h ) { x = R( g.uni( .2, 4 ) ); } in.u[0] = R( g.uni( .2, 4 ) ); return in; }
  static constexpr void run( In const & in, Out & o )
  {
    sg::Scaling< R > s; s.setData( in.h ); sg::UniformScaling< R > u; u.setData( in.u[0] );
    typename sg::Scaling< R >::JacobianType J, I; R d{}; typename sg::UniformScaling< R >::JacobianType uJ, uI; R ud{};
    dirty( J ); dirty( I ); dirty( d ); dirty( uJ ); dirty( uI ); dirty( ud );
    su::jacobian( s, J ); su::inverseJacobian( s, I, d ); su::jacobian( u, uJ ); su::inverseJacobian( u, uI, ud );
    auto const rJ = su::jacobian( s ); auto const rI = su::inverseJacobian( s ); auto const ruJ = su::jacobian( u ); auto const ruI = su::inverseJacobian( u );
    for ( int k = 0; k < 3; ++k ) { o.put( J( k ) ); o.put( I( k ) ); o.put( rJ( k ) ); o.put( std::get< 1 >( rI )( k ) ); o.put( s.getData()[k] ); }
    o.put( d ); o.put( std::get< 0 >( rI ) ); o.put( uJ( 0 ) ); o.put( uI( 0 ) ); o.put( ud ); o.put( ruJ( 0 ) ); o.put( std::get< 0 >( ruI ) ); o.put( std::get< 1 >( ruI )( 0 ) ); o.put( u.getData() );
    s.setData()[1] = in.u[0]; u.setData() = in.h[2]; o.put( s.getData()[1] ); o.put( u.getData() );
  }
};

// ------------------------------------------------------------------ mathematics, shapes, portability
template< typename R > struct InverseOp
{
  static constexpr int cls = classOf< R >();
  struct In { R m[9]; };
  static constexpr In make( G & g ) { In in{}; for ( int i = 0; i < 9; ++i ) { in.m[i] = R( g.uni( -.4, .4 ) + ( i % 4 == 0 ? 2 : 0 ) ); } return in; }
  static constexpr void run( In const & in, Out & o )
  {
    R a[3][3] = {}; shiva::CArrayNd< R, 3, 3 > b; R c[9] = {}; for ( int i = 0; i < 9; ++i ) { a[i / 3][i % 3] = b.data()[i] = c[i] = in.m[i]; }
    shiva::CArrayViewNd< R, 3, 3 > v( c );
    R da{}, db{}, dv{}; dirty( da ); dirty( db ); dirty( dv );
    mu::inverse( a, da ); mu::inverse( b, db ); mu::inverse( v, dv );
    for ( int i = 0; i < 9; ++i ) { o.put( a[i / 3][i % 3] ); o.put( b( i / 3, i % 3 ) ); o.put( c[i] ); } o.put( da ); o.put( db ); o.put( dv );
  }
};
template< typename R > struct MathOp
{
  static constexpr int cls = classOf< R >();
  struct In { R x[2]; int i[2]; };
  static constexpr In make( G & g ) { return { { R( g.uni( -2, 2 ) ), R( g.uni( -1.5, 1.5 ) ) }, { g.below( 13 ) - 6, g.below( 7 ) - 3 } }; }
  static constexpr void run( In const & in, Out & o )
  {
    o.put( mu::pow< R, 0 >( in.x[0] ) ); o.put( mu::pow< R, 1 >( in.x[1] ) ); o.put( mu::pow< R, 3 >( in.x[0] ) ); o.put( mu::pow< R, 6 >( in.x[1] ) ); o.put( mu::pow< int, 5 >( in.i[0] ) ); o.put( mu::pow< long long, 9 >( in.i[1] ) );
    o.put( mu::factorial< int, 0 >::value ); o.put( mu::factorial< int, 12 >::value ); o.put( mu::factorial< long long, 20 >::value ); o.put( mu::binomialCoefficient< int, 10, 4 >::value ); o.put( mu::binomialCoefficient< long long, 19, 9 >::value );
    o.put( shiva::pmpl::check( in.x[0], in.x[1], R( 1 ) ) ); o.put( shiva::pmpl::check( in.x[0], in.x[0], R( 1e-3 ) ) );
    auto const t = shiva::make_tuple( in.i[0], in.x[0] ); o.put( std::get< 0 >( t ) ); o.put( std::get< 1 >( t ) );
  }
};
template< typename S, int D > struct MeasureOp
{
  static constexpr int cls = classOf< typename S::RealType >();
  struct In { int unused[4]; };
  static constexpr In make( G & g ) { return { { g.below( 9 ), 0, 0, 0 } }; }
  static constexpr void run( In const &, Out & o )
  {
    o.put( S::numVertices() ); o.put( S::numEdges() ); o.put( S::numFaces() ); o.put( S::numCells() ); o.put( S::numHyperFaces() ); o.put( S::numDims() );
    o.put( S::minCoord() ); o.put( S::maxCoord() ); o.put( S::length() ); o.put( S::volume() );
  }
};
template< typename R > struct KernelOp     // not usable at compile time
{
  static constexpr int cls = classOf< R >();
  struct In { R x[8]; int i[4]; };
  static In make( G & g ) { In in{}; for ( R & x : in.x ) { x = R( g.uni( -5, 5 ) ); } for ( int & i : in.i ) { i = g.below( 8 ); } return in; }
  static void run( In const & in, Out & o )
  {
    int calls = 0; R sum = 0; R data[8]; for ( int i = 0; i < 8; ++i ) { data[i] = in.x[i]; }
    shiva::pmpl::genericKernelWrapper( [&] { ++calls; sum = sum + in.x[in.i[0]]; } );
    shiva::pmpl::genericKernelWrapper( 8, data, [&] ( R * d ) { ++calls; d[in.i[1]] = d[in.i[2]] * 2; } );
    R * heap = new R[8]; for ( int i = 0; i < 8; ++i ) { heap[i] = in.x[i]; } o.put( heap[in.i[3]] ); shiva::pmpl::deallocateData( heap );
    o.put( calls ); o.put( sum ); for ( R x : data ) { o.put( x ); }
  }
};

// ------------------------------------------------------------------ registry
struct Entry
{
  char const * name; unsigned inSize; int cls;
  void ( *make )( G &, void * );
  void ( *run )( void const *, Out & );
  Out const * ( *ce )( int ); int ceCount; uint64_t ceSeed;
#ifdef WL_DEVICE
  void ( *device )( void const *, Out & );
#endif
};
constexpr int MAXOPS = 256;
inline Entry g_ops[MAXOPS];
inline int g_count = 0;
#ifndef GSEED
#define GSEED 1
#endif
#ifndef CE_COUNT
#define CE_COUNT 4
#endif
template< typename OP > struct Compiled
{
  template< int K > static constexpr Out compute() { G g( uint64_t( GSEED ) * 1009 + K ); typename OP::In const in = OP::make( g ); Out o; OP::run( in, o ); return o; }
  template< int K > static Out const * at() { static constexpr Out o = compute< K >(); return &o; }
  template< int ... K > static Out const * pick( int k, std::integer_sequence< int, K... > ) { Out const * r = nullptr; ( void )( ( k == K ? ( r = at< K >(), true ) : false ) || ... ); return r; }
  static Out const * get( int k ) { return pick( k, std::make_integer_sequence< int, CE_COUNT >{} ); }
};
#ifdef WL_DEVICE
// Performs the operation in a kernel, its input and output handed over by the portability layer.
void * hostBox( size_t bytes );      // memory no kernel can reach (c29.cpp)
template< typename OP > struct Box { typename OP::In in; Out out; };
template< typename OP > struct InKernel { SHIVA_HOST_DEVICE void operator()( Box< OP > * b ) const { typename OP::In const in = b->in; Out o; OP::run( in, o ); b->out = o; } };
template< typename OP > void onDevice( void const * in, Out & out )
{
  Box< OP > * b = static_cast< Box< OP > * >( hostBox( sizeof( Box< OP > ) ) );
  std::memcpy( &b->in, in, sizeof b->in );
  shiva::pmpl::genericKernelWrapper( 1, b, InKernel< OP >{} );
  if ( std::memcmp( &b->in, in, sizeof b->in ) != 0 ) { b->out.n = -1; }
  out = b->out;
}
#endif
template< typename OP, bool CE > struct Register
{
  explicit Register( char const * name )
  {
    static_assert( std::is_trivially_copyable_v< typename OP::In > );
    Entry & e = g_ops[g_count++];
    e.name = name; e.inSize = sizeof( typename OP::In ); e.cls = OP::cls;
    e.make = []( G & g, void * p ) { typename OP::In const in = OP::make( g ); std::memcpy( p, &in, sizeof in ); };
    e.run = []( void const * p, Out & o ) { OP::run( *static_cast< typename OP::In const * >( p ), o ); };
#ifdef WL_DEVICE
    e.device = &onDevice< OP >;
#endif
    e.ce = nullptr; e.ceCount = 0; e.ceSeed = uint64_t( GSEED ) * 1009;
#ifdef WL_CONSTEXPR
    if constexpr ( CE ) { e.ce = &Compiled< OP >::get; e.ceCount = CE_COUNT; }
#endif
  }
};
#define WL_CAT2( a, b ) a##b
#define WL_CAT( a, b ) WL_CAT2( a, b )
#define OP( ... ) static ::wl::Register< __VA_ARGS__, true > WL_CAT( reg_, __COUNTER__ )( #__VA_ARGS__ )
#ifdef WL_DEVICE
#define OP_LD( ... )
#define OP_RT( ... )
#else
#define OP_LD( ... ) OP( __VA_ARGS__ )
#define OP_RT( ... ) static ::wl::Register< __VA_ARGS__, false > WL_CAT( reg_, __COUNTER__ )( #__VA_ARGS__ )
#endif

// 0 is the smallest value whose bytes differ
inline bool same( Out const & a, Out const & b )
{
  if ( a.n != b.n ) { return false; }
  for ( int i = 0; i < a.n; ++i ) { if ( std::memcmp( &a.v[i], &b.v[i], sizeof( Wide ) == 16 ? 10 : sizeof( Wide ) ) != 0 ) { return false; } }
  return true;
}
// largest difference beyond the rounding tolerance of the class; -1: none
inline int firstDifference( Out const & a, Out const & b, int cls )
{
  if ( a.n != b.n ) { return a.n < b.n ? a.n : b.n; }
  long double m = 1; for ( int i = 0; i < a.n; ++i ) { long double const x = a.v[i] < 0 ? -a.v[i] : a.v[i]; if ( x > m && x < 1e6L ) { m = x; } }
  long double const eps = cls == 0 ? 0 : cls == 1 ? 512 * 1.2e-7L : 512 * 2.3e-16L;
  for ( int i = 0; i < a.n; ++i )
  {
    long double const d = a.v[i] < b.v[i] ? b.v[i] - a.v[i] : a.v[i] - b.v[i], x = a.v[i] < 0 ? -a.v[i] : a.v[i];
    if ( !( d <= eps * ( x > m ? x : m ) ) ) { return i; }
  }
  return -1;
}
} // namespace wl
