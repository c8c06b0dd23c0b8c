// C21: every single object the library reads or writes (coordinates, node lists, fields, cells,
// matrices, lengths, outputs) in a heap block of exactly its size, so that a read or write just
// beyond it, or beyond one of the rows handed over, meets a red zone.
#include "workload.hpp"
#include <cstdlib>
#include <new>
namespace wl
{
struct ExactCase { char const * name; void ( *f )( G &, Out & ); ExactCase * next; ExactCase( char const * n, void ( *g )( G &, Out & ) ); };
// One object of type T alone in its block.
template< typename T > struct Alone
{
  T * p;
  Alone(): p( new ( std::malloc( sizeof( T ) ) ) T ) {}
  Alone( Alone const & ) = delete;
  Alone & operator=( Alone const & ) = delete;
  ~Alone() { p->~T(); std::free( p ); }
  T & operator*() const { return *p; }
  T * operator->() const { return p; }
};
template< typename R, int N > struct Row { R v[N]; };
static double some( G & g ) { return g.below( 4 ) == 0 ? double( g.below( 3 ) - 1 ) : g.uni( -1.05, 1.05 ); }
template< typename A, typename R > static void copyOut( A const & m, int n, Out & o, R ) { for ( int k = 0; k < n && o.n < CAP - 2; ++k ) { o.put( static_cast< R >( m.data()[k] ) ); } }

// a list of nodes whose rows are separate blocks
template< typename R > struct Rows
{
  R ** rows; int n;
  explicit Rows( int count ): rows( static_cast< R ** >( std::malloc( sizeof( R * ) * size_t( count ) ) ) ), n( count ) { for ( int k = 0; k < n; ++k ) { rows[k] = static_cast< R * >( std::malloc( sizeof( R ) * 3 ) ); } }
  Rows( Rows const & ) = delete;
  Rows & operator=( Rows const & ) = delete;
  ~Rows() { for ( int k = 0; k < n; ++k ) { std::free( rows[k] ); } std::free( rows ); }
  R const * operator[]( int k ) const { return rows[k]; }
};

template< typename E > static void element( G & g, Out & o )
{
  using R = typename E::Real; constexpr int D = E::dim;
  Alone< Row< R, D > > c; for ( R & x : c->v ) { x = R( some( g ) ); }
  Alone< shiva::CArrayNd< R, D > > cc; for ( int d = 0; d < D; ++d ) { ( *cc )( d ) = R( some( g ) ); }
  Alone< typename E::Field > f; for ( int k = 0; k < E::total; ++k ) { f->data()[k] = R( g.uni( -3, 3 ) ); }
  Alone< Row< R, E::total > > raw; for ( R & x : raw->v ) { x = R( g.uni( -3, 3 ) ); }
  typename E::View const v( raw->v );
  o.put( E::Parent::value( c->v, *f ) ); o.put( E::Parent::value( c->v, v ) );
  copyOut( E::Parent::gradient( c->v, *f ), D, o, R() ); copyOut( E::Parent::gradient( c->v, v ), D, o, R() );
  ShapeOp< E >::template one< typename E::Product, E::total - 1 >( c->v, o ); ShapeOp< E >::template one< typename E::Shape, 0 >( *cc, o ); ShapeOp< E >::template one< typename E::Parent, E::total / 2 >( *cc, o ); ShapeOp< E >::template one< typename E::Parent, E::total - 1 >( c->v, o );

  Alone< typename E::Cell > cell; CellData< E, D >::fill( g, cell->getData().data() );
  Alone< typename E::Cell::JacobianType > J; dirty( *J );
  su::jacobian( *cell, c->v, *J ); copyOut( *J, D * D, o, R() );
  su::jacobian( *cell, *cc, *J ); copyOut( *J, D * D, o, R() );
  if constexpr ( D == 3 )
  {
    Alone< R > d; dirty( *J ); dirty( *d );
    su::inverseJacobian( *cell, c->v, *J, *d ); copyOut( *J, 9, o, R() ); o.put( *d );
    copyOut( su::jacobian( *cell, c->v ), 9, o, R() ); o.put( std::get< 0 >( su::inverseJacobian( *cell, c->v ) ) );
    dirty( *J ); su::jacobian< shiva::QuadratureGaussLegendre< R, 4 >, 3, 3, 3 >( *cell, *J ); copyOut( *J, 9, o, R() );
    dirty( *J ); su::jacobian< shiva::QuadratureGaussLobatto< R, 5 >, 0, 4, 2 >( *cell, *J ); copyOut( *J, 9, o, R() );
  }
  if constexpr ( D == 2 ) { dirty( *J ); su::jacobian< shiva::QuadratureGaussLobatto< R, 3 >, 2, 2 >( *cell, *J ); copyOut( *J, 4, o, R() ); }
  if constexpr ( D == 1 ) { dirty( *J ); su::jacobian< shiva::QuadratureGaussLobatto< R, 3 >, 2 >( *cell, *J ); copyOut( *J, 1, o, R() ); }
  Alone< typename E::Cell > other; *other = *cell; Alone< typename E::Cell > third; third->getData() = other->getData(); copyOut( third->getData(), E::total * D < 8 ? E::total * D : 8, o, R() );
  if constexpr ( D == 3 )
  {
    struct List { R x[E::total][3]; };
    Alone< List > list; for ( auto & p : list->x ) { for ( R & x : p ) { x = R( g.uni( -5, 5 ) ); } }
    Alone< shiva::CArrayNd< R, E::total, 3 > > array; for ( int k = 0; k < E::total * 3; ++k ) { array->data()[k] = R( g.uni( -5, 5 ) ); }
    Alone< Row< R, E::total * 3 > > flat; for ( R & x : flat->v ) { x = R( g.uni( -5, 5 ) ); }
    shiva::CArrayViewNd< R, E::total, 3 > const listView( flat->v );
    Rows< R > rows( E::total ); for ( int k = 0; k < E::total; ++k ) { for ( int i = 0; i < 3; ++i ) { rows.rows[k][i] = R( g.uni( -5, 5 ) ); } }
    Alone< typename E::Cell > s; dirty( *s );
    s->setData( list->x ); copyOut( s->getData(), 9, o, R() ); s->setData( *array ); copyOut( s->getData(), 9, o, R() ); s->setData( listView ); copyOut( s->getData(), 9, o, R() ); s->setData( rows ); copyOut( s->getData(), 9, o, R() ); s->setData( rows.rows ); copyOut( s->getData(), 9, o, R() );
  }
}
template< typename R > static void small( G & g, Out & o )
{
  struct M { R x[3][3]; };
  Alone< M > m; Alone< shiva::CArrayNd< R, 3, 3 > > a; Alone< Row< R, 9 > > raw; Alone< R > d;
  for ( int k = 0; k < 9; ++k ) { m->x[k / 3][k % 3] = a->data()[k] = raw->v[k] = R( g.uni( -.4, .4 ) + ( k % 4 == 0 ? 2 : 0 ) ); }
  shiva::CArrayViewNd< R, 3, 3 > v( raw->v );
  dirty( *d ); mu::inverse( m->x, *d ); o.put( *d ); dirty( *d ); mu::inverse( *a, *d ); o.put( *d ); dirty( *d ); mu::inverse( v, *d ); o.put( *d );
  for ( int k = 0; k < 9; ++k ) { o.put( m->x[k / 3][k % 3] ); o.put( a->data()[k] ); o.put( raw->v[k] ); }
  Alone< Row< R, 3 > > h; for ( R & x : h->v ) { x = R( g.uni( .2, 4 ) ); }
  Alone< sg::Scaling< R > > s; dirty( *s ); s->setData( h->v ); Alone< sg::UniformScaling< R > > u; dirty( *u ); u->setData( h->v[2] );
  Alone< typename sg::Scaling< R >::JacobianType > J; Alone< typename sg::UniformScaling< R >::JacobianType > uJ; dirty( *J ); dirty( *uJ ); dirty( *d );
  su::jacobian( *s, *J ); copyOut( *J, 3, o, R() ); su::inverseJacobian( *s, *J, *d ); copyOut( *J, 3, o, R() ); o.put( *d ); su::jacobian( *u, *uJ ); copyOut( *uJ, 1, o, R() ); su::inverseJacobian( *u, *uJ, *d ); copyOut( *uJ, 1, o, R() ); o.put( *d );
  Alone< R > x; *x = R( some( g ) );
  BasisOp< LO< R, 4 >, R >::all( *x, o, std::make_integer_sequence< int, 5 >{} ); BasisOp< EQ< R, 2 >, R >::all( *x, o, std::make_integer_sequence< int, 3 >{} ); o.put( mu::pow< R, 4 >( *x ) );
}
template< typename T, int ... DIMS > static void array( G & g, Out & o )
{
  constexpr int size = ( DIMS * ... ), rank = int( sizeof...( DIMS ) );
  using Op = ArrayOp< T, DIMS ... >; using Seq = std::make_integer_sequence< int, rank >;
  typename Op::In const in = Op::make( g );
  Alone< shiva::CArrayNd< T, DIMS ... > > a; for ( int k = 0; k < size; ++k ) { a->data()[k] = in.x[k]; }
  Alone< Row< T, size > > raw; for ( int k = 0; k < size; ++k ) { raw->v[k] = in.x[k]; }
  Alone< Row< T, size > > ro; for ( int k = 0; k < size; ++k ) { ro->v[k] = in.x[k]; }
  shiva::CArrayViewNd< T, DIMS ... > v( raw->v ); shiva::CArray< T const, T const * const, DIMS ... > const r( ro->v );
  constexpr int ext[] = { DIMS ... };
  int const last[8] = { ext[0] - 1, rank > 1 ? ext[1 % rank] - 1 : 0, rank > 2 ? ext[2 % rank] - 1 : 0, rank > 3 ? ext[3 % rank] - 1 : 0, rank > 4 ? ext[4 % rank] - 1 : 0, 0, 0, 0 }, first[8] = {};
  Op::call( *a, last, Seq{} ) = in.w[0]; Op::template set< 0 >( v, last, in.w[1] ); Op::template set< 0 >( *a, first, in.w[1] );
  for ( auto const * at : { &last, &first, &in.a, &in.b } ) { o.put( Op::call( *a, *at, Seq{} ) ); o.put( Op::template get< 0 >( *a, *at ) ); o.put( Op::template get< 0 >( v, *at ) ); o.put( Op::call( v, *at, Seq{} ) ); o.put( Op::template get< 0 >( r, *at ) ); o.put( Op::call( r, *at, Seq{} ) ); }
  o.put( v.template operator()< ( DIMS - 1 ) ... >() ); o.put( r.template operator()< ( DIMS - 1 ) ... >() ); o.put( a->template operator()< ( DIMS - 1 ) ... >() );
  Alone< shiva::CArrayNd< T, DIMS ... > > b; *b = *a; o.put( b->data()[size - 1] );
}
template< typename B, B ... RANGES > static void index( G & g, Out & o )
{
  using Op = IndexOp< B, RANGES ... >; using I = shiva::MultiIndexRange< B, RANGES ... >; constexpr int n = int( sizeof...( RANGES ) );
  typename Op::In const in = Op::make( g );
  Alone< I > x, s; for ( int k = 0; k < n; ++k ) { x->data[k] = static_cast< B >( in.i[k] ); s->data[k] = static_cast< B >( in.start[k] ); o.put( I::range( k ) ); }
  o.put( shiva::linearIndex( *x ) ); long long calls = 0; shiva::forRange( *s, [&] ( auto const & at ) { calls += 1 + static_cast< long long >( at.data[n - 1] ); } ); o.put( calls );
}

#define ADD( name, ... ) static ExactCase WL_CAT( case_, __COUNTER__ )( name, &__VA_ARGS__ )
#if VH_PART == 0
ADD( "hexahedron, double", element< El< double, LO< double, 1 >, LO< double, 1 >, LO< double, 1 > > > );
ADD( "small objects, double", small< double > ); ADD( "small objects, float", small< float > ); ADD( "small objects, long double", small< long double > );
#elif VH_PART == 1
ADD( "mixed orders, double", element< El< double, EQ< double, 2 >, LO< double, 1 >, LE< double, 1 > > > );
ADD( "array 3", array< double, 3 > ); ADD( "array 2x3", array< float, 2, 3 > ); ADD( "array 3x1x2", array< char, 3, 1, 2 > ); ADD( "array 2x3x2x3", array< long double, 2, 3, 2, 3 > ); ADD( "array 5x5", array< short, 5, 5 > );
#elif VH_PART == 2
ADD( "hexahedron, float", element< El< float, EQ< float, 1 >, LO< float, 2 >, LO< float, 1 > > > );
ADD( "index 3x4", index< int, 3, 4 > ); ADD( "index 2x1x5", index< unsigned char, 2, 1, 5 > ); ADD( "index 4", index< std::size_t, 4 > ); ADD( "index 2x2x3x2", index< long, 2, 2, 3, 2 > );
#elif VH_PART == 3
ADD( "plane, double", element< El< double, LO< double, 3 >, EQ< double, 1 > > > ); ADD( "line, double", element< El< double, LO< double, 4 > > > ); ADD( "line, float", element< El< float, EQ< float, 2 > > > ); ADD( "long double", element< El< long double, LO< long double, 1 >, LO< long double, 1 >, EQ< long double, 1 > > > );
#endif
} // namespace wl
