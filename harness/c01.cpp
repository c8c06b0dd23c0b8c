// C01: every access form designates the same row-major element.
#include "carray_access.hpp"
#include <complex>
#include <memory>
using namespace vh;
using namespace acc;

struct Big { double a, b, c; bool operator==( Big const & o ) const { return a == o.a && b == o.b && c == o.c; } };
template< typename T > struct Elem { static T make( uint64_t k ) { return T( double( k % 100 ) + 1 ); } static char const * name() { return "?"; } };
template<> struct Elem< Big > { static Big make( uint64_t k ) { return Big{ double( k ), -double( k ), 0.5 * double( k ) }; } static char const * name() { return "struct"; } };
template<> inline char const * Elem< double >::name() { return "double"; }
template<> inline char const * Elem< float >::name() { return "float"; }
template<> inline char const * Elem< int >::name() { return "int"; }
template<> inline char const * Elem< char >::name() { return "char"; }
template<> inline char const * Elem< long double >::name() { return "long double"; }
template<> struct Elem< int * > { static inline int pool[101] = {}; static int * make( uint64_t k ) { return pool + k % 101; } static char const * name() { return "int*"; } };

template< typename S > static bool kindFits( int kind )
{
  for ( int k = 0; k < S::rank; ++k ) { int const d = S::dims[k] - 1, p = kindAt( kind, k ); if ( d > ( p == kSChar ? 127 : p == kUChar ? 255 : p == kShort ? 32767 : p == kUShort ? 65535 : 2147483647 ) ) { return false; } }
  return true;
}

// every tuple through every form: the address must be that of the row-major element
template< typename S, bool Full, typename T, typename A >
static void addresses( A & a, T const * base, char const * what, Rng & g )
{
  std::string const name = fmt( "%s %s<%s>", what, S::name().c_str(), Elem< T >::name() );
  at( name );
  bool const small = S::size <= 400;
  int const step = small ? 1 : 1 + S::size / 400;
  for ( int f = small ? 0 : g.below( step ); f < S::size; f += small ? 1 : 1 + g.below( 2 * step ) )
  {
    long idx[S::rank]; S::unflatten( f, idx );
    for ( int form = 0; form < numForms< S >(); ++form )
    {
      int const kind = pickKind< Full >( g );
      if ( !kindFits< S >( kind ) ) { continue; }
      void const * p = addrAny< S, Full >( kind, form, a, idx );
      mon().eval( mix( mix( strHash( name.c_str() ), uint64_t( form * 64 + kind ) ), uint64_t( f ) ), S::size > 1 );
      mon().count( std::string( "form: " ) + formName( form ) );
      if ( p != static_cast< void const * >( base + f ) )
      {
        mon().fail( "layout/" + name, fmt( "%s: flat position %d through %s (%s indices) is %ld elements from the start", name.c_str(), f, formName( form ), kindName( kind ), long( static_cast< T const * >( p ) - base ) ) );
      }
    }
  }
  if ( static_cast< void const * >( &a.data()[0] ) != base ) { mon().fail( "data/" + name, name + ": data() does not designate the storage" ); }
  if constexpr ( S::size <= 130 && ( Full || S::size <= 30 ) )
  {
    auto const ct = ctAll< S, A >( a, std::make_integer_sequence< int, S::size >{} );
    for ( int f = 0; f < S::size; ++f )
    {
      mon().eval( mix( strHash( name.c_str() ), uint64_t( f ) + 0x77777 ), S::size > 1 ); mon().count( "form: compile-time indices" );
      if ( ct[size_t( f )] != static_cast< void const * >( base + f ) ) { mon().fail( "layout-ct/" + name, fmt( "%s: flat position %d through compile-time indices is %ld elements from the start", name.c_str(), f, long( static_cast< T const * >( ct[size_t( f )] ) - base ) ) ); }
    }
  }
  if constexpr ( S::rank >= 2 )
  {
    // slices alias the parent and report the remaining extents
    for ( long i = 0; i < S::dims[0]; i += 1 + S::dims[0] / 50 )
    {
      auto s = a[int( i )];
      int const stride = S::size / S::dims[0];
      if ( static_cast< void const * >( s.data() ) != base + i * stride || s.rank() != S::rank - 1 || s.size() != stride || s.template extent< 0 >() != S::dims[1] )
      { mon().fail( "slice/" + name, fmt( "%s: slice %ld does not designate row %ld (rank %d size %d)", name.c_str(), i, i, int( s.rank() ), int( s.size() ) ) ); }
      auto const cs = s;
      if ( static_cast< void const * >( cs.data() ) != base + i * stride ) { mon().fail( "slice/" + name, name + ": copy of a slice designates another row" ); }
      mon().count( "slices" );
    }
  }
}
template< typename A, int ... K > static bool extentsOk( int const * dims, std::integer_sequence< int, K... > )
{
  return ( ( A::template extent< K >() == dims[K] ) && ... );
}

// random writes through random forms against a plain shadow array
template< typename S, bool Full, typename T, typename A >
static void history( A & a, T * base, char const * what, Rng & g )
{
  std::string const name = fmt( "%s %s<%s>", what, S::name().c_str(), Elem< T >::name() );
  std::vector< T > shadow( base, base + S::size );
  int const n = ( S::size > 400 ? 20 : 60 ) * mon().scale;
  for ( int k = 0; k < n; ++k )
  {
    int const f = g.below( S::size ), form = g.below( numForms< S >() + 1 );
    int kind = pickKind< Full >( g ); if ( !kindFits< S >( kind ) ) { kind = kInt; }
    long idx[S::rank]; S::unflatten( f, idx );
    T const v = Elem< T >::make( g.next() );
    shadow[size_t( f )] = v;
    if ( form == numForms< S >() ) { a.data()[f] = v; }
    else { *const_cast< T * >( static_cast< T const * >( addrAny< S, Full >( kind, form, a, idx ) ) ) = v; }
    // all elements, each through a random (const or mutable) form
    A const & c = a;
    for ( int e = 0; e < S::size; e += S::size > 400 ? 1 + g.below( S::size / 60 ) : 1 )
    {
      S::unflatten( e, idx );
      int const rf = g.below( numForms< S >() );
      T const * r = static_cast< T const * >( g.coin() ? addrAny< S, Full >( kind, rf, c, idx ) : addrAny< S, Full >( kind, rf, a, idx ) );
      if ( !( *r == shadow[size_t( e )] ) )
      {
        mon().fail( "write/" + name, fmt( "%s: after writing flat position %d through %s, position %d read through %s does not hold the expected value", name.c_str(), f, form == numForms< S >() ? "data()" : formName( form ), e, formName( rf ) ) );
      }
    }
    mon().eval( mix( mix( strHash( name.c_str() ), uint64_t( f ) ), mix( uint64_t( form ), uint64_t( kind ) ) + 0x5151 ) ); mon().count( "writes" );
  }
}

template< typename S, typename T, bool Full = false > static void one( Rng & g )
{
  using A = typename S::template Owning< T >;
  using V = typename S::template View< T >;
  using CV = typename S::template ConstView< T >;
  std::string const name = fmt( "%s<%s>", S::name().c_str(), Elem< T >::name() );
  if ( A::rank() != S::rank || A::size() != S::size || !extentsOk< A >( S::dims, std::make_integer_sequence< int, S::rank >{} )
       || V::rank() != S::rank || V::size() != S::size || !extentsOk< V >( S::dims, std::make_integer_sequence< int, S::rank >{} ) )
  { mon().fail( "extents/" + name, name + ": rank, extents or size differ from the declaration" ); }
  if ( sizeof( A ) != sizeof( T ) * S::size ) { mon().fail( "size/" + name, fmt( "%s occupies %zu bytes instead of %zu", name.c_str(), sizeof( A ), sizeof( T ) * S::size ) ); }
  auto h = std::make_unique< A >();
  A & a = *h;
  for ( int e = 0; e < S::size; ++e ) { if ( !( a.data()[e] == T() ) ) { mon().fail( "init/" + name, name + ": a default constructed array is not zero" ); break; } }
  addresses< S, Full, T >( a, &a.data()[0], "array", g );
  addresses< S, Full, T >( static_cast< A const & >( a ), &a.data()[0], "const array", g );
  history< S, Full, T >( a, &a.data()[0], "array", g );
  // copies are independent
  auto h2 = std::make_unique< A >( a );
  T const keep = a.data()[S::size - 1];
  h2->data()[S::size - 1] = Elem< T >::make( 17 ); h2->data()[0] = Elem< T >::make( 23 );
  if ( S::size > 1 && !( a.data()[S::size - 1] == keep ) ) { mon().fail( "copy/" + name, name + ": writing a copy changed the original" ); }
  *h2 = a;
  for ( int e = 0; e < S::size; ++e ) { if ( !( h2->data()[e] == a.data()[e] ) ) { mon().fail( "copy/" + name, name + ": assignment does not copy every element" ); break; } }
  // views over a foreign buffer, with sentinels around it
  struct Store { T pre[3]; T buf[S::size]; T post[3]; };
  auto st = std::make_unique< Store >();
  for ( int e = 0; e < 3; ++e ) { st->pre[e] = st->post[e] = Elem< T >::make( 7 ); }
  for ( int e = 0; e < S::size; ++e ) { st->buf[e] = Elem< T >::make( uint64_t( e ) ); }
  V v( st->buf );
  CV cv( st->buf );
  addresses< S, Full, T >( v, st->buf, "view", g );
  addresses< S, Full, T >( static_cast< V const & >( v ), st->buf, "const view", g );
  addresses< S, Full, T >( cv, st->buf, "view of const", g );
  history< S, Full, T >( v, st->buf, "view", g );
  V w( v );
  *const_cast< T * >( static_cast< T const * >( addrAny< S, Full >( kInt, fCall, w, std::array< long, S::rank >{}.data() ) ) ) = Elem< T >::make( 55 );
  if ( !( st->buf[0] == Elem< T >::make( 55 ) ) ) { mon().fail( "view-copy/" + name, name + ": a copied view does not alias the buffer" ); }
  for ( int e = 0; e < 3; ++e ) { if ( !( st->pre[e] == Elem< T >::make( 7 ) ) || !( st->post[e] == Elem< T >::make( 7 ) ) ) { mon().fail( "sentinel/" + name, name + ": a write through a view changed memory outside its buffer" ); } }
  mon().count( "shapes" );
  if ( mon().wantSample( fmt( "%d", S::rank ) ) ) { long idx[S::rank]; S::unflatten( S::size - 1, idx ); mon().sample( fmt( "%s: last element at flat position %ld through call form", name.c_str(), long( static_cast< T const * >( addrAny< S, Full >( kInt, fCall, v, idx ) ) - st->buf ) ) ); }
}
template< typename S > static void types( Rng & g )
{
  one< S, double, true >( g ); one< S, char >( g ); one< S, Big >( g );
  if constexpr ( S::rank <= 2 && S::size <= 60 ) { one< S, float >( g ); one< S, int >( g ); one< S, long double >( g ); one< S, int * >( g ); }
}
#if VH_PART == 0
VH_CASE( "rank 1" ) { types< Shape< 1 > >( rng ); types< Shape< 2 > >( rng ); types< Shape< 7 > >( rng ); types< Shape< 129 > >( rng ); types< Shape< 70001 > >( rng ); }
VH_CASE( "initializer" )
{
  shiva::CArrayNd< double, 2, 3 > a{ 1.0, 2.0, 3.0, 4.0, 5.0, 6.0 };
  for ( int i = 0; i < 2; ++i ) { for ( int j = 0; j < 3; ++j ) { mon().eval( uint64_t( i * 3 + j ) ); if ( !( a( i, j ) == 3 * i + j + 1 ) ) { mon().fail( "initializer", "element order of a list-initialized array is not row-major" ); } } }
  shiva::Scalar< double > s{ 2.5 };
  if ( !( s( 0 ) == 2.5 ) || s.size() != 1 || s.rank() != 1 || &s[0] != &s( 0 ) ) { mon().fail( "scalar", "scalar does not hold its value" ); }
  double x[1] = { 7.0 };
  shiva::ScalarView< double > sv( x );
  sv( 0 ) = 8.0;
  if ( x[0] != 8.0 || &sv( 0 ) != x || &sv[0] != x || &sv.template operator()< 0 >() != x ) { mon().fail( "scalar-view", "a scalar view does not alias its scalar" ); }
  if ( sv.size() != 1 || sv.rank() != 1 || sv.template extent< 0 >() != 1 || s.template extent< 0 >() != 1 ) { mon().fail( "scalar-view", "a scalar or a view of one does not have exactly one element" ); }
  // fewer initializers than elements: the rest is zero, as for a built-in array
  shiva::CArrayNd< double, 2, 3 > part{ 1.0, 2.0 };
  for ( int k = 0; k < 6; ++k ) { mon().eval( uint64_t( 100 + k ) ); if ( !( part.data()[k] == ( k < 2 ? k + 1.0 : 0.0 ) ) ) { mon().fail( "initializer", "an array initialized with fewer values than elements does not hold the values followed by zeros" ); } }
  // consistency of arrays of arrays
  shiva::CArrayNd< shiva::CArrayNd< double, 2, 2 >, 3 > n;
  n( 2 )( 1, 0 ) = 4.0;
  for ( int i = 0; i < 3; ++i ) { for ( int j = 0; j < 4; ++j ) { if ( !( n[i].data()[j] == ( i == 2 && j == 2 ? 4.0 : 0.0 ) ) ) { mon().fail( "nested", "array of arrays: wrong element written" ); } } }
}
#elif VH_PART == 1
VH_CASE( "rank 2a" ) { types< Shape< 1, 1 > >( rng ); types< Shape< 2, 3 > >( rng ); types< Shape< 3, 2 > >( rng ); types< Shape< 4, 1 > >( rng ); types< Shape< 1, 5 > >( rng ); }
#elif VH_PART == 2
VH_CASE( "rank 2b" ) { types< Shape< 5, 5 > >( rng ); types< Shape< 3, 300 > >( rng ); types< Shape< 33, 3 > >( rng ); types< Shape< 300, 200 > >( rng ); }
#elif VH_PART == 3
VH_CASE( "rank 3a" ) { types< Shape< 2, 3, 4 > >( rng ); types< Shape< 4, 3, 2 > >( rng ); types< Shape< 1, 3, 1 > >( rng ); types< Shape< 2, 300, 3 > >( rng ); }
#elif VH_PART == 4
VH_CASE( "rank 3b" ) { types< Shape< 3, 1, 5 > >( rng ); types< Shape< 3, 3, 3 > >( rng ); types< Shape< 17, 33, 65 > >( rng ); }
#elif VH_PART == 5
VH_CASE( "rank 4" ) { types< Shape< 2, 3, 4, 5 > >( rng ); types< Shape< 3, 1, 2, 2 > >( rng ); types< Shape< 2, 2, 2, 2 > >( rng ); }
#elif VH_PART == 6
VH_CASE( "rank 4b" ) { types< Shape< 5, 2, 3, 1 > >( rng ); types< Shape< 3, 3, 3, 3 > >( rng ); }
#elif VH_PART == 7
VH_CASE( "rank 5+" ) { types< Shape< 2, 3, 2, 3, 2 > >( rng ); types< Shape< 1, 2, 3, 1, 2, 2 > >( rng ); types< Shape< 3, 1, 2, 1, 4, 5 > >( rng ); types< Shape< 2, 1, 2, 1, 2, 1, 3 > >( rng ); }
#endif
