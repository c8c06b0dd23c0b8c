// C03: linear index of a multi-index is a row-major bijection (PROP 3).
// C04: forRange visits every index of its box exactly once, in order (PROP 4).
#include "ref.hpp"
#include "shiva/common/IndexTypes.hpp"
#include <stdexcept>
using namespace vh;

template< typename T > struct TN;
#define TNAME( T ) template<> struct TN< T > { static char const * get() { return #T; } }
TNAME( int ); TNAME( long ); TNAME( short ); TNAME( unsigned ); TNAME( unsigned char ); TNAME( signed char ); TNAME( unsigned short ); TNAME( long long ); TNAME( unsigned long ); TNAME( unsigned long long );

template< typename T, T ... R > struct Box
{
  static constexpr int k = sizeof...( R );
  using M = shiva::MultiIndexRange< T, R ... >;
  static constexpr long r[k] = { long( R ) ... };
  static std::string name() { std::string s = fmt( "MultiIndexRange<%s", TN< T >::get() ); for ( long x : r ) { s += fmt( ",%ld", x ); } return s + ">"; }
  static __int128 total() { __int128 t = 1; for ( long x : r ) { t *= x; } return t; }
  // reference: mixed-radix value
  static __int128 value( long const * c ) { __int128 v = 0; for ( int i = 0; i < k; ++i ) { v = v * r[i] + c[i]; } return v; }
};
static std::string tup( long const * c, int k ) { std::string s = "("; for ( int i = 0; i < k; ++i ) { s += fmt( "%s%ld", i ? "," : "", c[i] ); } return s + ")"; }
struct Runaway {};

#if PROP == 3
template< typename B, int K > static constexpr bool ctFirstLast()
{
  // first and last index of the box in a constant expression
  typename B::M a{}, z{};
  for ( int i = 0; i < K; ++i ) { a.data[i] = 0; z.data[i] = static_cast< decltype( z.data[0] + 0 ) >( B::r[i] - 1 ); }
  unsigned long long t = 1; for ( int i = 0; i < K; ++i ) { t *= (unsigned long long)B::r[i]; }
  return (unsigned long long)shiva::linearIndex( a ) == 0 && (unsigned long long)shiva::linearIndex( z ) == t - 1;
}
template< typename T, T ... R > static void one( Rng & g )
{
  using B = Box< T, R ... >;
  std::string const name = B::name();
  at( name );
  uint64_t const hn = strHash( name.c_str() );
  __int128 const total = B::total();
  if ( B::M::NUM_INDICES != B::k ) { mon().fail( "rank/" + name, name + ": number of indices" ); }
  for ( int i = 0; i < B::k; ++i ) { auto const q = B::M::range( launder( i ) ); if ( q != B::r[i] ) { mon().fail( "range/" + name, fmt( "%s: range %d is reported as %lld", name.c_str(), i, (long long)q ) ); } }
  // a new index stands at the origin of its box (default- and value-initialized, in memory that held something else)
  {
    alignas( 16 ) unsigned char mem[sizeof( typename B::M ) + sizeof( shiva::MultiIndex< T, B::k > )]; std::memset( mem, 0x5a, sizeof mem );
    auto * d = new( mem ) typename B::M; auto * e = new( mem + sizeof( typename B::M ) ) shiva::MultiIndex< T, B::k >;
    typename B::M const v{}; shiva::MultiIndex< T, B::k > const u{};
    bool ok = true;
    for ( int i = 0; i < B::k; ++i ) { ok = ok && d->data[i] == T( 0 ) && e->data[i] == T( 0 ) && v.data[i] == T( 0 ) && u.data[i] == T( 0 ); }
    if ( !ok || shiva::linearIndex( *d ) != T( 0 ) ) { mon().fail( "origin/" + name, name + ": a new index does not stand at the origin" ); }
  }
  constexpr bool ct = ctFirstLast< B, B::k >();
  if ( !ct ) { mon().fail( "constexpr/" + name, name + ": first or last linear index wrong in a constant expression" ); }
  auto check = [&] ( long const * c )
  {
    typename B::M m;
    for ( int i = 0; i < B::k; ++i ) { m.data[i] = launder( static_cast< T >( c[i] ) ); }
    auto const l = shiva::linearIndex( m );
    static_assert( std::is_same_v< std::remove_const_t< decltype( l ) >, T > );
    typename B::M const & cm = m;
    auto const l2 = shiva::linearIndex( cm );
    for ( int i = 0; i < B::k; ++i ) { if ( long( m.data[i] ) != c[i] ) { mon().fail( "modified/" + name, name + ": computing the linear index changed the index" ); } }
    __int128 const want = B::value( c );
    mon().eval( mix( hn, uint64_t( want ) ), total > 1 && want != 0 );
    if ( __int128( l ) != want || __int128( l2 ) != want ) { mon().fail( "linear/" + name, fmt( "%s: linear index of %s is %lld, expected %lld", name.c_str(), tup( c, B::k ).c_str(), (long long)l, (long long)want ) ); }
    return __int128( l );
  };
  long c[B::k] = {};
  if ( total <= 20000 )
  {
    std::vector< char > seen( size_t( total ), 0 );
    __int128 prev = -1;
    for ( long f = 0; f < long( total ); ++f )
    {
      long q = f; for ( int i = B::k - 1; i >= 0; --i ) { c[i] = q % B::r[i]; q /= B::r[i]; }
      __int128 const l = check( c );
      if ( l < 0 || l >= total || seen[size_t( l )] ) { mon().fail( "bijection/" + name, fmt( "%s: value %lld taken twice or outside the box", name.c_str(), (long long)l ) ); }
      else { seen[size_t( l )] = 1; }
      if ( l <= prev ) { mon().fail( "monotone/" + name, fmt( "%s: not increasing at %s", name.c_str(), tup( c, B::k ).c_str() ) ); }
      prev = l;
    }
    mon().count( "boxes enumerated completely" );
  }
  else
  {
    for ( int t = 0; t < 1500 * mon().scale; ++t )
    {
      for ( int i = 0; i < B::k; ++i ) { int w = g.below( 6 ); c[i] = w == 0 ? 0 : w == 1 ? B::r[i] - 1 : long( g.next() % uint64_t( B::r[i] ) ); }
      __int128 const l = check( c );
      // lexicographic successor has the next value
      int i = B::k - 1; while ( i >= 0 && c[i] + 1 == B::r[i] ) { c[i] = 0; --i; }
      if ( i >= 0 ) { ++c[i]; if ( check( c ) != l + 1 ) { mon().fail( "successor/" + name, name + ": successor of an index is not one higher" ); } }
    }
    mon().count( "boxes sampled" );
  }
  // a linear index is its own linear index
  T const v = static_cast< T >( g.below( 100 ) );
  if ( shiva::linearIndex( v ) != v ) { mon().fail( "identity", "linear index of a linear index differs" ); }
  if ( mon().wantSample( TN< T >::get() ) ) { mon().sample( fmt( "%s: last index has linear index %lld", name.c_str(), (long long)( total - 1 ) ) ); }
}
#else
template< typename B, typename T > struct Trace
{
  std::string name; long start[B::k]; long cur[B::k]; long n = 0; __int128 want = 1; bool bad = false; bool empty = false; void const * obj = nullptr;
  void begin( typename B::M const & s )
  {
    want = 1; n = 0; bad = false;
    for ( int i = 0; i < B::k; ++i ) { start[i] = cur[i] = long( s.data[i] ); want *= start[i] < B::r[i] ? B::r[i] - start[i] : 0; }
  }
  template< typename I > void visit( I const & x )
  {
    ++n;
    if ( n > want + 8 ) { throw Runaway(); }
    bool same = true; for ( int i = 0; i < B::k; ++i ) { same = same && long( x.data[i] ) == cur[i]; }
    if ( !same && !bad )
    {
      bad = true;
      long y[B::k]; for ( int i = 0; i < B::k; ++i ) { y[i] = long( x.data[i] ); }
      mon().fail( "order/" + name, fmt( "%s from %s: call %ld received %s instead of %s", name.c_str(), tup( start, B::k ).c_str(), n, tup( y, B::k ).c_str(), tup( cur, B::k ).c_str() ) );
    }
    int i = B::k - 1; for ( ; i >= 0; --i ) { if ( ++cur[i] < B::r[i] ) { break; } cur[i] = start[i]; }
  }
  void end( char const * style )
  {
    mon().count( std::string( "style: " ) + style );
    if ( __int128( n ) != want ) { mon().fail( "count/" + name, fmt( "%s from %s (%s): %ld calls instead of %lld", name.c_str(), tup( start, B::k ).c_str(), style, n, (long long)want ) ); }
    uint64_t h = strHash( name.c_str() ); for ( long v : start ) { h = mix( h, uint64_t( v ) ); }
    mon().eval( h, want > 1 ); mon().count( "calls observed", uint64_t( n ) );
  }
};
template< typename B, typename T > struct Functor
{
  Trace< B, T > * t; long own = 0;
  void operator()( typename B::M const & i ) { ++own; t->visit( i ); }
};
template< typename B, typename T > struct ConstFunctor { Trace< B, T > * t; void operator()( typename B::M const & i ) const { t->visit( i ); } };
template< typename B, typename T > static Trace< B, T > * g_trace;
template< typename B, typename T > static void freeFunction( typename B::M const & i ) { g_trace< B, T >->visit( i ); }
template< typename B > static constexpr long ctCount() { typename B::M m{}; long n = 0; shiva::forRange( m, [&] ( auto const & i ) { n += 1 + 0 * long( i.data[0] ); } ); return n; }
template< typename B, int K > static constexpr bool ctOrder()
{
  typename B::M m{}; long prev = -1; bool ok = true;
  shiva::forRange( m, [&] ( auto const & i ) { long v = 0; for ( int d = 0; d < K; ++d ) { v = v * B::r[d] + long( i.data[d] ); } ok = ok && v == prev + 1; prev = v; } );
  return ok;
}
template< typename T, T ... R > static void one( Rng & g )
{
  using B = Box< T, R ... >;
  using M = typename B::M;
  Trace< B, T > t; t.name = B::name();
  __int128 const total = B::total();
  constexpr bool small = ( double( R ) * ... * 1.0 ) <= 500;
  if constexpr ( small )
  {
    constexpr long n = ctCount< B >(); constexpr bool o = ctOrder< B, B::k >();
    mon().eval( strHash( t.name.c_str() ) + 17, total > 1 ); mon().count( "style: constant expression" );
    if ( n != long( total ) || !o ) { mon().fail( "constexpr/" + t.name, fmt( "%s: %ld calls in a constant expression, in order: %d", t.name.c_str(), n, int( o ) ) ); }
  }
  int const reps = ( total > 3000 ? 6 : 40 ) * mon().scale;
  for ( int rep = 0; rep < reps; ++rep )
  {
    M m;
    for ( int i = 0; i < B::k; ++i )
    {
      long s = 0;
      int const w = rep == 0 ? 9 : g.below( 12 );
      if ( w == 0 ) { s = B::r[i]; }                                   // nothing left in this direction
      else if ( w == 1 ) { s = B::r[i] - 1; }
      else if ( w == 2 ) { s = B::r[i] + 1 + g.below( 3 ); }           // past the end
      else if ( w == 3 && std::is_signed_v< T > ) { s = -g.between( 1, 3 ); }
      else if ( w <= 7 ) { s = long( g.next() % uint64_t( B::r[i] + 1 ) ); }
      if ( B::r[i] > 3000 ) { s = B::r[i] - g.below( 50 ); }
      if ( double( s ) > double( std::numeric_limits< T >::max() ) ) { s = 0; }
      m.data[i] = launder( static_cast< T >( s ) );
    }
    int const style = rep % 7;
    at( t.name + fmt( " style %d", style ) );
    t.begin( m );
    try
    {
      switch ( style )
      {
        case 0: shiva::forRange( m, [&] ( auto const & i ) { t.visit( i ); } ); t.end( "lambda" ); break;
        case 1: { auto f = [&] ( auto & i ) { t.visit( i ); }; shiva::forRange( m, f ); t.end( "lvalue lambda" ); break; }
        case 2: { Functor< B, T > f{ &t }; shiva::forRange( m, f ); t.end( "stateful functor" ); if ( f.own != t.n ) { mon().fail( "state/" + t.name, t.name + ": calls went to a copy of the caller's functor" ); } break; }
        case 3: { ConstFunctor< B, T > const f{ &t }; shiva::forRange( m, f ); t.end( "const functor" ); break; }
        case 4: g_trace< B, T > = &t; shiva::forRange( m, freeFunction< B, T > ); t.end( "function" ); break;
        case 5: { std::function< void( M const & ) > f = [&] ( M const & i ) { t.visit( i ); }; shiva::forRange( m, std::move( f ) ); t.end( "std::function" ); break; }
        default: // nested iteration over another index object of the same type
        {
          long inner = 0, innerBad = 0;
          shiva::forRange( m, [&] ( auto const & i )
          {
            t.visit( i );
            shiva::MultiIndexRange< int, 2, 3 > in; long e = 0;
            shiva::forRange( in, [&] ( auto const & j ) { innerBad += e != j.data[0] * 3 + j.data[1]; ++e; ++inner; } );
          } );
          t.end( "nested" );
          if ( inner != 6 * t.n || innerBad ) { mon().fail( "nested/" + t.name, t.name + ": an inner iteration was disturbed by an outer one" ); }
        }
      }
    }
    catch ( Runaway const & ) { mon().fail( "runaway/" + t.name, fmt( "%s from %s: more than the %lld calls expected (stopped)", t.name.c_str(), tup( t.start, B::k ).c_str(), (long long)t.want ) ); }
    // an exception of the user function leaves the iteration at once
    if ( t.want > 2 )
    {
      long stopAt = 1 + g.below( int( t.want > 100 ? 100 : t.want ) - 1 ), n = 0; bool caught = false;
      M e; for ( int i = 0; i < B::k; ++i ) { e.data[i] = static_cast< T >( t.start[i] ); }
      try { shiva::forRange( e, [&] ( auto const & ) { if ( ++n == stopAt ) { throw std::runtime_error( "stop" ); } } ); } catch ( std::runtime_error const & ) { caught = true; }
      if ( !caught || n != stopAt ) { mon().fail( "exception/" + t.name, t.name + ": an exception of the body did not end the iteration" ); }
    }
    if ( t.want > 1 && mon().wantSample( TN< T >::get() ) ) { mon().sample( fmt( "%s from %s: %ld calls in lexicographic order", t.name.c_str(), tup( t.start, B::k ).c_str(), t.n ) ); }
  }
}
#endif

#if VH_PART == 0
VH_CASE( "int" )
{
  one< int, 1 >( rng ); one< int, 5 >( rng ); one< int, 2, 3 >( rng ); one< int, 3, 2 >( rng ); one< int, 4, 4 >( rng ); one< int, 1, 7 >( rng ); one< int, 7, 1 >( rng );
  one< int, 2, 3, 4 >( rng ); one< int, 4, 3, 2 >( rng ); one< int, 3, 1, 5 >( rng ); one< int, 5, 5, 5 >( rng ); one< int, 17, 3, 29 >( rng );
  one< int, 2, 3, 4, 5 >( rng ); one< int, 5, 4, 3, 2 >( rng ); one< int, 2, 2, 2, 2 >( rng ); one< int, 2, 3, 2, 3, 2 >( rng ); one< int, 1, 2, 1, 3, 1, 2 >( rng ); one< int, 2, 1, 2, 3, 2, 1, 2 >( rng );
  one< int, 300 >( rng ); one< int, 40000 >( rng ); one< int, 70, 300 >( rng );
}
#elif VH_PART == 1
VH_CASE( "long and long long" )
{
  one< long, 1 >( rng ); one< long, 6 >( rng ); one< long, 2, 3 >( rng ); one< long, 5, 2, 3 >( rng ); one< long, 3, 4, 2, 2 >( rng ); one< long long, 3, 7 >( rng ); one< long long, 2, 5, 3 >( rng );
  one< long long, 4, 1, 3, 2, 2 >( rng ); one< unsigned long, 5 >( rng ); one< unsigned long, 3, 4 >( rng ); one< unsigned long, 3, 2, 6 >( rng ); one< unsigned long long, 7, 2, 3 >( rng ); one< unsigned long long, 2, 3, 1, 4 >( rng );
  one< unsigned, 9 >( rng ); one< unsigned, 2, 6 >( rng ); one< unsigned, 3, 2, 4 >( rng ); one< unsigned, 2, 2, 3, 3 >( rng );
}
#elif VH_PART == 2
VH_CASE( "narrow" )
{
  one< short, 8 >( rng ); one< short, 3, 5 >( rng ); one< short, 4, 2, 3 >( rng ); one< short, 150, 200 >( rng ); one< short, 2, 3, 4, 3 >( rng ); one< signed char, 5 >( rng ); one< signed char, 4, 7 >( rng ); one< signed char, 2, 5, 3 >( rng ); one< signed char, 126 >( rng );
  one< unsigned char, 254 >( rng ); one< unsigned char, 5, 6 >( rng ); one< unsigned char, 3, 7, 4 >( rng ); one< unsigned char, 2, 2, 3, 5 >( rng ); one< unsigned short, 5, 5 >( rng ); one< unsigned short, 250, 260 >( rng ); one< unsigned short, 3, 4, 6 >( rng );
}
#elif VH_PART == 3
VH_CASE( "large" )
{
#if PROP == 3
  one< int, 1000, 2000, 1000 >( rng ); one< int, 46340, 46340 >( rng ); one< int, 7, 11, 13, 17, 19, 23 >( rng ); one< int, 2147483647 >( rng ); one< unsigned, 60000, 70000 >( rng ); one< unsigned, 2, 1000, 2000, 1000 >( rng );
  one< long, 3, 100000, 100000 >( rng ); one< long, 2000000000, 2000000000 >( rng ); one< long long, 5, 7, 2000000, 3000000 >( rng ); one< unsigned long, 4, 1000000000, 2000000000 >( rng ); one< long, 1000000, 1000000, 9000000 >( rng );
#else
  one< int, 1000000, 3 >( rng ); one< long, 2, 3, 100000 >( rng ); one< unsigned, 100000, 100000 >( rng ); one< long long, 200000, 1, 100000 >( rng );
#endif
}
#endif
