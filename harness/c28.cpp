// C28: portability layer on the host: exactly-once execution, the caller's data, exceptions, check().
#include "ref.hpp"
#include "shiva/common/pmpl.hpp"
#include <array>
#include <cfloat>
#include <memory>
#include <stdexcept>
#include <string>
using namespace vh;
namespace pm = shiva::pmpl;

static int g_calls; static void plainFunction() { ++g_calls; }
static void dataFunction( int * p ) { ++g_calls; p[0] += 1; }
struct Counter { int * n; void operator()() { ++*n; } };
struct ConstCounter { int * n; void operator()() const { ++*n; } };
struct MoveOnly { int * n; std::unique_ptr< int > p = std::make_unique< int >( 3 ); void operator()() { *n += p ? 1 : 100; } };
struct MoveOnlyData { int * n; std::unique_ptr< int > p = std::make_unique< int >( 3 ); void operator()( double * d ) { *n += p ? 1 : 100; d[0] = 4; } };
static void once( char const * what, int calls )
{
  mon().eval( mix( strHash( what ), mon().evaluations % 64 ), true ); mon().count( std::string( "kernel: " ) + what );
  if ( calls != 1 ) { mon().fail( std::string( "once/" ) + what, fmt( "%s was called %d times", what, calls ) ); }
}
VH_CASE( "kernels without data" )
{
  for ( int n = 0; n < 200 * mon().scale; ++n )
  {
    bool const ab = rng.coin(); int c = 0; bool inside = false, after = false;
    pm::genericKernelWrapper( [&] { ++c; inside = !after; } ); after = true; once( "lambda", c ); if ( !inside ) { mon().fail( "order", "the kernel had not run when the call returned" ); }
    c = 0; auto l = [&c] { ++c; }; pm::genericKernelWrapper( l, ab ); once( "lvalue lambda", c );
    c = 0; auto const cl = [&c] { ++c; }; pm::genericKernelWrapper( cl, ab ); once( "const lambda", c );
    c = 0; auto ml = [&c, own = 0] () mutable { c += ++own; }; pm::genericKernelWrapper( ml, ab ); once( "mutable lambda", c );
    c = 0; Counter f{ &c }; pm::genericKernelWrapper( f ); once( "functor", c );
    c = 0; ConstCounter const cf{ &c }; pm::genericKernelWrapper( cf, ab ); once( "const functor", c );
    c = 0; pm::genericKernelWrapper( MoveOnly{ &c }, ab ); once( "move-only functor", c );
    g_calls = 0; pm::genericKernelWrapper( plainFunction, ab ); once( "function", g_calls );
    g_calls = 0; pm::genericKernelWrapper( &plainFunction ); once( "function pointer", g_calls );
    c = 0; std::function< void() > sf = [&c] { ++c; }; pm::genericKernelWrapper( sf, ab ); once( "std::function", c );
    if ( !sf ) { mon().fail( "once/std::function", "the caller's callable was emptied" ); }
    c = 0; auto tok = std::make_shared< int >( 1 ); { auto k = [tok, &c] { ++c; }; pm::genericKernelWrapper( k ); pm::genericKernelWrapper( std::move( k ) ); } if ( c != 2 || tok.use_count() != 1 ) { mon().fail( "lifetime", "captured state was not released" ); }
    int inner = 0, outer = 0; pm::genericKernelWrapper( [&] { ++outer; pm::genericKernelWrapper( [&] { ++inner; } ); } ); once( "nested outer", outer ); once( "nested inner", inner );
    c = 0; bool caught = false; int const code = rng.between( 0, 1 << 20 );
    try { pm::genericKernelWrapper( [&] { ++c; throw code; }, ab ); } catch ( int e ) { caught = e == code; }
    once( "throwing kernel", c ); if ( !caught ) { mon().fail( "exception", "the exception of the kernel did not reach the caller" ); }
  }
}
template< typename T > static void withData( Rng & g )
{
  constexpr int G = 16, MAX = 64;
  static T store[MAX + 2 * G];
  for ( int n = 0; n < 300 * mon().scale; ++n )
  {
    int const N = g.below( 4 ) == 0 ? g.below( 3 ) : g.between( 1, MAX );
    for ( int i = 0; i < MAX + 2 * G; ++i ) { store[i] = T( g.between( 1, 100 ) ); }
    std::vector< T > shadow( store, store + MAX + 2 * G );
    T * const data = store + G;
    int calls = 0; T * seen = nullptr; bool changed = false; int writes = N ? g.below( N + 1 ) : 0; bool const thrown = g.below( 5 ) == 0; bool const ab = g.coin();
    std::vector< int > at; for ( int w = 0; w < writes; ++w ) { at.push_back( g.below( N ) ); }
    auto kernel = [&] ( T * d )
    {
      ++calls; seen = d;
      for ( int i = 0; i < N; ++i ) { changed = changed || !( d[i] == shadow[size_t( G + i )] ); }
      for ( int a : at ) { d[a] = T( 7 + a % 50 ); }
      if ( thrown ) { throw std::runtime_error( "kernel" ); }
    };
    for ( int i : at ) { (void)i; }
    bool caught = false;
    std::vector< T > const before = shadow;
    try { if ( g.coin() ) { pm::genericKernelWrapper( N, data, kernel, ab ); } else { pm::genericKernelWrapper( N, data, std::move( kernel ) ); } } catch ( std::runtime_error const & e ) { caught = std::string( e.what() ) == "kernel"; }
    for ( int a : at ) { shadow[size_t( G + a )] = T( 7 + a % 50 ); }
    once( "kernel with data", calls );
    if ( caught != thrown ) { mon().fail( "exception", "the exception of a kernel with data did not reach the caller" ); }
    if ( seen != data ) { mon().fail( "data", "the kernel did not get the caller's data" ); }
    if ( changed ) { mon().fail( "data", "the kernel did not see the caller's values" ); }
    for ( int i = 0; i < MAX + 2 * G; ++i ) { if ( !( store[i] == shadow[size_t( i )] ) ) { mon().fail( "data", fmt( "element %d of %d is wrong after the kernel (%d writes)", i - G, N, writes ) ); break; } }
    mon().count( "elements compared", MAX + 2 * G );
    if ( n == 40 ) { mon().sample( fmt( "kernel on %d elements, %d writes, %s: %d call", N, writes, thrown ? "throws" : "returns", calls ) ); }
  }
  int calls = 0; pm::genericKernelWrapper( 0, static_cast< T * >( nullptr ), [&] ( T * p ) { ++calls; if ( p ) { calls += 10; } } ); once( "no data", calls );
}
VH_CASE( "kernels with data" )
{
  withData< int >( rng ); withData< double >( rng ); withData< float >( rng ); withData< long long >( rng ); withData< unsigned char >( rng );
  int c = 0; double d[2] = { 1, 2 }; pm::genericKernelWrapper( 2, d, MoveOnlyData{ &c } ); once( "move-only with data", c ); if ( d[0] != 4 || d[1] != 2 ) { mon().fail( "data", "move-only kernel" ); }
  int i[1] = { 5 }; g_calls = 0; pm::genericKernelWrapper( 1, i, dataFunction ); once( "function with data", g_calls ); if ( i[0] != 6 ) { mon().fail( "data", "function kernel" ); }
  double const cd[3] = { 1, 2, 3 }; double sum = 0; c = 0; pm::genericKernelWrapper( 3, cd, [&] ( double const * p ) { ++c; sum = p[0] + p[1] + p[2]; } ); once( "const data", c ); if ( sum != 6 ) { mon().fail( "data", "const data" ); }
}
static int g_alive;
struct Obj { char pad[24]; Obj() { ++g_alive; } ~Obj() { --g_alive; } };
VH_CASE( "release" )
{
  for ( int n = 0; n < 200 * mon().scale; ++n )
  {
    int const N = rng.between( 0, 50 );
    int const before = g_alive;
    Obj * o = new Obj[size_t( N )]; int const had = g_alive; pm::deallocateData( o );
    mon().eval( uint64_t( N ), N > 0 ); mon().count( "releases" );
    if ( had != before + N || g_alive != before ) { mon().fail( "release", fmt( "releasing %d objects destroyed %d", N, had - g_alive ) ); }
    pm::deallocateData( new double[size_t( N + 1 )] ); pm::deallocateData( static_cast< int * >( nullptr ) );
    std::unique_ptr< int > * u = new std::unique_ptr< int >[3]; u[2] = std::make_unique< int >( 3 ); pm::deallocateData( u );
  }
}
template< typename R > static void checks( Rng & g )
{
  R const mx = std::numeric_limits< R >::max(), inf = std::numeric_limits< R >::infinity(), nan = std::numeric_limits< R >::quiet_NaN(), mn = std::numeric_limits< R >::min(), dn = std::numeric_limits< R >::denorm_min();
  double const far = std::is_same_v< R, float > ? 1e30 : 1e250;
  auto judge = [&] ( R a, R b, R t )
  {
    a = launder( a ); b = launder( b ); t = launder( t );
    bool want, clear = true;
    if ( a != a || b != b || t != t ) { want = false; }
    else if ( std::isinf( a ) || std::isinf( b ) ) { want = ( a == b ) ? false : false; clear = !( a == b ) && !std::isinf( t ); }   // the difference of equal infinities is not defined
    else
    {
      Q const d = qabs( Q( a ) - Q( b ) );
      want = std::isinf( t ) ? t > 0 : d < Q( t );
      if ( !std::isinf( t ) && d <= Q( mx ) && Q( R( Q( a ) - Q( b ) ) ) != Q( a ) - Q( b ) ) { clear = qabs( d - Q( t ) ) > 4 * Q( unitRoundoff< R >() ) * d; }
      if ( std::isinf( t ) && d > Q( mx ) ) { clear = false; }
    }
    if ( !clear ) { mon().count( "difference not exact and next to the tolerance: skipped" ); return; }
    bool const got = pm::check( a, b, t );
    mon().eval( mix( mix( bitsOf( a ), bitsOf( b ) ), bitsOf( t ) ), true ); mon().count( want ? "comparisons that hold" : "comparisons that do not hold" );
    if ( got != want ) { mon().fail( "check", fmt( "check<%s>( %.17g, %.17g, %.17g ) is %s", RealName< R >::get(), double( a ), double( b ), double( t ), got ? "true" : "false" ) ); }
    if ( mon().wantSample( fmt( "%s%d", RealName< R >::get(), want ) ) ) { mon().sample( fmt( "check<%s>( %.9g, %.9g, %.9g ) = %d", RealName< R >::get(), double( a ), double( b ), double( t ), got ) ); }
  };
  R const special[] = { 0, R( -0.0 ), 1, -1, R( .5 ), R( 1.5 ), 2, mx, -mx, mn, -mn, dn, -dn, inf, -inf, nan, R( 1e-20 ), R( -1e-20 ), R( 1e20 ), R( 1 ) + std::numeric_limits< R >::epsilon() };
  for ( R a : special ) { for ( R b : special ) { for ( R t : special ) { judge( a, b, t ); } } }
  for ( int n = 0; n < 30000 * mon().scale; ++n )
  {
    R const a = R( g.sgn() * g.logUni( 1 / far, far ) ), t = R( g.logUni( 1 / far, far ) );
    switch ( g.below( 6 ) )
    {
      case 0: judge( a, R( g.sgn() * g.logUni( 1 / far, far ) ), t ); break;
      case 1: judge( a, R( a + R( g.uni( -3, 3 ) ) * t ), t ); break;
      case 2: judge( R( g.between( -99, 99 ) ), R( g.between( -99, 99 ) ), R( g.between( -3, 99 ) ) ); break;       // exact ties
      case 3: judge( R( g.between( -99, 99 ) ) / 64, R( g.between( -99, 99 ) ) / 64, R( g.between( 0, 99 ) ) / 64 ); break;
      case 4: judge( a, std::nextafter( a, mx ), R( std::fabs( a ) * R( 1e-3 ) ) ); break;
      default: judge( a, a, g.coin() ? t : g.coin() ? R( 0 ) : -t );
    }
  }
}
VH_CASE( "check" ) { checks< double >( rng ); checks< float >( rng ); checks< long double >( rng ); }
