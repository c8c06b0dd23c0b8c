// C24: integer power, factorial, binomial.
#include "ref.hpp"
#include "shiva/common/MathUtilities.hpp"
using namespace vh;
namespace mu = shiva::mathUtilities;
using I128 = __int128;

template< typename T, int E > static void power( Rng & g, char const * tn )
{
  for ( int n = 0; n < 60 * mon().scale; ++n )
  {
    T b;
    if constexpr ( std::is_floating_point_v< T > )
    {
      switch ( g.below( 9 ) ) { case 0: b = T( g.between( -12, 12 ) ); break; case 1: b = T( g.uni( -2, 2 ) ); break; case 2: b = g.coin() ? T( 0.0 ) : T( -0.0 ); break; case 3: b = T( g.sgn() * g.logUni( 1e-8, 1e8 ) ); break; case 4: b = T( 1 + g.uni( -1e-6, 1e-6 ) ); break;
        case 5: b = T( g.sgn() ) * T( std::exp( std::log( static_cast< long double >( std::numeric_limits< T >::max() ) ) / ( E < 1 ? 1 : E ) * ( g.coin() ? 1 - g.logUni( 1e-7, 1e-2 ) : 1 + g.logUni( 1e-3, 1e-1 ) ) ) ); mon().count( "bases at the upper limit" ); break;
        case 6: b = T( g.sgn() ) * T( std::exp( std::log( static_cast< long double >( g.coin() ? std::numeric_limits< T >::min() : std::numeric_limits< T >::denorm_min() ) ) / ( E < 1 ? 1 : E ) * ( 1 + g.uni( -1e-2, 1e-2 ) ) ) ); mon().count( "bases at the lower limit" ); break;
        case 7: { T const special[] = { std::numeric_limits< T >::infinity(), -std::numeric_limits< T >::infinity(), std::numeric_limits< T >::quiet_NaN(), std::numeric_limits< T >::max(), std::numeric_limits< T >::lowest(), std::numeric_limits< T >::denorm_min() }; b = special[g.below( 6 )]; break; }
        default: b = T( std::ldexp( g.sgn(), g.between( -20, 20 ) ) ); }
    }
    else
    {
      int const k = g.below( 6 );
      long long v = k == 0 ? g.between( -3, 3 ) : k == 1 ? g.between( -12, 12 ) : k == 2 ? g.between( -2000, 2000 ) : k == 3 ? g.between( -1, 1 ) : (long long)( g.next() >> g.below( 60 ) );
      if ( k == 5 )
      {
        v = (long long)( std::min( std::pow( static_cast< long double >( std::numeric_limits< T >::max() ), 1.0L / ( E < 1 ? 1 : E ) ), 9.2e18L ) );
        v = g.coin() ? v - g.below( 3 ) : v; if ( g.coin() ) { v = v < 9000000000000000000ll ? v + g.below( 2 ) : v; } if ( g.coin() ) { v = -v; } mon().count( "bases at the upper limit" );
      }
      b = T( v );
    }
    b = launder( b );
    std::string const what = fmt( "pow<%s,%d>", tn, E );
    uint64_t const h = mix( strHash( what.c_str() ), bitsOf( b ) );
    if constexpr ( std::is_floating_point_v< T > )
    {
      Q want = 1; Q const mx = std::numeric_limits< T >::max(), mn = std::numeric_limits< T >::min(), u = unitRoundoff< T >();
      for ( int e = 0; e < E; ++e ) { want *= b; if ( qabs( want ) > mx * 2 && !( qabs( Q( b ) ) < 1 ) ) { want = want > 0 ? mx * 2 : -mx * 2; } }
      if ( qabs( want ) > mx * ( 1 - ( 2 * E + 2 ) * u ) && qabs( want ) < mx * ( 1 + ( 2 * E + 2 ) * u ) ) { mon().count( "within rounding of the limit of the type: skipped" ); continue; }
      T const got = mu::pow< T, E >( b );
      mon().eval( h, E > 1 && b != 0 && b != 1 ); mon().count( std::string( "powers, " ) + tn );
      if ( want != want ) { if ( got == got ) { mon().fail( "pow/" + what, fmt( "%s(nan) is %.17g", what.c_str(), double( got ) ) ); } continue; }
      if ( qabs( want ) > mx ) { mon().count( "powers beyond the type" ); if ( !std::isinf( got ) || ( got > 0 ) != ( want > 0 ) ) { mon().fail( "pow/" + what, fmt( "%s(%.17g) is %.17g, should exceed the type", what.c_str(), double( b ), double( got ) ) ); } continue; }
      Q const tiny = qabs( want ) < mn * 4 ? Q( E ) * std::numeric_limits< T >::denorm_min() : Q( 0 );
      bool const exact = Q( T( want ) ) == want && std::floor( double( b ) ) == double( b ) && qabs( want ) < Q( 0x1p24 );
      if ( !( exact ? Q( got ) == want : qabs( Q( got ) - want ) <= ( 2 * E + 2 ) * u * qabs( want ) + tiny ) ) { mon().fail( "pow/" + what, fmt( "%s(%.17g) is %.17g, should be %.17g", what.c_str(), double( b ), double( got ), qd( want ) ) ); }
    }
    else
    {
      T want; std::string s;
      if constexpr ( std::is_unsigned_v< T > )
      {
        uint64_t w = 1; for ( int e = 0; e < E; ++e ) { w *= uint64_t( b ); }
        if constexpr ( sizeof( T ) < 4 ) { I128 x = 1; bool in = true; for ( int e = 0; e < E && in; ++e ) { x *= I128( b ); in = x <= I128( std::numeric_limits< T >::max() ); } if ( !in ) { continue; } }
        want = T( w );
      }
      else
      {
        I128 w = 1; bool in = true;
        for ( int e = 0; e < E && in; ++e ) { w *= I128( b ); in = w <= I128( std::numeric_limits< T >::max() ) && w >= I128( std::numeric_limits< T >::min() ); }
        if ( !in ) { mon().count( "outside the range of the type: skipped" ); continue; }
        want = T( w );
      }
      T const got = mu::pow< T, E >( b );
      mon().eval( h, E > 1 && b != 0 && b != 1 ); mon().count( std::string( "powers, " ) + tn );
      if ( got != want ) { mon().fail( "pow/" + what, fmt( "%s(%lld) is %lld, should be %lld", what.c_str(), (long long)b, (long long)got, (long long)want ) ); }
      if ( E == 5 && n > 20 && mon().wantSample( what ) ) { mon().sample( fmt( "%s(%lld) = %lld", what.c_str(), (long long)b, (long long)got ) ); }
    }
  }
}
template< typename T, int ... E > static void powers( Rng & g, char const * n, std::integer_sequence< int, E... > ) { ( power< T, E >( g, n ), ... ); }
template< typename T, int N > static constexpr bool fits() { I128 f = 1; for ( int i = 2; i <= N; ++i ) { f *= i; if ( f > I128( std::numeric_limits< T >::max() ) ) { return false; } } return true; }
template< typename T > static void number( std::string const & what, T got, I128 want )
{
  mon().eval( strHash( what.c_str() ), want > 1 );
  if ( I128( got ) != want ) { mon().fail( "value/" + what, fmt( "%s is %lld, should be %lld", what.c_str(), (long long)got, (long long)want ) ); }
}
template< typename T, int N, int ... K > static void binomials( char const * tn, std::integer_sequence< int, K... > )
{
  auto c = [] ( int n, int k ) { std::vector< I128 > row{ 1 }; for ( int i = 1; i <= n; ++i ) { std::vector< I128 > next( size_t( i ) + 1, 1 ); for ( int j = 1; j < i; ++j ) { next[size_t( j )] = row[size_t( j )] + row[size_t( j - 1 )]; } row = next; } return row[size_t( k )]; };
  ( number< T >( fmt( "binomialCoefficient<%s,%d,%d>", tn, N, K ), mu::binomialCoefficient< T, T( N ), T( K ) >::value, c( N, K ) ), ... );
  mon().count( std::string( "binomials, " ) + tn, sizeof...( K ) );
}
template< typename T, int N > static void combinatorics( char const * tn )
{
  if constexpr ( fits< T, N >() )
  {
    I128 f = 1; for ( int i = 2; i <= N; ++i ) { f *= i; }
    number< T >( fmt( "factorial<%s,%d>", tn, N ), mu::factorial< T, T( N ) >::value, f ); mon().count( std::string( "factorials, " ) + tn );
    binomials< T, N >( tn, std::make_integer_sequence< int, N + 1 >{} );
    if constexpr ( N < 24 ) { combinatorics< T, N + 1 >( tn ); }
  }
}
#define ALL( T, MAXE ) powers< T >( rng, #T, std::make_integer_sequence< int, MAXE >{} )
VH_CASE( "powers" )
{
  ALL( int, 34 ); ALL( long long, 65 ); ALL( unsigned, 40 ); ALL( unsigned long long, 66 ); ALL( long, 20 ); ALL( short, 17 ); ALL( signed char, 9 ); ALL( unsigned char, 9 ); ALL( unsigned short, 17 );
  ALL( float, 24 ); ALL( double, 40 ); ALL( long double, 40 );
  power< double, 100 >( rng, "double" ); power< double, 257 >( rng, "double" ); power< int, 300 >( rng, "int" ); power< long long, 301 >( rng, "long long" );
}
VH_CASE( "combinatorics" )
{
  combinatorics< int, 0 >( "int" ); combinatorics< long long, 0 >( "long long" ); combinatorics< unsigned, 0 >( "unsigned" ); combinatorics< unsigned long long, 0 >( "unsigned long long" ); combinatorics< long, 0 >( "long" ); combinatorics< short, 0 >( "short" ); combinatorics< signed char, 0 >( "signed char" ); combinatorics< unsigned char, 0 >( "unsigned char" );
}
