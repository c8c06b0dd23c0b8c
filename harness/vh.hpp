// Common run-time monitoring support for the Shiva harnesses.
//
// A harness registers cases with VH_CASE; main() (vh_main.cpp) runs them, feeds
// every observation to the monitor below and writes a JSON result file.
// Nothing in here includes Shiva.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <mutex>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <vector>

namespace vh
{

// ---------------------------------------------------------------- random
struct Rng
{
  uint64_t s;
  explicit Rng( uint64_t seed ): s( seed * 0x9E3779B97F4A7C15ull + 0x1234567ull ) { next(); }
  uint64_t next()
  {
    uint64_t z = ( s += 0x9E3779B97F4A7C15ull );
    z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
    z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
    return z ^ ( z >> 31 );
  }
  int below( int n ) { return n <= 0 ? 0 : int( next() % uint64_t( n ) ); }
  int between( int lo, int hi ) { return lo + below( hi - lo + 1 ); }   // inclusive
  bool coin() { return next() & 1; }
  double u01() { return double( next() >> 11 ) * 0x1p-53; }
  double uni( double lo, double hi ) { return lo + ( hi - lo ) * u01(); }
  double logUni( double lo, double hi ) { return std::exp( uni( std::log( lo ), std::log( hi ) ) ); }
  double sgn() { return coin() ? 1.0 : -1.0; }
};

inline uint64_t mix( uint64_t h, uint64_t v )
{
  h ^= v + 0x9E3779B97F4A7C15ull + ( h << 6 ) + ( h >> 2 );
  h = ( h ^ ( h >> 31 ) ) * 0xD6E8FEB86659FD93ull;
  return h ^ ( h >> 29 );
}
template< typename T > inline uint64_t bitsOf( T const & v )
{
  if constexpr ( std::is_same_v< T, long double > )
  {
    uint64_t a; double d = double( v ); std::memcpy( &a, &d, 8 ); return a;
  }
  else
  {
    uint64_t a = 0; std::memcpy( &a, &v, sizeof( T ) < 8 ? sizeof( T ) : 8 ); return a;
  }
}
inline uint64_t strHash( char const * s )
{
  uint64_t h = 1469598103934665603ull;
  while ( *s ) { h = ( h ^ uint64_t( (unsigned char)*s++ ) ) * 1099511628211ull; }
  return h;
}

// ---------------------------------------------------------------- monitor
struct Monitor
{
  std::string property = "?";
  uint64_t seed = 1;
  int scale = 1;            // workload multiplier (quick 1, thorough larger)
  bool thorough = false;
  uint64_t evaluations = 0;
  uint64_t distinctOverflow = 0;
  std::unordered_set< uint64_t > distinct;
  std::map< std::string, uint64_t > counters;
  std::vector< std::string > samples;
  struct Viol { std::string key, detail; };
  std::vector< Viol > violations;
  std::map< std::string, int > violPerKey;
  uint64_t violationCount = 0;
  std::mutex mtx;

  // One observed evaluation. nontrivial: by the rule of the property.
  void eval( uint64_t h, bool nontrivial = true )
  {
    ++evaluations;
    if ( nontrivial )
    {
      if ( distinct.size() < 3000000 ) { distinct.insert( h ); }
      else { ++distinctOverflow; }
    }
  }
  void count( std::string const & k, uint64_t n = 1 ) { counters[k] += n; }
  void maxi( std::string const & k, uint64_t n ) { auto & c = counters[k]; if ( n > c ) { c = n; } }
  void sample( std::string const & s ) { if ( samples.size() < 24 ) { samples.push_back( s ); } }
  bool wantSample( std::string const & group )
  {
    auto & c = counters["samples." + group];
    if ( c >= 1 || samples.size() >= 24 ) { return false; }
    ++c; return true;
  }
  void fail( std::string const & key, std::string const & detail )
  {
    std::lock_guard< std::mutex > g( mtx );
    ++violationCount;
    if ( ++violPerKey[key] <= 3 && violations.size() < 60 ) { violations.push_back( { key, detail } ); }
  }
};
Monitor & mon();

#if defined( __GNUC__ )
__attribute__(( format( printf, 1, 2 ) ))
#endif
inline std::string fmt( char const * f, ... )
{
  char buf[4096];
  va_list ap; va_start( ap, f ); vsnprintf( buf, sizeof buf, f, ap ); va_end( ap );
  return buf;
}

// What is being executed now; printed when the process dies.
void at( std::string const & where );

struct Registrar { Registrar( char const * name, std::function< void( Rng & ) > f ); };
#define VH_CAT2( a, b ) a##b
#define VH_CAT( a, b ) VH_CAT2( a, b )
#define VH_CASE( name ) \
  static void VH_CAT( vh_case_, __LINE__ )( vh::Rng & rng ); \
  static vh::Registrar VH_CAT( vh_reg_, __LINE__ )( name, VH_CAT( vh_case_, __LINE__ ) ); \
  static void VH_CAT( vh_case_, __LINE__ )( [[maybe_unused]] vh::Rng & rng )

// ---------------------------------------------------------------- laundering
template< typename T > inline T launder( T v )
{
  T volatile x = v;
  return x;
}

// ---------------------------------------------------------------- real types
template< typename R > struct RealName;
template<> struct RealName< float > { static char const * get() { return "float"; } };
template<> struct RealName< double > { static char const * get() { return "double"; } };
template<> struct RealName< long double > { static char const * get() { return "long double"; } };
// Rounding unit used in tolerances. Long double is only held to double accuracy,
// because the library writes many constants as double literals.
template< typename R > constexpr double unitRoundoff()
{
  return std::is_same_v< R, float > ? 0x1p-23 : 0x1p-52;
}

#ifdef WL_DEVICE
using Q = double;        // not used in device builds
#else
using Q = __float128;    // reference arithmetic (113 bit)
#endif
inline Q qabs( Q x ) { return x < 0 ? -x : x; }
inline bool finiteQ( Q x ) { return x - x == 0; }
inline double qd( Q x ) { return double( x ); }

// A coordinate generator that is hostile to "almost right" evaluation code:
// generic points, the nodes themselves, their floating-point neighbours, points
// at 10^-k from nodes and end points, points far outside, zeros and denormals.
template< typename R >
inline R hostileCoord( Rng & g, std::vector< Q > const & nodes, double farLimit, int * kindOut = nullptr )
{
  int const kind = g.below( 16 );
  if ( kindOut ) { *kindOut = kind; }
  auto node = [&]() -> R { return nodes.empty() ? R( 0 ) : R( nodes[ size_t( g.below( int( nodes.size() ) ) ) ] ); };
  switch ( kind )
  {
    case 0: return node();
    case 1: { R n = node(); int k = g.between( 1, 3 ); R to = g.coin() ? R( 2 ) : R( -2 ); for ( int i = 0; i < k; ++i ) n = std::nextafter( n, to ); return n; }
    case 2: return node() + R( g.sgn() * g.uni( 1, 10 ) * std::pow( 10.0, -g.between( 1, 16 ) ) );
    case 3: return R( g.sgn() ) * ( R( 1 ) + R( g.sgn() * std::pow( 10.0, -g.between( 1, 16 ) ) * g.uni( 1, 10 ) ) );
    case 4: return R( g.sgn() * g.uni( 1.0, 3.0 ) );
    case 5: return R( g.sgn() * g.logUni( 3.0, farLimit ) );
    case 6: return g.coin() ? R( 0.0 ) : R( -0.0 );
    case 7: return R( g.sgn() * g.logUni( 1e-30, 1e-3 ) );
    case 8: return R( g.sgn() ) * std::numeric_limits< R >::min() * R( g.u01() );
    case 9: return R( g.between( -64, 64 ) ) / R( 32 );
    case 10: return R( g.sgn() );
    case 11: // midpoints between nodes
      if ( nodes.size() >= 2 ) { size_t i = size_t( g.below( int( nodes.size() ) - 1 ) ); return R( ( nodes[i] + nodes[i + 1] ) / 2 ); }
      return R( g.uni( -1, 1 ) );
    default: return R( g.uni( -1, 1 ) );
  }
}

} // namespace vh
