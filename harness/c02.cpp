// C02: with bounds checking on, every out-of-range run-time index stops the program
// before memory is touched, with a message naming index and extent; in-range never.
// The abort is intercepted (SIGABRT, siglongjmp); descriptor 2 is a memory file;
// all of the storage around and inside the array is poisoned while the bad access runs.
#include "carray_access.hpp"
#include "shiva/ShivaConfig.hpp"
#include <csetjmp>
#include <csignal>
#include <memory>
#include <sys/mman.h>
#include <unistd.h>
#ifndef SHIVA_ENABLE_BOUNDS_CHECK
#error "the bounds-check build did not define SHIVA_ENABLE_BOUNDS_CHECK"
#endif
#if defined( __SANITIZE_ADDRESS__ )
#define HAVE_ASAN 1
#elif defined( __has_feature )
#if __has_feature( address_sanitizer )
#define HAVE_ASAN 1
#endif
#endif
#ifdef HAVE_ASAN
#include <sanitizer/asan_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION( a, b )
#define ASAN_UNPOISON_MEMORY_REGION( a, b )
#endif
using namespace vh;
using namespace acc;

static sigjmp_buf g_jmp;
static volatile sig_atomic_t g_armed = 0;
static void onAbort( int ) { if ( g_armed ) { g_armed = 0; siglongjmp( g_jmp, 1 ); } std::signal( SIGABRT, SIG_DFL ); raise( SIGABRT ); }

struct Capture
{
  int mem, keep;
  Capture() { mem = memfd_create( "err", 0 ); keep = dup( 2 ); dup2( mem, 2 ); }
  ~Capture() { dup2( keep, 2 ); close( keep ); close( mem ); }
  void reset() { if ( ftruncate( mem, 0 ) ) {} lseek( mem, 0, SEEK_SET ); }
  std::string text() { std::string s( size_t( lseek( mem, 0, SEEK_END ) ), 0 ); ssize_t r = pread( mem, &s[0], s.size(), 0 ); s.resize( r > 0 ? size_t( r ) : 0 ); return s; }
};
static Capture * g_cap;

// is the number v a token of the text?
static bool hasNumber( std::string const & s, std::string const & v )
{
  for ( size_t p = s.find( v ); p != std::string::npos; p = s.find( v, p + 1 ) )
  {
    auto digit = [] ( char c ) { return c >= '0' && c <= '9'; };
    bool const l = p == 0 || !( digit( s[p - 1] ) || s[p - 1] == '.' || ( s[p - 1] == '-' && v[0] != '-' ) );
    bool const r = p + v.size() >= s.size() || !digit( s[p + v.size()] );
    if ( l && r ) { return true; }
  }
  return false;
}
// the message without the file name and line number in front
static std::string strip( std::string s )
{
  size_t const a = s.find( '[' ), b = s.find( ']' );
  if ( a != std::string::npos && b != std::string::npos && a < b ) { s.erase( a, b - a + 1 ); }
  return s;
}
template< typename F > static bool aborts( F && f, std::string & text )
{
  g_cap->reset();
  struct sigaction act {}, old {};
  act.sa_handler = onAbort; act.sa_flags = SA_NODEFER;
  sigaction( SIGABRT, &act, &old );
  bool volatile stopped = false;
  if ( sigsetjmp( g_jmp, 1 ) == 0 ) { g_armed = 1; f(); g_armed = 0; }
  else { stopped = true; }
  sigaction( SIGABRT, &old, nullptr );
  text = g_cap->text();
  return stopped;
}

template< int P > static long cast( long v ) { return long( static_cast< typename TypeAt< P, 0 >::type >( v ) ); }
// values of the index type of position k under pattern `kind`, as seen after conversion
static void typeLimits( int kind, double & lo, double & hi )
{
  switch ( kind )
  {
    case kShort: lo = -32768; hi = 32767; break;
    case kSChar: lo = -128; hi = 127; break;
    case kUChar: lo = 0; hi = 255; break;
    case kUShort: lo = 0; hi = 65535; break;
    case kUInt: lo = 0; hi = 4294967295.0; break;
    case kInt: lo = -2147483648.0; hi = 2147483647.0; break;
    case kULong: case kULLong: lo = 0; hi = 1.8446744073709551615e19; break;
    default: lo = -9223372036854775808.0; hi = 9223372036854774784.0;
  }
}
// a value outside [0,extent) representable in the type; unsigned 64-bit values are bit patterns
static bool badValue( Rng & g, int kind, int extent, int total, bool intOnly, long & v )
{
  double lo, hi; typeLimits( kind, lo, hi );
  for ( int tries = 0; tries < 40; ++tries )
  {
    switch ( g.below( 14 ) )
    {
      case 12: v = long( uint64_t( g.coin() ? 1 : -1 ) << g.between( 3, 63 ) ); break;
      case 13: v = long( ( uint64_t( g.coin() ? 1 : -1 ) << g.between( 3, 63 ) ) + uint64_t( g.below( extent ) ) ); break;
      case 0: v = extent; break;
      case 1: v = -1; break;
      case 2: v = extent + g.below( 5 ); break;
      case 3: v = -g.between( 1, extent + 3 ); break;
      case 4: v = g.between( extent, extent + total ); break;      // may stay inside the flat buffer
      case 5: v = 2147483647L - g.below( 3 ); break;
      case 6: v = -2147483648L + g.below( 3 ); break;
      case 7: v = long( hi >= 9.2e18 ? 9223372036854775807.0 - 1024 : hi ); break;
      case 8: v = long( lo <= -9.2e18 ? -9223372036854775807.0 : lo ); break;
      case 9: v = long( 4294967296.0 ) * g.between( 1, 1000 ) + g.below( extent ); break;   // in range if truncated to 32 bits
      case 10: v = 65536L * g.between( 1, 30000 ) + g.below( extent ); break;
      default: v = g.coin() ? 256L * g.between( 1, 100 ) + g.below( extent ) : -256L * g.between( 1, 100 ) + g.below( extent );
    }
    if ( v < 0 && ( kind == kULong || kind == kULLong ) ) { if ( intOnly ) { continue; } return true; }     // values above the largest signed one
    if ( double( v ) < lo || double( v ) > hi ) { continue; }
    if ( intOnly && ( v > 2147483647L || v < -2147483648L ) ) { continue; }
    if ( v >= 0 && v < extent ) { continue; }
    return true;
  }
  return false;
}

template< typename S, bool Full, typename A, typename Store >
static void probe( A & a, Store & st, char const * what, Rng & g, int n )
{
  std::string const name = fmt( "%s %s", what, S::name().c_str() );
  for ( int t = 0; t < n; ++t )
  {
    int const form = g.below( numForms< S >() );
    int const kind = pickKind< Full >( g );
    long idx[S::rank];
    bool fits = true;
    for ( int k = 0; k < S::rank; ++k ) { double lo, hi; typeLimits( kindAt( kind, k ), lo, hi ); idx[k] = g.below( S::dims[k] ); fits = fits && double( S::dims[k] - 1 ) <= hi; }
    if ( !fits ) { continue; }
    bool const inRange = g.below( 4 ) == 0;
    int pos = g.below( S::rank ), nbad = 1, bad[S::rank] = { pos };
    if ( !inRange )
    {
      if ( g.below( 5 ) == 0 && S::rank > 1 ) { bad[1] = ( pos + 1 + g.below( S::rank - 1 ) ) % S::rank; nbad = 2; }
      bool ok = true;
      for ( int b = 0; b < nbad; ++b )
      {
        // brackets receive an int; what the language truncates before the call is probed separately
        bool const viaBracket = form == fBracket || ( form == fSlice1 && bad[b] == 0 ) || ( form == fSlice2 && bad[b] <= 1 );
        ok = ok && badValue( g, kindAt( kind, bad[b] ), S::dims[bad[b]], S::size, viaBracket, idx[bad[b]] );
      }
      if ( !ok ) { continue; }
    }
    std::string where = fmt( "%s, %s, %s indices (", name.c_str(), formName( form ), kindName( kind ) );
    for ( int k = 0; k < S::rank; ++k ) { where += fmt( "%s%ld", k ? "," : "", idx[k] ); }
    where += ")";
    at( where );
    unsigned char before[sizeof( Store )];
    std::memcpy( before, &st, sizeof( Store ) );
    if ( !inRange ) { ASAN_POISON_MEMORY_REGION( &st, sizeof( Store ) ); }
    std::string text;
    void const * volatile got = nullptr;
    bool const stopped = aborts( [&] { got = addrAny< S, Full >( kind, form, a, idx ); }, text );
    ASAN_UNPOISON_MEMORY_REGION( &st, sizeof( Store ) );
    if ( std::memcmp( before, &st, sizeof( Store ) ) ) { mon().fail( "touched/" + name, where + ": memory changed" ); }
    uint64_t h = mix( strHash( name.c_str() ), uint64_t( form * 64 + kind ) ); for ( long v : idx ) { h = mix( h, uint64_t( v ) ); }
    mon().eval( h, !inRange );
    if ( inRange )
    {
      mon().count( "in-range accesses" );
      if ( stopped || !text.empty() ) { mon().fail( "false-alarm/" + name, where + ": an in-range access was stopped or reported: " + text ); }
      continue;
    }
    mon().count( fmt( "out-of-range accesses: %s", formName( form ) ) );
    if ( !stopped ) { mon().fail( "not-stopped/" + name, where + ": the out-of-range access was not stopped" ); continue; }
    std::string const m = strip( text );
    bool named = false;
    for ( int b = 0; b < nbad; ++b )
    {
      long const v = idx[bad[b]];
      bool const val = hasNumber( m, std::to_string( v ) ) || ( v < 0 && hasNumber( m, std::to_string( (unsigned long)v ) ) ) || ( v < 0 && hasNumber( m, std::to_string( (unsigned)v ) ) )
                       || ( v > 2147483647L && v <= 4294967295L && hasNumber( m, std::to_string( int( v ) ) ) );
      named = named || ( val && hasNumber( m, std::to_string( S::dims[bad[b]] ) ) );
    }
    if ( !named ) { mon().fail( "message/" + name, where + ": the message does not name the offending index and its extent: " + text ); }
    if ( mon().wantSample( fmt( "%d.%d", S::rank, form ) ) ) { mon().sample( where + " -> " + m ); }
  }
}
template< typename S, typename T, bool Full > static void one( Rng & g )
{
  using A = typename S::template Owning< T >;
  int const n = 1200 * mon().scale;
  struct Store { unsigned char pre[256]; A a; unsigned char post[256]; };
  struct Buf { unsigned char pre[256]; T b[S::size]; unsigned char post[256]; };
  alignas( 64 ) static Store st; alignas( 64 ) static Buf bf;
  std::memset( static_cast< void * >( &st ), 0x5A, sizeof st ); std::memset( static_cast< void * >( &bf ), 0xA5, sizeof bf );
  probe< S, Full >( st.a, st, "array", g, n );
  probe< S, Full >( static_cast< A const & >( st.a ), st, "const array", g, n );
  typename S::template View< T > v( bf.b );
  typename S::template ConstView< T > cv( bf.b );
  probe< S, Full >( v, bf, "view", g, n );
  probe< S, Full >( static_cast< typename S::template View< T > const & >( v ), bf, "const view", g, n );
  probe< S, Full >( cv, bf, "view of const", g, n );
  mon().count( "shapes" );
}
struct Scope { Capture c; Scope() { g_cap = &c; } ~Scope() { g_cap = nullptr; } };
#if VH_PART == 0
VH_CASE( "rank 1" ) { Scope s; one< Shape< 1 >, double, true >( rng ); one< Shape< 7 >, char, true >( rng ); one< Shape< 300 >, double, true >( rng ); }
VH_CASE( "wide bracket index" )
{
  // operator[] takes an int: the language truncates wider values before the call
  Scope s;
  shiva::CArrayNd< double, 4 > a; shiva::CArrayNd< double, 3, 4 > b;
  int silent = 0;
  for ( int k = 1; k < 200; ++k )
  {
    long const v = 4294967296L * k + rng.below( 3 );
    std::string text;
    double const * volatile p = nullptr;
    if ( !aborts( [&] { p = &a[v]; }, text ) ) { ++silent; }
    if ( !aborts( [&] { p = &b[v][1]; }, text ) ) { ++silent; }
    if ( !aborts( [&] { p = &b[1][v]; }, text ) ) { ++silent; }
    mon().eval( mix( uint64_t( v ), 0xBEEF ) );
  }
  mon().count( "wide bracket indices accepted", uint64_t( silent ) );
  if ( silent ) { mon().fail( "bracket/wide-index-truncation", fmt( "operator[] truncates a 64-bit index to int before the check: %d of %d indices such as 4294967296 passed", silent, 199 * 3 ) ); }
}
#elif VH_PART == 1
VH_CASE( "rank 2" ) { Scope s; one< Shape< 3, 4 >, double, true >( rng ); one< Shape< 1, 5 >, char, false >( rng ); }
#elif VH_PART == 2
VH_CASE( "rank 3" ) { Scope s; one< Shape< 2, 3, 4 >, double, true >( rng ); }
#elif VH_PART == 3
VH_CASE( "rank 4" ) { Scope s; one< Shape< 3, 1, 2, 5 >, float, false >( rng ); one< Shape< 3, 3, 3, 3 >, double, false >( rng ); }
#elif VH_PART == 4
VH_CASE( "rank 5+" ) { Scope s; one< Shape< 2, 3, 2, 3, 2 >, double, false >( rng ); one< Shape< 2, 1, 2, 1, 2, 1, 3 >, double, false >( rng ); }
#elif VH_PART == 5
VH_CASE( "rank 2b" ) { Scope s; one< Shape< 70, 140 >, double, true >( rng ); one< Shape< 4, 3 >, int, false >( rng ); }
#endif
