// C19: failed assertions are reported completely and abort exactly when asked.
// The abort is intercepted (SIGABRT, siglongjmp), descriptors 1 and 2 are memory files;
// a sample of failures runs in child processes whose status is read.
#include "vh.hpp"
#include "shiva/common/ShivaErrorHandling.hpp"
#include "shiva/common/ShivaMacros.hpp"
#include <csetjmp>
#include <csignal>
#include <cerrno>
#include <cinttypes>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace vh;

static sigjmp_buf g_jmp; static volatile sig_atomic_t g_armed = 0, g_aborts = 0;
static void onAbort( int ) { if ( g_armed ) { g_armed = 0; ++g_aborts; siglongjmp( g_jmp, 1 ); } std::signal( SIGABRT, SIG_DFL ); raise( SIGABRT ); }
struct Capture
{
  int fd, mem, keep;
  explicit Capture( int d ): fd( d ) { mem = memfd_create( "out", 0 ); keep = dup( fd ); dup2( mem, fd ); }
  ~Capture() { dup2( keep, fd ); close( keep ); close( mem ); }
  void reset() { if ( ftruncate( mem, 0 ) ) {} lseek( mem, 0, SEEK_SET ); }
  std::string text() { std::string s( size_t( lseek( mem, 0, SEEK_END ) ), 0 ); ssize_t r = pread( mem, &s[0], s.size(), 0 ); s.resize( r > 0 ? size_t( r ) : 0 ); return s; }
};
struct Seen { bool aborted; std::string err, out; };
static Capture * g_err, * g_out;
template< typename F > static Seen observe( F && f )
{
  g_err->reset(); g_out->reset();
  struct sigaction act {}, old {};
  act.sa_handler = onAbort; act.sa_flags = SA_NODEFER; sigaction( SIGABRT, &act, &old );
  bool volatile stopped = false;
  if ( sigsetjmp( g_jmp, 1 ) == 0 ) { g_armed = 1; f(); g_armed = 0; } else { stopped = true; }
  sigaction( SIGABRT, &old, nullptr );
  std::fflush( stdout );
  return { stopped, g_err->text(), g_out->text() };
}
static std::string show( std::string s ) { if ( s.size() > 300 ) { s = s.substr( 0, 150 ) + " ... " + s.substr( s.size() - 120 ); } return s; }
// exactly one line holds file, line and message; it is the first
static void judge( char const * form, Seen const & s, std::string const & file, int line, std::string const & msg, bool abortDue )
{
  mon().eval( mix( mix( strHash( form ), strHash( msg.c_str() ) ), uint64_t( line ) ), true );
  mon().count( std::string( form ) + ( abortDue ? ", aborting" : ", returning" ) );
  auto bad = [&] ( char const * key, std::string const & why ) { mon().fail( std::string( key ) + "/" + form, fmt( "%s, message '%s' at %s:%d: %s; the error stream holds '%s'", form, show( msg ).c_str(), show( file ).c_str(), line, why.c_str(), show( s.err ).c_str() ) ); };
  if ( s.aborted != abortDue ) { bad( "abort", abortDue ? "did not abort" : "aborted" ); }
  if ( !s.out.empty() ) { bad( "stdout", "something went to the output stream" ); }
  bool const oneLine = msg.find( '\n' ) == std::string::npos;
  size_t const at = s.err.find( msg.empty() ? std::string( "]" ) : msg );
  if ( at == std::string::npos ) { bad( "message", "the message is missing or incomplete" ); return; }
  if ( !msg.empty() && msg.size() > 12 && s.err.find( msg, at + 1 ) != std::string::npos ) { bad( "message", "the message appears twice" ); }
  std::string const first = s.err.substr( 0, s.err.find( '\n', at ) );
  if ( s.err.find( '\n', at + msg.size() ) == std::string::npos ) { bad( "line", "the line is not ended" ); }
  if ( first.find( file ) == std::string::npos ) { bad( "file", "the source file is not named before the end of the line" ); }
  std::string const ln = std::to_string( line ); bool found = false; std::string rest = first;
  size_t const fp = rest.find( file ); if ( fp != std::string::npos ) { rest.erase( fp, file.size() ); }
  for ( size_t p = rest.find( ln ); p != std::string::npos; p = rest.find( ln, p + 1 ) ) { bool const l = p == 0 || !std::isdigit( (unsigned char)rest[p - 1] ), r = p + ln.size() >= rest.size() || !std::isdigit( (unsigned char)rest[p + ln.size()] ); found = found || ( l && r ); }
  if ( !found ) { bad( "line number", "the line number is missing" ); }
  if ( oneLine && first.find( '\n' ) != std::string::npos ) { bad( "line", "file and message are not on one line" ); }
  // the message is complete: nothing of it follows the end of its line
  if ( oneLine && s.err.substr( at, msg.size() ) != msg ) { bad( "message", "the message is cut" ); }
  if ( msg.size() > 20 && mon().wantSample( form ) ) { mon().sample( form + std::string( ": " ) + show( s.err ) ); }
}
static std::string randomText( Rng & g, int n ) { static char const a[] = "abcXYZ 0123456789%/\\[]:<>{}#\"'$!~.,;-+"; std::string s; while ( int( s.size() ) < n ) { s += a[g.below( int( sizeof a ) - 1 )]; } return s; }
static int length( Rng & g ) { switch ( g.below( 6 ) ) { case 0: return g.between( 1, 8 ); case 1: return g.between( 100, 300 ); case 2: return g.between( 500, 1100 ); case 3: return g.between( 4000, 9000 ); default: return g.between( 8, 80 ); } }

VH_CASE( "reporter" )
{
  Capture e( 2 ), o( 1 ); g_err = &e; g_out = &o;
  for ( int n = 0; n < 6000 * mon().scale; ++n )
  {
    at( fmt( "reporter %d", n ) );
    bool const ab = rng.coin();
    std::string const file = "dir/" + randomText( rng, rng.below( 8 ) == 0 ? 600 : rng.between( 1, 40 ) ) + ".hpp";
    int const line = rng.below( 5 ) == 0 ? rng.below( 3 ) : rng.between( 1, 2147483647 - 1 );
    std::string const a = "<" + randomText( rng, length( rng ) ) + ">";
    int const i = int( rng.next() ); unsigned long long const u = rng.next(); double const d = rng.sgn() * rng.logUni( 1e-200, 1e200 ); intmax_t const j = intmax_t( rng.next() );
    switch ( n % 9 )
    {
      case 8: { std::string const m = a + '\0' + fmt( "after the zero %d ", i ) + '\0' + "end"; judge( "reporter, zero characters", observe( [&] { shivaAssertionFailed( file.c_str(), line, ab, "%s%cafter the zero %d %cend", a.c_str(), 0, i, 0 ); } ), file, line, m, ab ); break; }
      case 0: judge( "reporter, text", observe( [&] { shivaAssertionFailed( file.c_str(), line, ab, "%s", a.c_str() ); } ), file, line, a, ab ); break;
      case 1: judge( "reporter, integers", observe( [&] { shivaAssertionFailed( file.c_str(), line, ab, "Index out of bounds: 0 < index(%jd) < dim(%jd)", j, intmax_t( i ) ); } ), file, line, fmt( "Index out of bounds: 0 < index(%jd) < dim(%jd)", j, intmax_t( i ) ), ab ); break;
      case 2: judge( "reporter, mixed", observe( [&] { shivaAssertionFailed( file.c_str(), line, ab, "%d|%llu|%.17g|%s|%c|100%%", i, u, d, a.c_str(), 'q' ); } ), file, line, fmt( "%d|%llu|%.17g|", i, u, d ) + a + "|q|100%", ab ); break;
      case 3: judge( "reporter, literal", observe( [&] { shivaAssertionFailed( file.c_str(), line, ab, "plain literal message" ); } ), file, line, "plain literal message", ab ); break;
      case 4: judge( "reporter, many", observe( [&] { shivaAssertionFailed( file.c_str(), line, ab, "%d %d %d %d %d %d %d %d %g %g %g %g %g %g %g %g %g %s", 1, 2, 3, i, 5, 6, 7, 8, .5, 1.5, 2.5, 3.5, 4.5, 5.5, 6.5, 7.5, d, a.c_str() ); } ), file, line, fmt( "1 2 3 %d 5 6 7 8 0.5 1.5 2.5 3.5 4.5 5.5 6.5 7.5 %g ", i, d ) + a, ab ); break;
      case 5: judge( "reporter, empty", observe( [&] { shivaAssertionFailed( file.c_str(), line, ab, "%s", "" ); } ), file, line, "", ab ); break;
      case 6: { std::string const m = a + "\nsecond line\n\nfourth"; judge( "reporter, several lines", observe( [&] { shivaAssertionFailed( file.c_str(), line, ab, "%s\nsecond line\n\nfourth", a.c_str() ); } ), file, line, m, ab ); break; }
      default: { std::string const w = fmt( "%*d,%-8s|%.3e|%p", 30, i, "ab", d, static_cast< void const * >( &file ) ); judge( "reporter, widths", observe( [&] { shivaAssertionFailed( file.c_str(), line, ab, "%*d,%-8s|%.3e|%p", 30, i, "ab", d, static_cast< void const * >( &file ) ); } ), file, line, w, ab ); }
    }
  }
}
static int g_line;
struct Effects { int cond = 0, args = 0; bool c( bool v ) { ++cond; return v; } int arg( int v ) { ++args; return v; } };
VH_CASE( "assertion" )
{
  Capture e( 2 ), o( 1 ); g_err = &e; g_out = &o;
  std::string const file = "c19.cpp";
  for ( int n = 0; n < 5000 * mon().scale; ++n )
  {
    at( fmt( "assertion %d", n ) );
    bool const fail = rng.coin(); Effects x; int const v = int( rng.next() ); std::string const a = "{" + randomText( rng, length( rng ) ) + "}";
    bool after = false; Seen s; std::string want;
    int const before = rng.below( 1000 ); errno = before;
    switch ( n % 7 )
    {
      case 0: s = observe( [&] { g_line = __LINE__; SHIVA_ASSERT_MSG( x.c( !fail ), "%s %d", a.c_str(), v ); after = true; } ); want = a + fmt( " %d", v ); break;
      case 1: s = observe( [&] { g_line = __LINE__; SHIVA_ASSERT_MSG( x.c( !fail ), "literal message only" ); after = true; } ); want = "literal message only"; break;
      case 2: s = observe( [&] { g_line = __LINE__; SHIVA_ASSERT_MSG( x.c( !fail ), "%d", x.arg( v ) ); after = true; } ); want = fmt( "%d", v ); break;
      case 3: s = observe( [&] { g_line = __LINE__; if ( v == v ) SHIVA_ASSERT_MSG( x.c( !fail ), "in an if %s", a.c_str() ); else { x.cond = 77; } after = true; } ); want = "in an if " + a; break;
      case 4: s = observe( [&] { g_line = __LINE__; for ( int k = 0; k < 1; ++k ) SHIVA_ASSERT_MSG( x.c( !fail ) && k == 0, "in a loop %s", a.c_str() ); after = true; } ); want = "in a loop " + a; break;
      case 5: s = observe( [&] { g_line = __LINE__; SHIVA_ASSERT_MSG( fail ? x.c( false ) : x.c( true ), "ternary condition %d%%", v ); after = true; } ); want = fmt( "ternary condition %d%%", v ); break;
      default: s = observe( [&] { g_line = __LINE__; SHIVA_ASSERT_MSG( x.c( !fail ) || false, "lazy or %s", a.c_str() ); after = true; } ); want = "lazy or " + a;
    }
    if ( x.cond != 1 ) { mon().fail( "condition", fmt( "the condition of assertion form %d was evaluated %d times", n % 7, x.cond ) ); }
    if ( fail )
    {
      judge( "assertion", s, file, g_line, want, true );
      if ( after ) { mon().fail( "abort/assertion", "execution went on after a failed assertion" ); }
      if ( n % 7 == 2 && x.args != 1 ) { mon().fail( "arguments", fmt( "the message argument was evaluated %d times", x.args ) ); }
    }
    else
    {
      mon().eval( mix( 0x9A55, uint64_t( n ) ), true ); mon().count( "assertions that hold" );
      if ( s.aborted || !after ) { mon().fail( "pass", "a passing assertion stopped the program" ); }
      if ( !s.err.empty() || !s.out.empty() ) { mon().fail( "pass", "a passing assertion wrote '" + show( s.err + s.out ) + "'" ); }
      if ( x.args ) { mon().fail( "pass", "a passing assertion evaluated its message arguments" ); }
    }
  }
#line 4711 "some dir/with 100%s and %n.hpp"
  { Seen const s = observe( [&] { SHIVA_ASSERT_MSG( g_line < 0, "hostile %s", "file name" ); } ); judge( "assertion, hostile file name", s, "some dir/with 100%s and %n.hpp", 4711, "hostile file name", true ); }
#line 3000000 "c19-b.hpp"
  { Seen const s = observe( [&] { SHIVA_ASSERT_MSG( g_line < 0, "large line" ); } ); judge( "assertion, large line", s, "c19-b.hpp", 3000000, "large line", true ); }
#line 1 "c19-c.hpp"
}
// real processes: the status seen by a parent
VH_CASE( "processes" )
{
  for ( int n = 0; n < 24; ++n )
  {
    int const kind = n % 4; int p[2]; if ( pipe( p ) ) { continue; }
    std::fflush( nullptr );
    pid_t const pid = fork();
    if ( pid == 0 )
    {
      dup2( p[1], 2 ); close( p[0] ); close( p[1] ); std::signal( SIGABRT, SIG_DFL );
      if ( kind == 0 ) { SHIVA_ASSERT_MSG( n < 0, "child %d", n ); }
      else if ( kind == 1 ) { SHIVA_ASSERT_MSG( n >= 0, "child %d", n ); }
      else { shivaAssertionFailed( "child.hpp", 42, kind == 2, "child %d", n ); }
      _exit( 33 );
    }
    close( p[1] ); std::string err; char b[512]; for ( ssize_t r; ( r = read( p[0], b, sizeof b ) ) > 0; ) { err.append( b, size_t( r ) ); } close( p[0] );
    int st = 0; waitpid( pid, &st, 0 );
    bool const ab = WIFSIGNALED( st ) && WTERMSIG( st ) == SIGABRT, ret = WIFEXITED( st ) && WEXITSTATUS( st ) == 33;
    mon().eval( mix( 0xC41D, uint64_t( n ) ), true ); mon().count( "child processes" );
    bool const due = kind == 0 || kind == 2;
    if ( due ? !ab : !ret ) { mon().fail( "process", fmt( "child of kind %d ended with status %x", kind, unsigned( st ) ) ); }
    if ( kind == 1 ? !err.empty() : err.find( fmt( "child %d", n ) ) == std::string::npos ) { mon().fail( "process", fmt( "child of kind %d wrote '%s'", kind, show( err ).c_str() ) ); }
  }
}
