#include "vh.hpp"
#include <csignal>
#include <unistd.h>

extern "C" void __sanitizer_set_death_callback( void (*)( void ) ) __attribute__(( weak ));

namespace vh
{
Monitor & mon() { static Monitor m; return m; }
struct CaseT { std::string name; std::function< void( Rng & ) > f; };
static std::vector< CaseT > & cases() { static std::vector< CaseT > c; return c; }
Registrar::Registrar( char const * name, std::function< void( Rng & ) > f ) { cases().push_back( { name, std::move( f ) } ); }

static char g_at[4096] = "(start)";
static char const * g_case = "";
static int g_err = 2;   // the original error stream (cases may redirect descriptor 2)
void at( std::string const & w ) { std::snprintf( g_at, sizeof g_at, "%s", w.c_str() ); }
static void sayWhere()
{
  char b[4400];
  int n = std::snprintf( b, sizeof b, "\nVH-AT: case=%s at=%s\n", g_case, g_at );
  if ( n > 0 ) { ssize_t r = write( g_err, b, size_t( n ) ); (void)r; }
}
static void onSignal( int sig )
{
  sayWhere();
  std::signal( sig, SIG_DFL );
  raise( sig );
}
static std::string esc( std::string const & s )
{
  std::string o;
  for ( unsigned char c : s )
  {
    if ( c == '"' || c == '\\' ) { o += '\\'; o += char( c ); }
    else if ( c < 32 || c > 126 ) { char b[8]; std::snprintf( b, sizeof b, "\\u%04x", unsigned( c ) ); o += b; }
    else { o += char( c ); }
  }
  return o;
}
static void writeResult( char const * path )
{
  FILE * f = std::fopen( path, "w" );
  if ( !f ) { return; }
  Monitor & m = mon();
  std::fprintf( f, "{\"property\":\"%s\",\"seed\":%llu,\"evaluations\":%llu,\"distinct\":%llu,\"distinct_not_stored\":%llu,\"violation_count\":%llu,\n\"counters\":{",
                m.property.c_str(), (unsigned long long)m.seed, (unsigned long long)m.evaluations, (unsigned long long)m.distinct.size(),
                (unsigned long long)m.distinctOverflow, (unsigned long long)m.violationCount );
  bool first = true;
  for ( auto & c : m.counters )
  {
    if ( c.first.rfind( "samples.", 0 ) == 0 ) { continue; }
    std::fprintf( f, "%s\"%s\":%llu", first ? "" : ",", esc( c.first ).c_str(), (unsigned long long)c.second ); first = false;
  }
  std::fprintf( f, "},\n\"samples\":[" );
  first = true;
  for ( auto & s : m.samples ) { std::fprintf( f, "%s\"%s\"", first ? "" : ",", esc( s ).c_str() ); first = false; }
  std::fprintf( f, "],\n\"violations\":[" );
  first = true;
  for ( auto & v : m.violations ) { std::fprintf( f, "%s{\"key\":\"%s\",\"detail\":\"%s\"}", first ? "" : ",\n", esc( v.key ).c_str(), esc( v.detail ).c_str() ); first = false; }
  std::fprintf( f, "],\n\"complete\":true}\n" );
  std::fclose( f );
}
}

int main( int argc, char ** argv )
{
  using namespace vh;
  char const * out = nullptr;
  std::string only;
  for ( int i = 1; i < argc; ++i )
  {
    std::string a = argv[i];
    if ( a == "--seed" ) { mon().seed = std::strtoull( argv[++i], nullptr, 10 ); }
    else if ( a == "--scale" ) { mon().scale = std::atoi( argv[++i] ); }
    else if ( a == "--thorough" ) { mon().thorough = true; }
    else if ( a == "--property" ) { mon().property = argv[++i]; }
    else if ( a == "--out" ) { out = argv[++i]; }
    else if ( a == "--only" ) { only = argv[++i]; }
    else { std::fprintf( stderr, "unknown argument %s\n", a.c_str() ); return 64; }
  }
  g_err = dup( 2 );
  if ( __sanitizer_set_death_callback ) { __sanitizer_set_death_callback( sayWhere ); }
  for ( int s : { SIGABRT, SIGILL, SIGFPE } ) { std::signal( s, onSignal ); }
  if ( !__sanitizer_set_death_callback ) { for ( int s : { SIGSEGV, SIGBUS } ) { std::signal( s, onSignal ); } }
  for ( auto & c : cases() )
  {
    if ( !only.empty() && c.name.find( only ) == std::string::npos ) { continue; }
    g_case = c.name.c_str();
    at( "(begin)" );
    Rng r( mon().seed * 1000003ull ^ strHash( c.name.c_str() ) );
    c.f( r );
    mon().count( "cases_run" );
  }
  if ( out ) { writeResult( out ); }
  for ( auto & v : mon().violations ) { std::fprintf( stderr, "monitor: %s: %s\n", v.key.c_str(), v.detail.c_str() ); }
  return mon().violationCount ? 1 : 0;
}
