// C05: compile-time loops and expansions call the body once per index, in order.
#include "ref.hpp"
#include "shiva/common/SequenceUtilities.hpp"
#include "shiva/common/NestedSequenceUtilities.hpp"
#include <memory>
#include <stdexcept>
using namespace vh;

using Log = std::vector< std::vector< int > >;
static Log want( std::vector< int > ends )
{
  Log l; long total = 1; for ( int e : ends ) { total *= e; }
  for ( long f = 0; f < total; ++f )
  {
    std::vector< int > t( ends.size() ); long q = f;
    for ( size_t k = ends.size(); k-- > 0; ) { t[k] = int( q % ends[k] ); q /= ends[k]; }
    l.push_back( t );
  }
  return l;
}
static void judge( std::string const & what, std::vector< int > const & ends, Log const & got )
{
  Log const w = want( ends );
  uint64_t h = strHash( what.c_str() ); for ( int e : ends ) { h = mix( h, uint64_t( e ) ); }
  mon().eval( h, w.size() > 1 ); mon().count( "calls observed", got.size() ); mon().count( "style: " + what );
  if ( got == w ) { return; }
  size_t k = 0; while ( k < got.size() && k < w.size() && got[k] == w[k] ) { ++k; }
  auto str = [] ( Log const & l, size_t i ) { if ( i >= l.size() ) { return std::string( "no call" ); } std::string s = "("; for ( int x : l[i] ) { s += std::to_string( x ) + " "; } return s + ")"; };
  std::string e; for ( int x : ends ) { e += std::to_string( x ) + " "; }
  mon().fail( "trace/" + what, fmt( "%s, ends %s: %zu calls instead of %zu; call %zu was %s instead of %s", what.c_str(), e.c_str(), got.size(), w.size(), k, str( got, k ).c_str(), str( w, k ).c_str() ) );
}
template< typename T > struct IsIC : std::false_type {};
template< int I > struct IsIC< std::integral_constant< int, I > > : std::true_type {};

// ---- callables
struct TmplBody { Log * l; template< int I > void operator()() { l->push_back( { I } ); } };
struct TmplConst { Log * l; template< int I > int operator()() const { l->push_back( { I } ); return I * I; } };
struct IntBody { Log * l; int own = 0; void operator()( int i ) { l->push_back( { i } ); ++own; } };
struct MoveOnly { Log * l; std::unique_ptr< int > p = std::make_unique< int >( 5 ); void operator()( int i ) { l->push_back( { i } ); if ( !p ) { l->push_back( { -999 } ); } } };
static Log * g_log;
static void freeBody( int i ) { g_log->push_back( { i } ); }
// a result with an overloaded comma operator
struct Odd { int v; friend Odd operator,( Odd a, Odd ) { return a; } };

template< int N > static constexpr long ctSum() { long s = 1; shiva::forSequence< N >( [&] ( auto i ) { s = ( s * 31 + decltype( i )::value ) % 1000003; } ); return s; }

template< int N > static void loops()
{
  at( fmt( "forSequence<%d>", N ) );
  std::vector< int > const e{ N };
  { Log l; shiva::forSequence< N >( [&] ( auto i ) { static_assert( IsIC< decltype( i ) >::value ); constexpr int c = decltype( i )::value; l.push_back( { c } ); } ); judge( "forSequence, integral constant", e, l ); }
  { Log l; shiva::forSequence< N >( [&] ( int i ) { l.push_back( { i } ); } ); judge( "forSequence, int", e, l ); }
  { Log l; shiva::forSequence< N >( [&] ( long const & i ) { l.push_back( { int( i ) } ); } ); judge( "forSequence, long const &", e, l ); }
  { Log l; auto f = [&, n = 0] ( auto i ) mutable { l.push_back( { n == int( i ) ? n : -1 } ); ++n; }; shiva::forSequence< N >( f ); judge( "forSequence, mutable lvalue lambda", e, l ); }
  { Log l; IntBody f{ &l }; shiva::forSequence< N >( f ); judge( "forSequence, stateful functor", e, l ); if ( f.own != N ) { mon().fail( "state", "forSequence called a copy of the caller's functor" ); } }
  { Log l; shiva::forSequence< N >( MoveOnly{ &l } ); judge( "forSequence, move-only functor", e, l ); }
  { Log l; MoveOnly f{ &l }; shiva::forSequence< N >( f ); judge( "forSequence, move-only lvalue", e, l ); }
  { Log l; g_log = &l; shiva::forSequence< N >( freeBody ); judge( "forSequence, function", e, l ); }
  { Log l; std::function< void( int ) > f = [&] ( int i ) { l.push_back( { i } ); }; shiva::forSequence< N >( f ); judge( "forSequence, std::function", e, l ); }
  { Log l; shiva::forSequence< N >( [&] ( auto i ) { l.push_back( { int( i ) } ); return Odd{ int( i ) }; } ); judge( "forSequence, result with a comma operator", e, l ); }
  { Log l; TmplBody f{ &l }; shiva::forSequence< N >( f ); judge( "forSequence, template argument", e, l ); }
  { Log l; TmplConst const f{ &l }; shiva::forSequence< N >( f ); judge( "forSequence, template argument, const functor", e, l ); }
  { Log l; shiva::forSequence< N >( TmplBody{ &l } ); judge( "forSequence, template argument, temporary", e, l ); }
#if __cplusplus >= 202002L
  { Log l; shiva::forSequence< N >( [&] < int I > () { l.push_back( { I } ); } ); judge( "forSequence, template lambda", e, l ); }
#endif
  { Log l; shiva::forNestedSequence< N >( [&] ( auto i ) { constexpr int c = decltype( i )::value; l.push_back( { c } ); } ); judge( "forNestedSequence, one level", e, l ); }
  constexpr long s = ctSum< N >();
  long w = 1; for ( int i = 0; i < N; ++i ) { w = ( w * 31 + i ) % 1000003; }
  mon().eval( uint64_t( 0x4444 + N ), N > 1 );
  if ( s != w ) { mon().fail( "constexpr", fmt( "forSequence<%d> in a constant expression saw other indices", N ) ); }
  // an exception of the body ends the loop
  if constexpr ( N > 1 )
  {
    int n = 0; bool caught = false;
    try { shiva::forSequence< N >( [&] ( auto ) { if ( ++n == ( N + 1 ) / 2 ) { throw std::runtime_error( "x" ); } } ); } catch ( std::runtime_error & ) { caught = true; }
    if ( !caught || n != ( N + 1 ) / 2 ) { mon().fail( "exception", fmt( "forSequence<%d>: exception of the body", N ) ); }
  }
}
template< int ... E > struct Ends {};
template< int ... E > static constexpr long ctNested() { long s = 7; shiva::forNestedSequence< E ... >( [&] ( auto ... i ) { ( ( s = ( s * 33 + decltype( i )::value ) % 1000003 ), ... ); } ); return s; }
struct NestedFunctor { Log * l; int own = 0; template< typename ... I > void operator()( I ... i ) { l->push_back( { int( i ) ... } ); ++own; } };
template< int ... E > static void nested()
{
  std::vector< int > const e{ E ... };
  std::string n; for ( int x : e ) { n += std::to_string( x ) + " "; }
  at( "forNestedSequence " + n );
  { Log l; shiva::forNestedSequence< E ... >( [&] ( auto ... i ) { static_assert( ( IsIC< decltype( i ) >::value && ... ) ); l.push_back( { decltype( i )::value ... } ); } ); judge( "forNestedSequence, integral constants", e, l ); }
  { Log l; auto f = [&, k = 0] ( auto ... i ) mutable { ++k; l.push_back( { int( i ) ... } ); }; shiva::forNestedSequence< E ... >( f ); judge( "forNestedSequence, lvalue", e, l ); }
  { Log l; shiva::forNestedSequence( std::integer_sequence< int, E ... >{}, [&] ( auto ... i ) { l.push_back( { decltype( i )::value ... } ); } ); judge( "forNestedSequence, integer_sequence", e, l ); }
  { Log l; NestedFunctor f{ &l }; shiva::forNestedSequence< E ... >( f ); judge( "forNestedSequence, stateful functor", e, l ); if ( f.own != int( l.size() ) ) { mon().fail( "state-nested", "forNestedSequence called a copy of the caller's functor" ); } }
  { Log l; shiva::forNestedSequence( std::integer_sequence< int, E ... >{}, NestedFunctor{ &l } ); judge( "forNestedSequence, temporary functor", e, l ); }
  if constexpr ( ( E * ... * 1 ) <= 64 )
  {
    constexpr long s = ctNested< E ... >();
    long w = 7; for ( auto & t : want( e ) ) { for ( int x : t ) { w = ( w * 33 + x ) % 1000003; } }
    mon().eval( mix( 0x5555, uint64_t( w ) ) );
    if ( s != w ) { mon().fail( "constexpr-nested", "forNestedSequence in a constant expression: ends " + n ); }
  }
  if ( mon().wantSample( std::to_string( sizeof...( E ) ) ) ) { mon().sample( fmt( "forNestedSequence<%s>: %zu calls", n.c_str(), want( e ).size() ) ); }
}
// nested loops inside each other and loops built by hand
template< int A, int B > static void mixed()
{
  Log l;
  shiva::forSequence< A >( [&] ( auto i ) { shiva::forSequence< B >( [&] ( auto j ) { l.push_back( { decltype( i )::value, decltype( j )::value } ); } ); } );
  judge( "forSequence inside forSequence", { A, B }, l );
  Log m;
  shiva::forSequence< A >( [&] ( auto i ) { shiva::executeSequence< B >( [&] ( auto ... j ) { ( m.push_back( { decltype( i )::value, decltype( j )::value } ), ... ); } ); } );
  judge( "executeSequence inside forSequence", { A, B }, m );
}

// ---- expansions
struct Tracked { int v; int * copies; int * moves; Tracked( int x, int * c, int * m ): v( x ), copies( c ), moves( m ) {} Tracked( Tracked const & o ): v( o.v ), copies( o.copies ), moves( o.moves ) { ++*copies; } Tracked( Tracked && o ): v( o.v ), copies( o.copies ), moves( o.moves ) { o.v = -1; ++*moves; } };
struct TmplExec
{
  int * calls;
  template< int ... I > double operator()( double const & a, double b, long const & c ) const { ++*calls; double r = ( a * 10 + b ) * 10 + double( c ); ( ( r = double( ( long( r ) * 7 + I ) % 1000003 ) ), ... ); return r; }
};
struct TmplExec0
{
  int * calls;
  template< int ... I > double operator()() const { ++*calls; double r = 0; ( ( r = double( ( long( r ) * 7 + I ) % 1000003 ) ), ... ); return r; }
};
struct TmplRef { int * calls; template< int ... I > int operator()( int & x, std::string const & s ) { ++*calls; x += 1; return int( s.size() ) * 1000 + ( I + ... + 0 ); } };
struct Overloads { int * c; template< typename ... I > int operator()( int &, I ... ) const { ++*c; return 1; } template< typename ... I > int operator()( int const &, I ... ) const { ++*c; return 2; } template< typename ... I > int operator()( int &&, I ... ) const { ++*c; return 3; } };
template< int N > static void expansions( Rng & g )
{
  at( fmt( "executeSequence<%d>", N ) );
  std::vector< int > seq; for ( int i = 0; i < N; ++i ) { seq.push_back( i ); }
  auto expect = [&] ( char const * what, bool ok, int calls ) { mon().eval( mix( strHash( what ), uint64_t( N ) ), N > 1 ); mon().count( std::string( "style: " ) + what ); if ( !ok || calls != 1 ) { mon().fail( std::string( "expansion/" ) + what, fmt( "executeSequence<%d>, %s: wrong arguments or result, %d calls", N, what, calls ) ); } };
  { int c = 0; std::vector< int > got; shiva::executeSequence< N >( [&] ( auto ... i ) { ++c; static_assert( ( IsIC< decltype( i ) >::value && ... && true ) ); got = { decltype( i )::value ... }; } ); expect( "indices only", got == seq, c ); }
  { int c = 0; double a = g.uni( -5, 5 ); auto r = shiva::executeSequence< N >( [&] ( double x, auto ... i ) { ++c; double s = x; ( ( s = s / 2 + i ), ... ); return s; }, a ); double w = a; for ( int i : seq ) { w = w / 2 + i; } expect( "one value, result", r == w && std::is_same_v< decltype( r ), double >, c ); }
  { int c = 0; int x = 4; std::string s = "abc"; auto r = shiva::executeSequence< N >( [&] ( int & y, std::string const & t, auto ... i ) { ++c; y += 3; return std::make_pair( &y, t + std::to_string( int( ( i + ... + 0 ) ) ) ); }, x, s ); expect( "references", x == 7 && r.first == &x && r.second == "abc" + std::to_string( N * ( N - 1 ) / 2 ), c ); }
  { int c = 0; auto p = std::make_unique< int >( 9 ); auto r = shiva::executeSequence< N >( [&] ( std::unique_ptr< int > q, auto ... i ) { ++c; *q += int( sizeof...( i ) ); return q; }, std::move( p ) ); expect( "move-only argument and result", !p && r && *r == 9 + N, c ); }
  { int c = 0, cp = 0, mv = 0; Tracked t( 5, &cp, &mv ); int v = shiva::executeSequence< N >( [&] ( Tracked & u, auto ... ) { ++c; int o = u.v; u.v = 6; return o; }, t ); expect( "lvalue is not copied", v == 5 && t.v == 6 && cp == 0 && mv == 0, c ); }
  { int c = 0, cp = 0, mv = 0; Tracked t( 5, &cp, &mv ); int v = shiva::executeSequence< N >( [&] ( Tracked && u, auto ... ) { ++c; return u.v; }, std::move( t ) ); expect( "rvalue is not copied", v == 5 && cp == 0 && mv == 0, c ); }
  { int c = 0; double const a = 2, b = 3; long const d = 4; double r = shiva::executeSequence< N >( TmplExec{ &c }, a, b, d ); double w = 234; for ( int i : seq ) { w = double( ( long( w ) * 7 + i ) % 1000003 ); } expect( "template arguments, several values", r == w, c ); }
  { int c = 0; double r = shiva::executeSequence< N >( TmplExec0{ &c } ); double w = 0; for ( int i : seq ) { w = double( ( long( w ) * 7 + i ) % 1000003 ); } expect( "template arguments only", r == w, c ); }
  { int c = 0; int x = 1; TmplRef f{ &c }; int r = shiva::executeSequence< N >( f, x, std::string( "ab" ) ); expect( "template arguments, references", x == 2 && r == 2000 + N * ( N - 1 ) / 2, c ); }
  { int c = 0; auto f = [&c, k = 0] ( auto ... i ) mutable { ++k; c += k; return int( sizeof...( i ) ); }; int r = shiva::executeSequence< N >( f ); expect( "mutable lvalue", r == N, c ); r = shiva::executeSequence< N >( f ); expect( "mutable lvalue keeps its state", r == N && c == 3, c - 2 ); }
  { int c = 0; int arr[3] = { 1, 2, 3 }; int r = shiva::executeSequence< N >( [&] ( int (&a)[3], auto ... i ) { ++c; return a[2] * 10 + int( sizeof...( i ) ); }, arr ); expect( "array argument", r == 30 + N, c ); }
  { int c = 0; int r = shiva::executeSequence< N >( [&] ( auto ... all ) { ++c; int s = 0; ( ( s = ( s * 5 + int( all ) ) % 10007 ), ... ); return s; }, 11, std::integral_constant< int, 3 >{}, 'b' ); int w = ( ( 11 * 5 + 3 ) * 5 + 'b' ) % 10007; for ( int i : seq ) { w = ( w * 5 + i ) % 10007; } expect( "generic arguments", r == w, c ); }
#if __cplusplus >= 202002L
  { int c = 0; double r = shiva::executeSequence< N >( [&] < int ... I > ( double x, int * q ) { ++c; *q = N; return x + ( I + ... + 0 ); }, 0.5, &c + 0 ); (void)r; int d = 0; double s = shiva::executeSequence< N >( [&] < int ... I > ( double x ) { ++d; return x + ( I + ... + 0 ); }, 0.5 ); expect( "template lambda", s == 0.5 + N * ( N - 1 ) / 2, d ); }
#endif
  { // overloads see the constness and value category of the arguments
    int c = 0, x = 1; int const y = 2; Overloads f{ &c };
    int const r = shiva::executeSequence< N >( f, x ) * 1000 + shiva::executeSequence< N >( f, y ) * 100 + shiva::executeSequence< N >( f, 3 ) * 10 + shiva::executeSequence< N >( f, std::move( x ) );
    expect( "constness and value category of the argument", r == 1233, c - 3 );
  }
  constexpr long ct = shiva::executeSequence< N >( [] ( long a, auto ... i ) { long s = a; ( ( s = ( s * 3 + decltype( i )::value ) % 1000003 ), ... ); return s; }, 5L );
  long cw = 5; for ( int i : seq ) { cw = ( cw * 3 + i ) % 1000003; }
  if ( ct != cw ) { mon().fail( "constexpr-expansion", fmt( "executeSequence<%d> in a constant expression", N ) ); }
}
template< int ... E > static void listNested( Ends< E ... > ) { nested< E ... >(); }
#include GEN
#if VH_PART == 0
VH_CASE( "loops" ) { loops< 0 >(); loops< 1 >(); loops< 2 >(); loops< 3 >(); loops< 4 >(); loops< 7 >(); loops< 16 >(); loops< 33 >(); loops< GEN_LOOP >(); mixed< 3, 4 >(); mixed< 5, 2 >(); mixed< 1, 1 >(); mixed< 2, 0 >(); }
#elif VH_PART == 3
VH_CASE( "long loops" ) { loops< 130 >(); loops< 250 >(); expansions< 100 >( rng ); expansions< 250 >( rng ); nested< 70, 2 >(); nested< 2, 130 >(); nested< 4, 4, 4, 4 >(); nested< 2, 2, 2, 2, 2, 2 >(); }
#elif VH_PART == 1
VH_CASE( "nested" )
{
  nested< 1 >(); nested< 4 >(); nested< 0 >(); nested< 2, 3 >(); nested< 3, 2 >(); nested< 5, 1 >(); nested< 1, 5 >(); nested< 3, 0 >(); nested< 0, 3 >(); nested< 2, 3, 4 >(); nested< 4, 3, 2 >(); nested< 2, 0, 2 >();
  nested< 1, 2, 1, 3 >(); nested< 3, 2, 2, 2 >(); nested< 2, 1, 2, 1, 3 >();
}
VH_CASE( "nested, generated" ) { generated(); }
// picking the i-th of a pack of integers
template< int ... V, int ... I > static void picks( std::integer_sequence< int, I ... > )
{
  constexpr int all[] = { V ... };
  constexpr int ct[] = { shiva::IntPackPeeler< I, V ... >::value() ... };
  int const rt[] = { shiva::IntPackPeeler< I, V ... >::value() ... };
  for ( size_t k = 0; k < sizeof...( V ); ++k )
  {
    mon().eval( mix( 0x9eec, k * 64 + sizeof...( V ) ), sizeof...( V ) > 1 );
    if ( ct[k] != all[k] || rt[k] != all[k] ) { mon().fail( "pick", fmt( "integer %d of a pack of %d is given as %d, expected %d", int( k ), int( sizeof...( V ) ), rt[k], all[k] ) ); }
  }
}
template< int ... V > static void pick() { picks< V ... >( std::make_integer_sequence< int, sizeof...( V ) >{} ); }
VH_CASE( "pick" ) { pick< 5 >(); pick< 5, 7 >(); pick< -1, 0, 1 >(); pick< 3, 3, 2, 3 >(); pick< 8, 6, 7, 5, 3, 0, 9 >(); pick< -2147483647 - 1, 2147483647, 0, 40000, -40000, 130, 257, 65536, 1 >(); }
#elif VH_PART == 2
VH_CASE( "expansions" ) { for ( int k = 0; k < mon().scale; ++k ) { expansions< 0 >( rng ); expansions< 1 >( rng ); expansions< 2 >( rng ); expansions< 3 >( rng ); expansions< 4 >( rng ); expansions< 7 >( rng ); expansions< 12 >( rng ); expansions< 40 >( rng ); expansions< GEN_LOOP >( rng ); } }
#endif
