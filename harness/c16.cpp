// C16: 3x3 inversion, plain-array and library-array forms.
#include "ref.hpp"
#include "shiva/common/MathUtilities.hpp"
#include "shiva/common/CArray.hpp"
using namespace vh;
namespace mu = shiva::mathUtilities;

template< typename R > static void makeMatrix( Rng & g, R (&m)[3][3], std::string & kind )
{
  static char const * const names[] = { "random", "diagonal", "permutation", "triangular", "rotation-like", "integer", "sparse", "scaled rows and columns", "zero pivots", "reflection" };
  int const k = g.below( 10 ); kind = names[k];
  double a[3][3];
  int p[3] = { 0, 1, 2 };
  for ( int i = 2; i > 0; --i ) { std::swap( p[i], p[g.below( i + 1 )] ); }
  for ( int i = 0; i < 3; ++i ) { for ( int j = 0; j < 3; ++j ) { a[i][j] = g.uni( -1, 1 ); } }
  double const s = std::is_same_v< R, float > ? g.logUni( 1e-6, 1e6 ) : g.logUni( 1e-50, 1e50 );
  bool const up = g.coin();
  double const th = g.uni( 0, 6.3 ), c = std::cos( th ), sn = std::sin( th );
  double const rot[3][3] = { { c, -sn, 0 }, { sn, c, 0 }, { 0, 0, 1 } };
  double rs[3], cs[3];
  for ( int i = 0; i < 3; ++i ) { double const r = std::is_same_v< R, float > ? 1e3 : 1e20; rs[i] = g.logUni( 1 / r, r ); cs[i] = g.logUni( 1 / r, r ); }
  for ( int i = 0; i < 3; ++i )
  {
    for ( int j = 0; j < 3; ++j )
    {
      double v = a[i][j];
      switch ( k )
      {
        case 1: v = i == j ? v + g.sgn() * 1.5 : 0; break;
        case 2: v = j == p[i] ? g.sgn() * g.uni( .5, 2 ) : 0; break;
        case 3: v = ( up ? i > j : i < j ) ? 0 : i == j ? v + g.sgn() * 1.5 : v; break;
        case 4: v = rot[p[i]][j]; break;
        case 5: v = g.between( -9, 9 ); break;
        case 6: v = g.below( 2 ) ? v : 0; break;
        case 7: v = ( i == j ? v + 1.5 : v ) * rs[i] * cs[j]; break;
        case 8: v = i == j ? 0 : v + g.sgn(); break;
        case 9: v = ( i == j ? ( i == p[0] ? -1 : 1 ) : 0 ) + .1 * v; break;
        default: break;
      }
      m[i][j] = R( k == 7 || k == 5 ? v : v * s );
    }
  }
}
template< typename M > struct Access { M & m; auto & at( int i, int j ) { return m( i, j ); } };

template< typename R > static void one( Rng & g )
{
  std::string const rn = RealName< R >::get();
  Q const eps = unitRoundoff< R >();
  for ( int n = 0; n < 20000 * mon().scale; ++n )
  {
    R m[3][3]; std::string kind; makeMatrix( g, m, kind );
    Q q[3][3]; for ( int i = 0; i < 3; ++i ) { for ( int j = 0; j < 3; ++j ) { q[i][j] = m[i][j] = launder( m[i][j] ); } }
    Q inv[3][3], b[3][3], det, perm; ref::inverse3( q, inv, b, det, perm );
    Q const detTol = 16 * eps * perm;
    if ( !( qabs( det ) > 1000 * detTol ) ) { mon().count( "singular or nearly so: skipped" ); continue; }
    uint64_t h = strHash( rn.c_str() ); for ( auto & r : m ) { for ( R v : r ) { h = mix( h, bitsOf( v ) ); } }
    auto desc = [&] { std::string s; for ( auto & r : q ) { s += "["; for ( Q v : r ) { s += fmt( "%.17g ", qd( v ) ); } s += "]"; } return rn + " " + kind + " " + s; };
    bool ok = true;
    auto judge = [&] ( auto const & get, R d, char const * form )
    {
      mon().eval( mix( h, strHash( form ) ), kind != "diagonal" );
      if ( !( qabs( Q( d ) - det ) <= detTol ) ) { ok = false; mon().fail( std::string( "determinant/" ) + form, fmt( "%s: determinant %.17g instead of %.17g for %s", form, double( d ), qd( det ), desc().c_str() ) ); return; }
      for ( int i = 0; i < 3; ++i )
      {
        for ( int j = 0; j < 3; ++j )
        {
          if ( !( qabs( Q( get( i, j ) ) - inv[i][j] ) <= 32 * eps * b[i][j] ) ) { ok = false; mon().fail( std::string( "inverse/" ) + form, fmt( "%s: inverse(%d,%d) = %.17g instead of %.17g for %s", form, i, j, double( get( i, j ) ), qd( inv[i][j] ), desc().c_str() ) ); return; }
        }
      }
    };
    R const junk = n % 2 ? R( 7 ) : std::numeric_limits< R >::quiet_NaN();
    R a[3][3]; std::memcpy( a, m, sizeof m ); R d = junk;
    mu::inverse( a, d ); judge( [&] ( int i, int j ) { return a[i][j]; }, d, "plain array" );
    shiva::CArrayNd< R, 3, 3 > c; for ( int i = 0; i < 9; ++i ) { c.data()[i] = m[i / 3][i % 3]; }
    R dc = junk; mu::inverse( c, dc ); judge( [&] ( int i, int j ) { return c( i, j ); }, dc, "library array" );
    R store[3 * 9 + 2]; for ( R & v : store ) { v = R( 12345 ); }
    R ( &mid )[9] = *reinterpret_cast< R ( * )[9] >( store + 10 );
    for ( int i = 0; i < 9; ++i ) { mid[i] = m[i / 3][i % 3]; }
    shiva::CArrayViewNd< R, 3, 3 > v( mid );
    R dv = junk; mu::inverse( v, dv ); judge( [&] ( int i, int j ) { return mid[i * 3 + j]; }, dv, "view" );
    for ( int i = 0; i < 29; ++i ) { if ( ( i < 10 || i >= 19 ) && store[i] != R( 12345 ) ) { mon().fail( "outside/view", fmt( "inverting a view changed memory outside it, offset %d, for %s", i - 10, desc().c_str() ) ); } }
    shiva::CArrayNd< R, 3, 3, 3 > big; for ( int i = 0; i < 27; ++i ) { big.data()[i] = R( 4321 ); }
    { auto sl = big[1]; for ( int i = 0; i < 3; ++i ) { for ( int j = 0; j < 3; ++j ) { sl( i, j ) = m[i][j]; } } R ds = junk; mu::inverse( sl, ds ); judge( [&] ( int i, int j ) { return big( 1, i, j ); }, ds, "slice" ); }
    for ( int i = 0; i < 27; ++i ) { if ( i / 9 != 1 && big.data()[i] != R( 4321 ) ) { mon().fail( "outside/slice", "inverting a slice changed another slice, for " + desc() ); } }
    mon().count( kind );
    // inverting twice
    if ( ok )
    {
      Q iq[3][3]; for ( int i = 0; i < 3; ++i ) { for ( int j = 0; j < 3; ++j ) { iq[i][j] = a[i][j]; } }
      Q back[3][3], bb[3][3], bdet, bperm; ref::inverse3( iq, back, bb, bdet, bperm );
      if ( qabs( bdet ) > 1000 * 16 * eps * bperm )
      {
        Q tol[3][3], w[3][3]; Q big2 = 0;
        for ( int i = 0; i < 3; ++i ) { for ( int j = 0; j < 3; ++j ) { w[i][j] = 0; for ( int k = 0; k < 3; ++k ) { w[i][j] += 32 * eps * b[i][k] * qabs( q[k][j] ); } if ( w[i][j] > big2 ) { big2 = w[i][j]; } } }
        for ( int i = 0; i < 3; ++i ) { for ( int j = 0; j < 3; ++j ) { tol[i][j] = 32 * eps * bb[i][j]; for ( int k = 0; k < 3; ++k ) { tol[i][j] += 2 * qabs( q[i][k] ) * w[k][j]; } } }
        if ( big2 < Q( 0.05 ) )
        {
          R d2 = junk; mu::inverse( a, d2 ); mon().eval( mix( h, 0x2 ), kind != "diagonal" ); mon().count( "inverted twice" );
          for ( int i = 0; i < 3; ++i ) { for ( int j = 0; j < 3; ++j ) { if ( !( qabs( Q( a[i][j] ) - q[i][j] ) <= tol[i][j] ) ) { mon().fail( "twice/plain array", fmt( "inverting twice gives %.17g at (%d,%d) for %s", double( a[i][j] ), i, j, desc().c_str() ) ); i = j = 3; } } }
          if ( n > 5 && mon().wantSample( rn + kind ) ) { mon().sample( fmt( "%s: det %.17g (reference %.17g), twice inverted (0,0) %.17g", desc().c_str(), double( d ), qd( det ), double( a[0][0] ) ) ); }
        }
      }
    }
  }
}
VH_CASE( "double" ) { one< double >( rng ); }
VH_CASE( "float" ) { one< float >( rng ); }
VH_CASE( "long double" ) { one< long double >( rng ); }
