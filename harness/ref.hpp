// Reference mathematics in 113-bit arithmetic. Nothing in here includes Shiva.
#pragma once
#include "vh.hpp"

namespace ref
{
using vh::Q;
using vh::qabs;

enum class Family { Equal, Legendre, Lobatto };
inline char const * familyName( Family f ) { return f == Family::Equal ? "Equal" : f == Family::Legendre ? "GaussLegendre" : "GaussLobatto"; }

// Legendre polynomial P_n and its derivative
inline void legendre( int n, Q x, Q & p, Q & dp )
{
  Q p0 = 1, p1 = x, d0 = 0, d1 = 1;
  if ( n == 0 ) { p = 1; dp = 0; return; }
  for ( int k = 2; k <= n; ++k )
  {
    Q const p2 = ( ( 2 * k - 1 ) * x * p1 - ( k - 1 ) * p0 ) / k;
    Q const d2 = d0 + ( 2 * k - 1 ) * p1;
    p0 = p1; p1 = p2; d0 = d1; d1 = d2;
  }
  p = p1; dp = d1;
}

// True node sets in ascending order.
inline std::vector< Q > trueNodes( Family f, int n )
{
  std::vector< Q > x( static_cast< size_t >( n ) );
  double const pi = 3.14159265358979323846;
  for ( int i = 0; i < n; ++i )
  {
    Q v = 0;
    if ( f == Family::Equal ) { v = -1 + Q( 2 * i ) / Q( n - 1 ); }
    else if ( f == Family::Legendre )
    {
      v = -std::cos( pi * ( i + 0.75 ) / ( n + 0.5 ) );
      for ( int it = 0; it < 60; ++it ) { Q p, d; legendre( n, v, p, d ); v -= p / d; }
    }
    else
    {
      if ( i == 0 ) { v = -1; }
      else if ( i == n - 1 ) { v = 1; }
      else
      {
        v = -std::cos( pi * i / ( n - 1 ) );   // roots of P'_{n-1}; P'' from the Legendre equation
        for ( int it = 0; it < 60; ++it )
        {
          Q p, d; legendre( n - 1, v, p, d );
          Q const dd = ( 2 * v * d - Q( n - 1 ) * n * p ) / ( 1 - v * v );
          v -= d / dd;
        }
      }
    }
    x[size_t( i )] = v;
  }
  return x;
}
inline std::vector< Q > trueWeights( Family f, int n )
{
  std::vector< Q > w, x = trueNodes( f, n );
  for ( Q v : x )
  {
    Q p, d;
    if ( f == Family::Legendre ) { legendre( n, v, p, d ); w.push_back( Q( 2 ) / ( ( 1 - v * v ) * d * d ) ); }
    else { legendre( n - 1, v, p, d ); w.push_back( Q( 2 ) / ( Q( n ) * ( n - 1 ) * p * p ) ); }
  }
  return w;
}

// Value and derivative of Lagrange polynomial i on the given nodes together with
// the magnitudes (vb, gb) that bound the rounding error of any reasonable
// evaluation: |error| <= C * eps * bound.
struct Lag { Q v = 1, vb = 1, g = 0, gb = 0; };
inline Lag lagrange( std::vector< Q > const & x, int i, Q c )
{
  Lag r;
  int const n = int( x.size() );
  for ( int k = 0; k < n; ++k )
  {
    if ( k == i ) { continue; }
    Q const d = x[size_t( i )] - x[size_t( k )];
    r.v *= ( c - x[size_t( k )] ) / d;
    r.vb *= ( qabs( c ) + qabs( x[size_t( k )] ) ) / qabs( d );
  }
  for ( int a = 0; a < n; ++a )
  {
    if ( a == i ) { continue; }
    Q t = 1 / ( x[size_t( i )] - x[size_t( a )] ), tb = qabs( t );
    for ( int k = 0; k < n; ++k )
    {
      if ( k == i || k == a ) { continue; }
      Q const d = x[size_t( i )] - x[size_t( k )];
      t *= ( c - x[size_t( k )] ) / d;
      tb *= ( qabs( c ) + qabs( x[size_t( k )] ) ) / qabs( d );
    }
    r.g += t; r.gb += tb;
  }
  return r;
}

inline Q det3( Q const (&m)[3][3] )
{
  return m[0][0] * ( m[1][1] * m[2][2] - m[1][2] * m[2][1] )
         - m[0][1] * ( m[1][0] * m[2][2] - m[1][2] * m[2][0] )
         + m[0][2] * ( m[1][0] * m[2][1] - m[1][1] * m[2][0] );
}
// permanent of |m|: magnitude of the terms of the determinant
inline Q perm3( Q const (&m)[3][3] )
{
  auto a = [&] ( int i, int j ) { return qabs( m[i][j] ); };
  return a( 0, 0 ) * ( a( 1, 1 ) * a( 2, 2 ) + a( 1, 2 ) * a( 2, 1 ) )
         + a( 0, 1 ) * ( a( 1, 0 ) * a( 2, 2 ) + a( 1, 2 ) * a( 2, 0 ) )
         + a( 0, 2 ) * ( a( 1, 0 ) * a( 2, 1 ) + a( 1, 1 ) * a( 2, 0 ) );
}
// inverse and, per entry, the magnitude that bounds the rounding error of Cramer's rule
inline void inverse3( Q const (&m)[3][3], Q (&inv)[3][3], Q (&bound)[3][3], Q & det, Q & perm )
{
  det = det3( m ); perm = perm3( m );
  for ( int i = 0; i < 3; ++i )
  {
    for ( int j = 0; j < 3; ++j )
    {
      int const r0 = ( j + 1 ) % 3, r1 = ( j + 2 ) % 3, c0 = ( i + 1 ) % 3, c1 = ( i + 2 ) % 3;
      Q const t0 = m[r0][c0] * m[r1][c1], t1 = m[r0][c1] * m[r1][c0];
      inv[i][j] = ( t0 - t1 ) / det;
      bound[i][j] = ( qabs( t0 ) + qabs( t1 ) ) / qabs( det ) + qabs( ( t0 - t1 ) / det ) * ( perm / qabs( det ) );
    }
  }
}

// compile-time flat index -> digit of a mixed-radix number, last digit fastest
template< int ... N > constexpr int digit( int flat, int d )
{
  constexpr int n[] = { N ... };
  for ( int k = int( sizeof...( N ) ) - 1; k > d; --k ) { flat /= n[k]; }
  return flat % n[d];
}

} // namespace ref
