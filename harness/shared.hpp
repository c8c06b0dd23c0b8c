// Long-lived library objects that several threads (C22) or a long history (C23) read through
// const references while evaluating. Raw storage only: works under every sanitizer.
#pragma once
#include "workload.hpp"

namespace wl
{
template< typename R > using ShHex = El< R, LO< R, 1 >, LO< R, 1 >, LO< R, 1 > >;
template< typename R > using ShMix = El< R, EQ< R, 2 >, LO< R, 1 >, LE< R, 2 > >;
template< typename R > using ShFlat = El< R, LO< R, 3 >, EQ< R, 2 > >;

template< typename R > struct Objects
{
  shiva::CArrayNd< R, 3, 4 > a2; shiva::CArrayNd< int, 2, 3, 4 > a3; shiva::CArrayNd< R, 3, 3 > m;
  R buffer[24];
  typename ShHex< R >::Field f1; typename ShMix< R >::Field f2; typename ShFlat< R >::Field f3;
  typename ShHex< R >::Cell c1; typename ShMix< R >::Cell c2; typename ShFlat< R >::Cell c3;
  sg::Scaling< R > s; sg::UniformScaling< R > u;
  shiva::MultiIndexRange< int, 3, 4, 2 > i1; shiva::MultiIndexRange< unsigned, 5, 2 > i2;
  R p3[4][3], p2[4][2];
  shiva::CArrayNd< R, 3 > q3; shiva::CArrayNd< R, 2 > q2;

  // Everything, or (what >= 0) one part, is given new values.
  void fill( G & g, int what = -1 )
  {
    auto reals = [&] ( R * x, int n, double lo, double hi ) { for ( int k = 0; k < n; ++k ) { x[k] = R( g.uni( lo, hi ) ); } };
    auto on = [&] ( int w ) { return what < 0 || what == w; };
    if ( on( 0 ) ) { reals( a2.data(), 12, -9, 9 ); for ( int k = 0; k < 24; ++k ) { a3.data()[k] = g.below( 1000 ); } }
    if ( on( 1 ) ) { reals( m.data(), 9, -.4, .4 ); for ( int k = 0; k < 3; ++k ) { m( k, k ) = m( k, k ) + 2; } }
    if ( on( 2 ) ) { reals( buffer, 24, -9, 9 ); }
    if ( on( 3 ) ) { reals( f1.data(), 8, -3, 3 ); }
    if ( on( 4 ) ) { reals( f2.data(), 18, -3, 3 ); reals( f3.data(), 12, -3, 3 ); }
    if ( on( 5 ) ) { CellData< ShHex< R >, 3 >::fill( g, c1.getData().data() ); }
    if ( on( 6 ) ) { CellData< ShMix< R >, 3 >::fill( g, c2.getData().data() ); }
    if ( on( 7 ) ) { CellData< ShFlat< R >, 2 >::fill( g, c3.getData().data() ); }
    if ( on( 8 ) ) { R h[3]; reals( h, 3, .2, 4 ); s.setData( h ); u.setData( R( g.uni( .2, 4 ) ) ); }
    if ( on( 9 ) ) { for ( int k = 0; k < 3; ++k ) { i1.data[k] = g.below( i1.range( k ) ); } for ( int k = 0; k < 2; ++k ) { i2.data[k] = unsigned( g.below( i2.range( k ) ) ); } }
    if ( on( 10 ) ) { reals( &p3[0][0], 12, -1, 1 ); reals( &p2[0][0], 8, -1, 1 ); reals( q3.data(), 3, -1, 1 ); reals( q2.data(), 2, -1, 1 ); p3[3][1] = 0; p2[2][0] = -1; }
  }
  static constexpr int PARTS = 11, KINDS = 20;
  // A copy of every input the evaluations read, to see whether they are left alone.
  struct Image { R r[12 + 9 + 24 + 8 + 18 + 12 + 24 + 54 + 24 + 4 + 12 + 8 + 5]; int i[24 + 5]; };
  void image( Image & im ) const
  {
    int n = 0, k = 0;
    auto put = [&] ( R const * x, int c ) { for ( int j = 0; j < c; ++j ) { im.r[n++] = x[j]; } };
    put( a2.data(), 12 ); put( m.data(), 9 ); put( buffer, 24 ); put( f1.data(), 8 ); put( f2.data(), 18 ); put( f3.data(), 12 ); put( c1.getData().data(), 24 ); put( c2.getData().data(), 54 ); put( c3.getData().data(), 24 );
    R const uu = u.getData(); put( s.getData(), 3 ); put( &uu, 1 ); put( &p3[0][0], 12 ); put( &p2[0][0], 8 ); put( q3.data(), 3 ); put( q2.data(), 2 );
    for ( int j = 0; j < 24; ++j ) { im.i[k++] = a3.data()[j]; } for ( int j = 0; j < 3; ++j ) { im.i[k++] = i1.data[j]; } for ( int j = 0; j < 2; ++j ) { im.i[k++] = int( i2.data[j] ); }
  }
  void restore( Image const & im )
  {
    int n = 0, k = 0;
    auto get = [&] ( R * x, int c ) { for ( int j = 0; j < c; ++j ) { x[j] = im.r[n++]; } };
    get( a2.data(), 12 ); get( m.data(), 9 ); get( buffer, 24 ); get( f1.data(), 8 ); get( f2.data(), 18 ); get( f3.data(), 12 ); get( c1.getData().data(), 24 ); get( c2.getData().data(), 54 ); get( c3.getData().data(), 24 );
    R h[4]; get( h, 4 ); R const h3[3] = { h[0], h[1], h[2] }; s.setData( h3 ); u.setData( h[3] ); get( &p3[0][0], 12 ); get( &p2[0][0], 8 ); get( q3.data(), 3 ); get( q2.data(), 2 );
    for ( int j = 0; j < 24; ++j ) { a3.data()[j] = im.i[k++]; } for ( int j = 0; j < 3; ++j ) { i1.data[j] = im.i[k++]; } for ( int j = 0; j < 2; ++j ) { i2.data[j] = unsigned( im.i[k++] ); }
  }
  static bool same( Image const & a, Image const & b )
  {
    for ( unsigned k = 0; k < sizeof( a.r ) / sizeof( R ); ++k ) { if ( std::memcmp( &a.r[k], &b.r[k], sizeof( R ) == 16 ? 10 : sizeof( R ) ) != 0 ) { return false; } }
    for ( unsigned k = 0; k < sizeof( a.i ) / sizeof( int ); ++k ) { if ( a.i[k] != b.i[k] ) { return false; } }
    return true;
  }

  // Evaluation number kind; k1, k2 choose points or indices.
  void run( int kind, int k1, int k2, Out & o ) const;
};
template< typename R > void runLow( Objects< R > const &, int kind, int k1, int k2, Out & o );    // shared.cpp, in parts
template< typename R > void runMiddle( Objects< R > const &, int kind, int k1, int k2, Out & o );
template< typename R > void runHigh( Objects< R > const &, int kind, int k1, int k2, Out & o );
template< typename R > void Objects< R >::run( int kind, int k1, int k2, Out & o ) const { kind < 8 ? runLow( *this, kind, k1, k2, o ) : kind < 13 ? runMiddle( *this, kind, k1, k2, o ) : runHigh( *this, kind, k1, k2, o ); }
} // namespace wl
