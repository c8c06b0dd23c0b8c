// Access forms of shiva::CArray, as operations on a run-time index tuple.
#pragma once
#include "ref.hpp"
#include "shiva/common/CArray.hpp"
#include <array>

namespace acc
{
template< int ... D > struct Shape
{
  static constexpr int rank = sizeof...( D );
  static constexpr int dims[rank] = { D ... };
  static constexpr int size = ( D * ... );
  template< typename T > using Owning = shiva::CArrayNd< T, D ... >;
  template< typename T > using View = shiva::CArrayViewNd< T, D ... >;
  template< typename T > using ConstView = shiva::CArray< T const, T const * const, D ... >;
  static std::string name() { std::string s; for ( int d : dims ) { s += ( s.empty() ? "" : "x" ) + std::to_string( d ); } return s; }
  static void unflatten( int f, long * idx ) { for ( int k = rank - 1; k >= 0; --k ) { idx[k] = f % dims[k]; f /= dims[k]; } }
  static int flatten( long const * idx ) { long f = 0; for ( int k = 0; k < rank; ++k ) { f = f * dims[k] + idx[k]; } return int( f ); }
};

// integer types used as indices; pattern p selects the type of position k
enum IndexKind { kInt, kLong, kShort, kSChar, kUChar, kUShort, kUInt, kULong, kLLong, kULLong, kMixed, kMixed2, kNumKinds };
inline char const * kindName( int k )
{
  static char const * n[] = { "int", "long", "short", "signed char", "unsigned char", "unsigned short", "unsigned", "unsigned long", "long long", "unsigned long long", "mixed", "mixed (2)" };
  return n[k];
}
template< int P, int K > struct TypeAt;
template< int K > struct TypeAt< kInt, K > { using type = int; };
template< int K > struct TypeAt< kLong, K > { using type = long; };
template< int K > struct TypeAt< kShort, K > { using type = short; };
template< int K > struct TypeAt< kSChar, K > { using type = signed char; };
template< int K > struct TypeAt< kUChar, K > { using type = unsigned char; };
template< int K > struct TypeAt< kUShort, K > { using type = unsigned short; };
template< int K > struct TypeAt< kUInt, K > { using type = unsigned; };
template< int K > struct TypeAt< kULong, K > { using type = unsigned long; };
template< int K > struct TypeAt< kLLong, K > { using type = long long; };
template< int K > struct TypeAt< kULLong, K > { using type = unsigned long long; };
template< int K > struct TypeAt< kMixed, K > : TypeAt< ( K * 7 + 3 ) % 10, K > {};
template< int K > struct TypeAt< kMixed2, K > : TypeAt< ( K * 3 + 4 ) % 10, K > {};
inline int kindAt( int p, int k ) { return p == kMixed ? ( k * 7 + 3 ) % 10 : p == kMixed2 ? ( k * 3 + 4 ) % 10 : p; }

// idx holds values already representable in the chosen types (bit patterns for unsigned 64)
template< int P, int O, typename A, int ... K >
decltype( auto ) callAt( A & a, long const * idx, std::integer_sequence< int, K... > )
{
  return a( static_cast< typename TypeAt< P, O + K >::type >( idx[K] ) ... );
}
// O: position of the first index in the whole tuple
template< int P, typename A, int Rank, int O = 0 > decltype( auto ) call( A & a, long const * idx ) { return callAt< P, O >( a, idx, std::make_integer_sequence< int, Rank >{} ); }

template< int P, int K, int Rank, typename A > decltype( auto ) bracket( A && a, long const * idx )
{
  auto const i = static_cast< typename TypeAt< P, K >::type >( idx[K] );
  if constexpr ( K + 1 == Rank ) { return a[i]; }
  else { return bracket< P, K + 1, Rank >( a[i], idx ); }
}
// K brackets, then a call for the rest
template< int P, int K, int Rank, int O = 0, typename A > decltype( auto ) sliceCall( A && a, long const * idx )
{
  auto s = a[static_cast< typename TypeAt< P, O >::type >( idx[0] )];
  if constexpr ( K == 1 ) { return call< P, decltype( s ), Rank - 1, O + 1 >( s, idx + 1 ); }
  else { return sliceCall< P, K - 1, Rank - 1, O + 1 >( s, idx + 1 ); }
}

// address of the element through run-time form `form` with index pattern P
enum Form { fCall, fBracket, fSlice1, fSlice2, fNumForms };
inline char const * formName( int f ) { static char const * n[] = { "call", "brackets", "slice then call", "two slices then call" }; return n[f]; }
template< typename S > constexpr int numForms() { return S::rank == 1 ? 2 : S::rank == 2 ? 3 : 4; }
template< typename S, int P, typename A > void const * addr( int form, A & a, long const * idx )
{
  switch ( form )
  {
    case fCall: return &call< P, A, S::rank >( a, idx );
    case fBracket: return &bracket< P, 0, S::rank >( a, idx );
    case fSlice1: if constexpr ( S::rank >= 2 ) { return &sliceCall< P, 1, S::rank >( a, idx ); } break;
    case fSlice2: if constexpr ( S::rank >= 3 ) { return &sliceCall< P, 2, S::rank >( a, idx ); } break;
  }
  return nullptr;
}
template< typename S, typename A, int ... P > void const * addrKind( int kind, int form, A & a, long const * idx, std::integer_sequence< int, P... > )
{
  void const * r = nullptr;
  ( void )( ( kind == P ? ( r = addr< S, P, A >( form, a, idx ), true ) : false ) || ... );
  return r;
}
// Full: all index types; otherwise int, unsigned long and a mixture only
template< typename S, bool Full, typename A > void const * addrAny( int kind, int form, A & a, long const * idx )
{
  if constexpr ( Full ) { return addrKind< S >( kind, form, a, idx, std::make_integer_sequence< int, kNumKinds >{} ); }
  else { return addrKind< S >( kind, form, a, idx, std::integer_sequence< int, kInt >{} ); }
}
template< bool Full > int pickKind( vh::Rng & g ) { return Full ? g.below( kNumKinds ) : int( kInt ); }
// address through compile-time indices, as a table over all tuples
template< typename S, typename A, int F, int ... K, int ... D >
void const * ctOne( A & a, std::integer_sequence< int, K... >, S *, shiva::CArrayNd< int, D ... > * )
{
  return &a.template operator()< ref::digit< D ... >( F, K ) ... >();
}
template< typename S, typename A, int ... F > std::vector< void const * > ctAll( A & a, std::integer_sequence< int, F... > )
{
  return { ctOne< S, A, F >( a, std::make_integer_sequence< int, S::rank >{}, static_cast< S * >( nullptr ), static_cast< typename S::template Owning< int > * >( nullptr ) ) ... };
}
} // namespace acc
