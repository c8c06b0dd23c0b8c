// The operations of workload.hpp, in parts.
#include "workload.hpp"
using namespace wl;
#if VH_PART == 0
OP( ArrayOp< double, 7 > ); OP( ArrayOp< int, 2, 3 > ); OP( ArrayOp< float, 4, 3, 2 > ); OP( ArrayOp< long long, 2, 3, 2, 5 > ); OP( ArrayOp< double, 3, 3 > ); OP( ArrayOp< short, 2, 2, 3, 2, 2 > ); OP_LD( ArrayOp< long double, 2, 1, 4 > ); OP( ArrayOp< unsigned, 1, 6 > );
OP( ScalarOp< double > ); OP( ScalarOp< int > );
OP( IndexOp< int, 5 > ); OP( IndexOp< int, 2, 3 > ); OP( IndexOp< int, 3, 1, 4 > ); OP( IndexOp< long, 2, 5, 3, 2 > ); OP( IndexOp< unsigned char, 4, 6 > ); OP( IndexOp< unsigned, 6, 2, 2 > ); OP( IndexOp< short, 2, 2, 2, 2, 2 > ); OP( IndexOp< std::size_t, 7, 3 > );
OP( LoopOp< 4 > ); OP( LoopOp< 2, 3 > ); OP( LoopOp< 3, 1, 2 > ); OP( LoopOp< 2, 2, 2, 2 > );
OP( MathOp< double > ); OP( MathOp< float > ); OP_LD( MathOp< long double > ); OP( InverseOp< double > ); OP( InverseOp< float > ); OP_LD( InverseOp< long double > ); OP( ScalingOp< double > ); OP( ScalingOp< float > ); OP_LD( ScalingOp< long double > );
OP( MeasureOp< sg::NCube< double, 3, -1, 1, 1 >, 3 > ); OP( MeasureOp< sg::NCube< float, 5, -3, 4, 2 >, 5 > ); OP( MeasureOp< sg::NCube< double, 10, 0, 1, 3 >, 10 > ); OP( MeasureOp< sg::NSimplex< double, 3, 0, 1, 1 >, 3 > ); OP( MeasureOp< sg::NSimplex< double, 7, -2, 9, 5 >, 7 > ); OP( MeasureOp< sg::NSimplex< float, 2, 0, 1, 1 >, 2 > );
OP_RT( KernelOp< double > ); OP_RT( KernelOp< float > ); OP_RT( KernelOp< int > );
#elif VH_PART == 1
OP( NodeOp< shiva::EqualSpacing< double, 2 >, double, 2, false, false > ); OP( NodeOp< shiva::EqualSpacing< double, 5 >, double, 5, false, false > ); OP( NodeOp< shiva::EqualSpacing< float, 4 >, float, 4, false, false > ); OP_LD( NodeOp< shiva::EqualSpacing< long double, 7 >, long double, 7, false, false > );
OP( NodeOp< shiva::QuadratureGaussLegendre< double, 2 >, double, 2, true, true > ); OP( NodeOp< shiva::QuadratureGaussLegendre< double, 3 >, double, 3, true, true > ); OP( NodeOp< shiva::QuadratureGaussLegendre< double, 4 >, double, 4, true, true > ); OP( NodeOp< shiva::QuadratureGaussLegendre< float, 4 >, float, 4, true, true > );
OP( NodeOp< shiva::QuadratureGaussLobatto< double, 2 >, double, 2, true, true > ); OP( NodeOp< shiva::QuadratureGaussLobatto< double, 3 >, double, 3, true, true > ); OP( NodeOp< shiva::QuadratureGaussLobatto< double, 4 >, double, 4, true, true > ); OP( NodeOp< shiva::QuadratureGaussLobatto< double, 5 >, double, 5, true, true > ); OP( NodeOp< shiva::QuadratureGaussLobatto< float, 5 >, float, 5, true, true > ); OP( NodeOp< shiva::QuadratureGaussLobatto< float, 3 >, float, 3, true, true > );
OP( NodeOp< shiva::QuadratureGaussLobatto< double, 6 >, double, 6, true, false > ); OP( NodeOp< shiva::QuadratureGaussLobatto< double, 7 >, double, 7, true, false > ); OP( NodeOp< shiva::QuadratureGaussLobatto< double, 8 >, double, 8, true, false > ); OP( NodeOp< shiva::QuadratureGaussLobatto< double, 9 >, double, 9, true, false > ); OP_LD( NodeOp< shiva::QuadratureGaussLobatto< long double, 9 >, long double, 9, true, false > ); OP( NodeOp< shiva::QuadratureGaussLobatto< float, 7 >, float, 7, true, false > );
OP( BasisOp< EQ< double, 1 >, double > ); OP( BasisOp< EQ< double, 3 >, double > ); OP( BasisOp< EQ< double, 6 >, double > ); OP( BasisOp< EQ< float, 2 >, float > ); OP_LD( BasisOp< EQ< long double, 4 >, long double > );
OP( BasisOp< LO< double, 1 >, double > ); OP( BasisOp< LO< double, 2 >, double > ); OP( BasisOp< LO< double, 3 >, double > ); OP( BasisOp< LO< double, 4 >, double > ); OP( BasisOp< LO< double, 5 >, double > ); OP( BasisOp< LO< double, 8 >, double > ); OP( BasisOp< LO< float, 3 >, float > ); OP_LD( BasisOp< LO< long double, 6 >, long double > );
OP( BasisOp< LE< double, 1 >, double > ); OP( BasisOp< LE< double, 2 >, double > ); OP( BasisOp< LE< double, 3 >, double > ); OP( BasisOp< LE< float, 3 >, float > );
#elif VH_PART == 2
template< typename R > using A1 = El< R, LO< R, 3 > >; template< typename R > using A2 = El< R, LO< R, 1 >, EQ< R, 2 > >; template< typename R > using A3 = El< R, LO< R, 1 >, LO< R, 1 >, LO< R, 1 > >; template< typename R > using A4 = El< R, EQ< R, 2 >, LO< R, 1 >, LE< R, 2 > >; template< typename R > using A5 = El< R, LO< R, 1 >, EQ< R, 1 >, LE< R, 1 >, LO< R, 1 > >;
OP( ShapeOp< A1< double > > ); OP( ShapeOp< A2< double > > ); OP( ShapeOp< A3< double > > ); OP( ShapeOp< A4< double > > ); OP( ShapeOp< A5< double > > ); OP( ShapeOp< A3< float > > ); OP( ShapeOp< A2< float > > ); OP_LD( ShapeOp< A4< long double > > ); OP( ShapeOp< El< double, LO< double, 4 >, LO< double, 2 >, EQ< double, 3 > > > );
OP( FieldOp< A1< double > > ); OP( FieldOp< A2< double > > ); OP( FieldOp< A3< double > > ); OP( FieldOp< A4< double > > ); OP( FieldOp< A3< float > > ); OP_LD( FieldOp< A2< long double > > ); OP( FieldOp< A5< double > > );
#elif VH_PART == 3
OP( CellOp< El< double, LO< double, 1 >, LO< double, 1 >, LO< double, 1 > > > ); OP( CellOp< El< double, EQ< double, 2 >, LO< double, 1 >, LE< double, 1 > > > ); OP( CellOp< El< float, LO< float, 1 >, LO< float, 1 >, LO< float, 1 > > > ); OP( CellOp< El< double, LO< double, 3 > > > ); OP( CellOp< El< double, LO< double, 1 >, EQ< double, 2 > > > );
OP( SetDataOp< El< double, LO< double, 1 >, LO< double, 1 >, LO< double, 1 > > > ); OP( SetDataOp< El< double, LO< double, 1 >, LO< double, 2 >, EQ< double, 3 > > > ); OP( SetDataOp< El< float, LO< float, 2 >, LO< float, 1 >, EQ< float, 1 > > > );
#elif VH_PART == 4
template< typename R > using Hex = El< R, LO< R, 1 >, LO< R, 1 >, LO< R, 1 > >;
OP_LD( CellOp< El< long double, LO< long double, 1 >, EQ< long double, 1 >, LO< long double, 1 > > > ); OP( CellOp< El< double, LO< double, 2 >, LO< double, 1 >, EQ< double, 3 > > > );
OP( QuadratureCellOp< Hex< double >, shiva::QuadratureGaussLegendre< double, 2 >, 0, 1, 1 > ); OP( QuadratureCellOp< Hex< double >, shiva::QuadratureGaussLegendre< double, 3 >, 2, 0, 1 > ); OP( QuadratureCellOp< Hex< double >, shiva::QuadratureGaussLobatto< double, 5 >, 4, 1, 3 > ); OP( QuadratureCellOp< Hex< float >, shiva::QuadratureGaussLegendre< float, 4 >, 3, 0, 2 > ); OP( QuadratureCellOp< El< double, EQ< double, 2 >, LO< double, 1 >, LE< double, 1 > >, shiva::QuadratureGaussLobatto< double, 4 >, 1, 3, 0 > ); OP( QuadratureCellOp< El< double, LO< double, 2 >, EQ< double, 1 > >, shiva::QuadratureGaussLegendre< double, 3 >, 0, 2 > );
#endif
