From 04bccf85734077fb2288d67c8a13ce8a49956c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:36 +0000
Subject: [PATCH 01/37] fix: stride of a multi-index is the product of the
 trailing ranges

The stride of component INDEX was the product of the first ranges instead of
those after INDEX, so linearIndex was not injective for unequal ranges.
---
 include/shiva/common/IndexTypes.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/shiva/common/IndexTypes.hpp b/include/shiva/common/IndexTypes.hpp
index 83cb158..5f4dccb 100644
--- a/include/shiva/common/IndexTypes.hpp
+++ b/include/shiva/common/IndexTypes.hpp
@@ -60,10 +60,10 @@ stride( MultiIndexRange< BASE_INDEX_TYPE, RANGES... > const & index )
 
   // call strideHelper on an integer_sequence that ranges from 0...(NUM_INDICES
   // - 1 - INDEX).
-  // This will result in a fold expression that multiples entries of the ranges
-  // array for the integer_sequence.
+  // This will result in a fold expression that multiples the entries of the
+  // ranges array that come after INDEX.
   return detail::strideHelper( std::make_integer_sequence< int, (IndexType::NUM_INDICES - 1) - INDEX >{},
-                               &(index.ranges[0]) );
+                               index.ranges + INDEX + 1 );
 }
 
 /**
-- 
2.43.0


From a6ca57d22be72da1b900ad277873250537560495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:36 +0000
Subject: [PATCH 02/37] fix: forRange compiles for base index types other than
 int

---
 include/shiva/common/IndexTypes.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/shiva/common/IndexTypes.hpp b/include/shiva/common/IndexTypes.hpp
index 5f4dccb..8c5220c 100644
--- a/include/shiva/common/IndexTypes.hpp
+++ b/include/shiva/common/IndexTypes.hpp
@@ -105,7 +105,7 @@ forRangeHelper( MultiIndexRange< BASE_INDEX_TYPE, RANGES... > const & start,
   // if we are at the last dimension, then call func on index
   if constexpr ( DIM == (IndexType::NUM_INDICES - 1) )
   {
-    int & a = index.data[DIM];
+    BASE_INDEX_TYPE & a = index.data[DIM];
     for ( a = start.data[DIM]; a < index.range( DIM ); ++a )
     {
       func( index );
@@ -114,7 +114,7 @@ forRangeHelper( MultiIndexRange< BASE_INDEX_TYPE, RANGES... > const & start,
   // otherwise, recurse until we get to the last index
   else
   {
-    int & a = index.data[DIM];
+    BASE_INDEX_TYPE & a = index.data[DIM];
     for ( a = start.data[DIM]; a < index.range( DIM ); ++a )
     {
       forRangeHelper< DIM + 1 >( start, index, func );
-- 
2.43.0


From 3a4e748d61435a14cee8f115bb64ee3952132708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:36 +0000
Subject: [PATCH 03/37] fix: jacobian of a LinearTransform does not depend on
 the previous content of the output

The nodal contributions were accumulated into the [out] argument without
clearing it first, so a reused J (or invJ) gave a wrong result.
---
 include/shiva/geometry/mapping/LinearTransform.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/shiva/geometry/mapping/LinearTransform.hpp b/include/shiva/geometry/mapping/LinearTransform.hpp
index 63e78e3..ae749fa 100644
--- a/include/shiva/geometry/mapping/LinearTransform.hpp
+++ b/include/shiva/geometry/mapping/LinearTransform.hpp
@@ -168,6 +168,8 @@ jacobian( LinearTransform< REAL_TYPE, INTERPOLATED_SHAPE > const & transform,
   constexpr int DIMS = Transform::numDims;
 
   auto const & nodeCoords = transform.getData();
+
+  J = typename Transform::JacobianType();
   InterpolatedShape::supportLoop( [&] ( auto const ... ic_spIndices ) constexpr
   {
     CArrayNd< REAL_TYPE, DIMS > const dNadXi = InterpolatedShape::template gradient< decltype(ic_spIndices)::value ... >( pointCoordsParent );
@@ -213,6 +215,8 @@ jacobian( LinearTransform< REAL_TYPE, INTERPOLATED_SHAPE > const & transform,
   constexpr int DIMS = Transform::numDims;
 
   auto const & nodeCoords = transform.getData();
+
+  J = typename Transform::JacobianType();
   constexpr REAL_TYPE qcoords[3] = { ( QUADRATURE::template coordinate< QA >() )... };
 
   InterpolatedShape::supportLoop( [&] ( auto const ... ic_spIndices ) constexpr
-- 
2.43.0


From b4634375e6d9400d68ee25647649294bc536dacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:36 +0000
Subject: [PATCH 04/37] fix: LinearTransform::setData uses the node counts of
 the cell

The flat node index was hard coded for two nodes per direction, so cells of
higher order were filled from the wrong (and repeated) list entries.
---
 include/shiva/geometry/mapping/LinearTransform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/shiva/geometry/mapping/LinearTransform.hpp b/include/shiva/geometry/mapping/LinearTransform.hpp
index ae749fa..26780fc 100644
--- a/include/shiva/geometry/mapping/LinearTransform.hpp
+++ b/include/shiva/geometry/mapping/LinearTransform.hpp
@@ -121,7 +121,7 @@ public:
 
       for ( int i = 0; i < numDims; ++i )
       {
-        m_vertexCoords( a, b, c, i ) = coords[a + 2 * b + 4 * c][i];
+        m_vertexCoords( a, b, c, i ) = coords[a + SupportIndexType::range( 0 ) * ( b + SupportIndexType::range( 1 ) * c )][i];
       }
     } );
   }
-- 
2.43.0


From babab2e280ebb8ddc72b315eaadbf82d68cbcb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:36 +0000
Subject: [PATCH 05/37] fix: numMCubes does not overflow for cubes of dimension
 10 to 12

2^(N-M) was multiplied with N! before the division.
---
 include/shiva/geometry/shapes/NCube.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/shiva/geometry/shapes/NCube.hpp b/include/shiva/geometry/shapes/NCube.hpp
index dc1b370..6366e17 100644
--- a/include/shiva/geometry/shapes/NCube.hpp
+++ b/include/shiva/geometry/shapes/NCube.hpp
@@ -76,7 +76,7 @@ public:
   SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE int numMCubes()
   {
     static_assert( M <= N, "M must be less than or equal to N" );
-    return mathUtilities::pow< int, N - M >( 2 ) * mathUtilities::factorial< int, N >::value / ( mathUtilities::factorial< int, M >::value * mathUtilities::factorial< int, N - M >::value );
+    return mathUtilities::pow< int, N - M >( 2 ) * mathUtilities::binomialCoefficient< int, N, M >::value;
   }
 
   /**
-- 
2.43.0


From 454f2925e0dc127123d76c02d6858dc508f17021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:36 +0000
Subject: [PATCH 06/37] fix: length of NCube and NSimplex does not overflow for
 large extents

---
 include/shiva/geometry/shapes/NCube.hpp    | 2 +-
 include/shiva/geometry/shapes/NSimplex.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/shiva/geometry/shapes/NCube.hpp b/include/shiva/geometry/shapes/NCube.hpp
index 6366e17..d83ace9 100644
--- a/include/shiva/geometry/shapes/NCube.hpp
+++ b/include/shiva/geometry/shapes/NCube.hpp
@@ -173,7 +173,7 @@ public:
    */
   SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE REAL_TYPE length()
   {
-    return static_cast< RealType >( MAX - MIN ) / DIVISOR;
+    return static_cast< RealType >( static_cast< long long >( MAX ) - MIN ) / DIVISOR;
   }
 
 
diff --git a/include/shiva/geometry/shapes/NSimplex.hpp b/include/shiva/geometry/shapes/NSimplex.hpp
index 5fec076..c899e22 100644
--- a/include/shiva/geometry/shapes/NSimplex.hpp
+++ b/include/shiva/geometry/shapes/NSimplex.hpp
@@ -170,7 +170,7 @@ public:
    */
   SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE REAL_TYPE length()
   {
-    return static_cast< RealType >( MAX - MIN ) / DIVISOR;
+    return static_cast< RealType >( static_cast< long long >( MAX ) - MIN ) / DIVISOR;
   }
 
 
-- 
2.43.0


From b5fe76dad4c36a58737a82f8712c0473445d0c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:47 +0000
Subject: [PATCH 07/37] fix: GaussLobattoSpacing::coordinate(int) supports 6 to
 9 points

The run-time lookup silently returned 0 for the point counts that only the
compile-time lookup had coordinates for.
---
 include/shiva/functions/spacing/Spacing.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/shiva/functions/spacing/Spacing.hpp b/include/shiva/functions/spacing/Spacing.hpp
index 8f5ca29..4c8b425 100644
--- a/include/shiva/functions/spacing/Spacing.hpp
+++ b/include/shiva/functions/spacing/Spacing.hpp
@@ -184,6 +184,26 @@ struct GaussLobattoSpacing
       // if ( index == 3 ) return  sqrt3div7;
       // if ( index == 4 ) return  1.0;
     }
+    else if constexpr ( N == 6 )
+    {
+      constexpr REAL_TYPE rval[6] = { coordinate< 0 >(), coordinate< 1 >(), coordinate< 2 >(), coordinate< 3 >(), coordinate< 4 >(), coordinate< 5 >() };
+      return rval[index];
+    }
+    else if constexpr ( N == 7 )
+    {
+      constexpr REAL_TYPE rval[7] = { coordinate< 0 >(), coordinate< 1 >(), coordinate< 2 >(), coordinate< 3 >(), coordinate< 4 >(), coordinate< 5 >(), coordinate< 6 >() };
+      return rval[index];
+    }
+    else if constexpr ( N == 8 )
+    {
+      constexpr REAL_TYPE rval[8] = { coordinate< 0 >(), coordinate< 1 >(), coordinate< 2 >(), coordinate< 3 >(), coordinate< 4 >(), coordinate< 5 >(), coordinate< 6 >(), coordinate< 7 >() };
+      return rval[index];
+    }
+    else if constexpr ( N == 9 )
+    {
+      constexpr REAL_TYPE rval[9] = { coordinate< 0 >(), coordinate< 1 >(), coordinate< 2 >(), coordinate< 3 >(), coordinate< 4 >(), coordinate< 5 >(), coordinate< 6 >(), coordinate< 7 >(), coordinate< 8 >() };
+      return rval[index];
+    }
     return 0;
   }
 
-- 
2.43.0


From 7056eda18f04b7cdce991898a51e9a7f36329beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:47 +0000
Subject: [PATCH 08/37] fix: bases compile as C++20 and later

The C++20 branches used a template parameter name that does not exist and an
old signature of valueProductFactor.
---
 include/shiva/functions/bases/BasisProduct.hpp  | 2 +-
 include/shiva/functions/bases/LagrangeBasis.hpp | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/shiva/functions/bases/BasisProduct.hpp b/include/shiva/functions/bases/BasisProduct.hpp
index 2e19417..f6119c2 100644
--- a/include/shiva/functions/bases/BasisProduct.hpp
+++ b/include/shiva/functions/bases/BasisProduct.hpp
@@ -94,7 +94,7 @@ struct BasisProduct
     // expand pack over number of dimensions
     return executeSequence< numDims >( [&]< int ... PRODUCT_TERM_INDEX > () constexpr
     {
-      return ( BASIS_TYPE::template value< BASIS_FUNCTION_INDICES >( parentCoord[PRODUCT_TERM_INDEX] ) * ... );
+      return ( BASIS_TYPES::template value< BASIS_FUNCTION_INDICES >( parentCoord[PRODUCT_TERM_INDEX] ) * ... );
     } );
 #else
     return executeSequence< numDims >( [&] ( auto ... PRODUCT_TERM_INDEX ) constexpr
diff --git a/include/shiva/functions/bases/LagrangeBasis.hpp b/include/shiva/functions/bases/LagrangeBasis.hpp
index 9330885..b65b6ae 100644
--- a/include/shiva/functions/bases/LagrangeBasis.hpp
+++ b/include/shiva/functions/bases/LagrangeBasis.hpp
@@ -119,10 +119,11 @@ public:
 #if __cplusplus >= 202002L
     return executeSequence< numSupportPoints >( [&coord]< int ... a > () constexpr
     {
-      auto func = [&coord]< int ... b > ( auto aa ) constexpr
+      REAL_TYPE const values[ numSupportPoints ] = { valueProductTerm< BF_INDEX, a >( coord )... };
+      auto func = [&values]< int ... b > ( auto aa ) constexpr
       {
         constexpr int aVal = decltype(aa)::value;
-        return gradientOfValueTerm< BF_INDEX, aVal >() * ( valueProductFactor< BF_INDEX, b, aVal >( coord ) * ... );
+        return gradientOfValueTerm< BF_INDEX, aVal >() * ( valueProductFactor< b, aVal >( values ) * ... );
       };
 
       return ( executeSequence< numSupportPoints >( func, std::integral_constant< int, a >{} ) + ... );
-- 
2.43.0


From 382a0d1ac2b01a3044f0908ba8633d7ac1741058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:47 +0000
Subject: [PATCH 09/37] fix: executeSequence tests for the call it makes

The user arguments are passed before the indices, but the test whether the
function accepts them had the indices first.
---
 include/shiva/common/SequenceUtilities.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/shiva/common/SequenceUtilities.hpp b/include/shiva/common/SequenceUtilities.hpp
index 02eeee4..193ee13 100644
--- a/include/shiva/common/SequenceUtilities.hpp
+++ b/include/shiva/common/SequenceUtilities.hpp
@@ -127,7 +127,7 @@ struct SequenceExpansion< std::integer_sequence< int, DIMENSION_INDICES... > >
     // This checks to see if the function is invocable with the parameter pack
     // provided as a template parameter. In other words, if the FUNC is a
     // function that takes the parameter pack as a function argument.
-    if constexpr ( std::is_invocable_v< FUNC, std::integral_constant< int, DIMENSION_INDICES >..., ARGS ... > )
+    if constexpr ( std::is_invocable_v< FUNC, ARGS ..., std::integral_constant< int, DIMENSION_INDICES >... > )
     {
       // calling func with the parameter packs ( args..., DIMENSION_INDICES...)
       // as arguments.
-- 
2.43.0


From bb3b81db7a9b5596386e276cc4e72bf16187c795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:47 +0000
Subject: [PATCH 10/37] fix: ScalarView refers to its data through a pointer

---
 include/shiva/common/CArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/shiva/common/CArray.hpp b/include/shiva/common/CArray.hpp
index d7cb7d5..0d81841 100644
--- a/include/shiva/common/CArray.hpp
+++ b/include/shiva/common/CArray.hpp
@@ -271,7 +271,7 @@ using CArrayNd = CArray< T, T[CArrayHelper::size< DIMS ... >()], DIMS ... >;
  * @tparam T Type held in the scalar
  */
 template< typename T >
-using ScalarView = CArray< T, T, 1 >;
+using ScalarView = CArray< T, T * const, 1 >;
 
 /**
  * @brief Alias for a N-d array view.
-- 
2.43.0


From 14c141d877246681e4a722905229a226e32c0454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:47 +0000
Subject: [PATCH 11/37] fix: Shiva.hpp includes headers that exist

---
 include/shiva/Shiva.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/shiva/Shiva.hpp b/include/shiva/Shiva.hpp
index 6aa79b3..632792d 100644
--- a/include/shiva/Shiva.hpp
+++ b/include/shiva/Shiva.hpp
@@ -11,6 +11,10 @@
  * ------------------------------------------------------------------------------------------------------------
  */
 
-#include "geometry/Cube.hpp"
-#include "geometry/Cuboid.hpp"
-#include "geometry/RectangularCuboid.hpp"
+#include "discretizations/finiteElementMethod/parentElements/ParentElement.hpp"
+#include "functions/bases/LagrangeBasis.hpp"
+#include "functions/quadrature/Quadrature.hpp"
+#include "geometry/mapping/JacobianTransforms.hpp"
+#include "geometry/shapes/InterpolatedShape.hpp"
+#include "geometry/shapes/NCube.hpp"
+#include "geometry/shapes/NSimplex.hpp"
-- 
2.43.0


From 665baeb030f2425186865f44d280187889173338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:47 +0000
Subject: [PATCH 12/37] fix: no narrowing from double when results are float

The double literals were forwarded to brace initialization of float data, which
is ill-formed; clang rejects it.
---
 .../finiteElementMethod/parentElements/ParentElement.hpp      | 2 +-
 include/shiva/geometry/mapping/JacobianTransforms.hpp         | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp b/include/shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp
index 20c8a99..ba979dd 100644
--- a/include/shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp
+++ b/include/shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp
@@ -128,7 +128,7 @@ public:
   SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE CArrayNd< RealType, numDims >
   gradient( CoordType const & parentCoord, VAR_TYPE const & var )
   {
-    CArrayNd< RealType, numDims > rval = {0.0};
+    CArrayNd< RealType, numDims > rval = {};
     forNestedSequence< BASIS_TYPE::numSupportPoints... >( [&] ( auto const ... ic_indices ) constexpr
     {
       CArrayNd< RealType, numDims > const grad = gradient< decltype(ic_indices)::value ... >( parentCoord );
diff --git a/include/shiva/geometry/mapping/JacobianTransforms.hpp b/include/shiva/geometry/mapping/JacobianTransforms.hpp
index 2b533f5..f131fb8 100644
--- a/include/shiva/geometry/mapping/JacobianTransforms.hpp
+++ b/include/shiva/geometry/mapping/JacobianTransforms.hpp
@@ -48,7 +48,7 @@ SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE auto
 jacobian( BASE_GEOMETRY const & cell,
           REAL_TYPE const (&parentCoords)[3] )
 {
-  typename BASE_GEOMETRY::JacobianType J{0.0 };
+  typename BASE_GEOMETRY::JacobianType J{};
   jacobian( cell, parentCoords, J );
   return J;
 }
@@ -58,7 +58,7 @@ SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE auto
 inverseJacobian( BASE_GEOMETRY const & cell,
                  REAL_TYPE const (&parentCoords)[3] )
 {
-  typename BASE_GEOMETRY::JacobianType invJ{ 0.0 };
+  typename BASE_GEOMETRY::JacobianType invJ{};
   REAL_TYPE detJ;
   inverseJacobian( cell, parentCoords, invJ, detJ );
   return make_tuple( detJ, invJ );
-- 
2.43.0


From b8b3b1997459bb3b87d8250b9e1a5c0bd7592826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:47 +0000
Subject: [PATCH 13/37] fix: pmpl::check does not underflow or overflow

The squares of the difference and of the tolerance leave the range of the
floating point type for small and large tolerances.
---
 include/shiva/common/pmpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/shiva/common/pmpl.hpp b/include/shiva/common/pmpl.hpp
index a6f133e..08282bd 100644
--- a/include/shiva/common/pmpl.hpp
+++ b/include/shiva/common/pmpl.hpp
@@ -71,7 +71,7 @@ namespace pmpl
 template< typename REAL_TYPE >
 static constexpr bool check( REAL_TYPE const a, REAL_TYPE const b, REAL_TYPE const tolerance )
 {
-  return ( a - b ) * ( a - b ) < tolerance * tolerance;
+  return ( a - b ) < tolerance && ( b - a ) < tolerance;
 }
 
 
-- 
2.43.0


From 83a00eb72a93d0f052d74f9ea12a3ad3455bcaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:40 +0000
Subject: [PATCH 14/37] fix: aggregateOrSplit.py split restores the headers
 below the output directory

The recorded absolute paths made os.path.join ignore the output directory, so
split overwrote the original headers, with their includes and include guards
commented out.
---
 scripts/aggregateOrSplit.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/scripts/aggregateOrSplit.py b/scripts/aggregateOrSplit.py
index 251174e..8c1fc2c 100644
--- a/scripts/aggregateOrSplit.py
+++ b/scripts/aggregateOrSplit.py
@@ -9,6 +9,7 @@ class HeaderFileManager:
         self.included = set()  # Tracks already processed files
         self.included_list = []
         self.config_file = "ShivaConfig.hpp"
+        self.disabled_prefix = "//aggregated: "  # Marks lines that were commented out by aggregate
 
     def create_dependency_graph(self, header, include_paths=None):
         """
@@ -130,13 +131,16 @@ class HeaderFileManager:
                     pragma_once_match = re.match(r'#pragma\s+once', line, re.IGNORECASE)
                     if include_match:
                         # Comment out include statements
-                        output.write(f"// {line.strip()}\n")
+                        output.write(self.disabled_prefix + line)
                     elif pragma_once_match:
                         # Comment out #pragma once
-                        output.write(f"// {line.strip()}\n")
+                        output.write(self.disabled_prefix + line)
                     else:
                         # Write all other lines as is
                         output.write(line)
+                    if not line.endswith('\n'):
+                        # Keep the end marker on a line of its own
+                        output.write('\n')
                 output.write(f"// ===== End of {header_path} =====\n")
 
         with open(output_file, 'w') as output:
@@ -171,13 +175,16 @@ class HeaderFileManager:
                     if output:
                         output.close()
                     current_file = start_match.group(1)
-                    output = open(os.path.join(output_dir, current_file), 'w')
+                    # The recorded paths are absolute: recreate them below output_dir
+                    output_path = os.path.join(output_dir, current_file.lstrip(os.sep))
+                    os.makedirs(os.path.dirname(output_path), exist_ok=True)
+                    output = open(output_path, 'w')
                 elif end_match:
                     if output:
                         output.close()
                         output = None
                 elif output:
-                    output.write(line)
+                    output.write(line[len(self.disabled_prefix):] if line.startswith(self.disabled_prefix) else line)
 
         if output:
             output.close()
-- 
2.43.0


From 598d2dec8e990ee99a976538e7dfe4f38c0c5914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:10 +0000
Subject: [PATCH 15/37] fix: stride of a multi-index is calculated in the base
 index type

---
 include/shiva/common/IndexTypes.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/shiva/common/IndexTypes.hpp b/include/shiva/common/IndexTypes.hpp
index 8c5220c..814db34 100644
--- a/include/shiva/common/IndexTypes.hpp
+++ b/include/shiva/common/IndexTypes.hpp
@@ -30,18 +30,20 @@ namespace detail
 
 /**
  * @brief Helper function for calculating a stride.
+ * @tparam BASE_INDEX_TYPE the base type of the index, in which the stride is
+ * calculated.
  * @tparam INDICES variaic pack of the indices.
  * @param ranges The ranges.
  * @return The largest stride for the index pack.
  */
-template< int ... INDICES >
-SHIVA_CONSTEXPR_HOSTDEVICE_FORCEINLINE int
+template< typename BASE_INDEX_TYPE, int ... INDICES >
+SHIVA_CONSTEXPR_HOSTDEVICE_FORCEINLINE BASE_INDEX_TYPE
 strideHelper( std::integer_sequence< int, INDICES... >,
               int const * const ranges )
 {
   // return result of a fold expression that multiples all entries of the ranges
   // array
-  return ( ranges[INDICES] * ... *1);
+  return ( static_cast< BASE_INDEX_TYPE >( ranges[INDICES] ) * ... * static_cast< BASE_INDEX_TYPE >( 1 ) );
 }
 
 /**
@@ -62,8 +64,8 @@ stride( MultiIndexRange< BASE_INDEX_TYPE, RANGES... > const & index )
   // - 1 - INDEX).
   // This will result in a fold expression that multiples the entries of the
   // ranges array that come after INDEX.
-  return detail::strideHelper( std::make_integer_sequence< int, (IndexType::NUM_INDICES - 1) - INDEX >{},
-                               index.ranges + INDEX + 1 );
+  return detail::strideHelper< BASE_INDEX_TYPE >( std::make_integer_sequence< int, (IndexType::NUM_INDICES - 1) - INDEX >{},
+                                                  index.ranges + INDEX + 1 );
 }
 
 /**
-- 
2.43.0


From 4b38a8c0a4758d0cd80d0269d9072b3452b62c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:36 +0000
Subject: [PATCH 16/37] fix: returning inverseJacobian forms are usable in
 constant expressions

---
 include/shiva/geometry/mapping/JacobianTransforms.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/shiva/geometry/mapping/JacobianTransforms.hpp b/include/shiva/geometry/mapping/JacobianTransforms.hpp
index f131fb8..d6c9d3c 100644
--- a/include/shiva/geometry/mapping/JacobianTransforms.hpp
+++ b/include/shiva/geometry/mapping/JacobianTransforms.hpp
@@ -38,7 +38,7 @@ SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE auto
 inverseJacobian( BASE_GEOMETRY const & cell )
 {
   typename BASE_GEOMETRY::JacobianType invJ;
-  REAL_TYPE detJ;
+  REAL_TYPE detJ{};
   inverseJacobian( cell, invJ, detJ );
   return make_tuple( detJ, invJ );
 }
@@ -59,7 +59,7 @@ inverseJacobian( BASE_GEOMETRY const & cell,
                  REAL_TYPE const (&parentCoords)[3] )
 {
   typename BASE_GEOMETRY::JacobianType invJ{};
-  REAL_TYPE detJ;
+  REAL_TYPE detJ{};
   inverseJacobian( cell, parentCoords, invJ, detJ );
   return make_tuple( detJ, invJ );
 }
-- 
2.43.0


From 2c54fa8e39b475cd652a6c93b3e9a42707b89bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:57 +0000
Subject: [PATCH 17/37] fix: splitting an aggregated file restores every header
 byte for byte

Line endings were translated, a missing final newline was added, and header
lines that look like the markers (an aggregate that is aggregated again) were
taken for markers.
---
 scripts/aggregateOrSplit.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/scripts/aggregateOrSplit.py b/scripts/aggregateOrSplit.py
index 8c1fc2c..2596842 100644
--- a/scripts/aggregateOrSplit.py
+++ b/scripts/aggregateOrSplit.py
@@ -10,6 +10,8 @@ class HeaderFileManager:
         self.included_list = []
         self.config_file = "ShivaConfig.hpp"
         self.disabled_prefix = "//aggregated: "  # Marks lines that were commented out by aggregate
+        self.missing_newline = " (no newline at end of file)"  # Marks headers whose last line is not terminated
+        self.reserved_line = r'// ===== (Start|End) of |//aggregated: '  # Lines with a meaning to split
 
     def create_dependency_graph(self, header, include_paths=None):
         """
@@ -124,8 +126,9 @@ class HeaderFileManager:
                 return  # Avoid duplicate processing
             self.included.add(header_path)
 
-            with open(header_path, 'r') as file:
+            with open(header_path, 'r', newline='') as file:
                 output.write(f"\n\n// ===== Start of {header_path} =====\n")
+                line = '\n'
                 for line in file:
                     include_match = re.match(r'#include\s+"([^"]+)"', line)
                     pragma_once_match = re.match(r'#pragma\s+once', line, re.IGNORECASE)
@@ -135,15 +138,18 @@ class HeaderFileManager:
                     elif pragma_once_match:
                         # Comment out #pragma once
                         output.write(self.disabled_prefix + line)
+                    elif re.match(self.reserved_line, line):
+                        # Keep lines that split would take for its own
+                        output.write(self.disabled_prefix + line)
                     else:
                         # Write all other lines as is
                         output.write(line)
-                    if not line.endswith('\n'):
-                        # Keep the end marker on a line of its own
-                        output.write('\n')
-                output.write(f"// ===== End of {header_path} =====\n")
+                # Keep the end marker on a line of its own
+                missing_newline = '' if line.endswith('\n') else self.missing_newline
+                output.write('\n' if missing_newline else '')
+                output.write(f"// ===== End of {header_path} ====={missing_newline}\n")
 
-        with open(output_file, 'w') as output:
+        with open(output_file, 'w', newline='') as output:
             for header in headers:
                 header = os.path.abspath(header)
                 self.create_dependency_graph(header, include_paths)
@@ -165,8 +171,9 @@ class HeaderFileManager:
         os.makedirs(output_dir, exist_ok=True)
         current_file = None
         output = None
+        pending = ''  # The line read last, not written yet
 
-        with open(aggregated_file, 'r') as agg_file:
+        with open(aggregated_file, 'r', newline='') as agg_file:
             for line in agg_file:
                 start_match = re.match(r'// ===== Start of (.+) =====', line)
                 end_match = re.match(r'// ===== End of (.+) =====', line)
@@ -178,15 +185,21 @@ class HeaderFileManager:
                     # The recorded paths are absolute: recreate them below output_dir
                     output_path = os.path.join(output_dir, current_file.lstrip(os.sep))
                     os.makedirs(os.path.dirname(output_path), exist_ok=True)
-                    output = open(output_path, 'w')
+                    output = open(output_path, 'w', newline='')
+                    pending = ''
                 elif end_match:
                     if output:
+                        if line.rstrip().endswith(self.missing_newline):
+                            pending = pending[:-1]
+                        output.write(pending)
                         output.close()
                         output = None
                 elif output:
-                    output.write(line[len(self.disabled_prefix):] if line.startswith(self.disabled_prefix) else line)
+                    output.write(pending)
+                    pending = line[len(self.disabled_prefix):] if line.startswith(self.disabled_prefix) else line
 
         if output:
+            output.write(pending)
             output.close()
 
 # Command-line interface
-- 
2.43.0


From 943a55746e8a2d8110d55c5ccf8eff5ae49154a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:57 +0000
Subject: [PATCH 18/37] fix: aggregateOrSplit.py follows includes however they
 are spaced, and the aggregate may be included repeatedly

An indented include, or one without a space, was neither followed nor
disabled. The aggregate had no include guard although those of its headers
are disabled.
---
 scripts/aggregateOrSplit.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/scripts/aggregateOrSplit.py b/scripts/aggregateOrSplit.py
index 2596842..8a7428f 100644
--- a/scripts/aggregateOrSplit.py
+++ b/scripts/aggregateOrSplit.py
@@ -9,6 +9,8 @@ class HeaderFileManager:
         self.included = set()  # Tracks already processed files
         self.included_list = []
         self.config_file = "ShivaConfig.hpp"
+        self.include_directive = r'\s*#\s*include\s*"([^"]+)"'
+        self.once_directive = r'\s*#\s*pragma\s+once\b'
         self.disabled_prefix = "//aggregated: "  # Marks lines that were commented out by aggregate
         self.missing_newline = " (no newline at end of file)"  # Marks headers whose last line is not terminated
         self.reserved_line = r'// ===== (Start|End) of |//aggregated: '  # Lines with a meaning to split
@@ -34,7 +36,7 @@ class HeaderFileManager:
         try:
             with open(header, 'r') as file:
                 for line in file:
-                    include_match = re.match(r'#include\s+"([^"]+)"', line)
+                    include_match = re.match(self.include_directive, line)
                     if include_match:
                         included_file = include_match.group(1)
 
@@ -130,8 +132,8 @@ class HeaderFileManager:
                 output.write(f"\n\n// ===== Start of {header_path} =====\n")
                 line = '\n'
                 for line in file:
-                    include_match = re.match(r'#include\s+"([^"]+)"', line)
-                    pragma_once_match = re.match(r'#pragma\s+once', line, re.IGNORECASE)
+                    include_match = re.match(self.include_directive, line)
+                    pragma_once_match = re.match(self.once_directive, line)
                     if include_match:
                         # Comment out include statements
                         output.write(self.disabled_prefix + line)
@@ -150,6 +152,9 @@ class HeaderFileManager:
                 output.write(f"// ===== End of {header_path} ====={missing_newline}\n")
 
         with open(output_file, 'w', newline='') as output:
+            # The include guards of the headers are disabled: guard the whole
+            output.write("#pragma once\n")
+
             for header in headers:
                 header = os.path.abspath(header)
                 self.create_dependency_graph(header, include_paths)
-- 
2.43.0


From 14b313ef931bb55dcc82053e94cffefb9dbb765f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:46 +0000
Subject: [PATCH 19/37] fix: operator[] of CArray checks the index before it is
 narrowed

A 64 bit index was truncated to int before the bounds check, so that an index
such as 4294967296 silently designated an element.
---
 include/shiva/common/CArray.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/shiva/common/CArray.hpp b/include/shiva/common/CArray.hpp
index 0d81841..14ae23e 100644
--- a/include/shiva/common/CArray.hpp
+++ b/include/shiva/common/CArray.hpp
@@ -183,7 +183,7 @@ private:
    */
   template< template< int ... > typename CARRAY_TYPE >
   SHIVA_CONSTEXPR_HOSTDEVICE_FORCEINLINE
-  decltype(auto) squareBracketOperatorHelper( index_type index ) const;
+  decltype(auto) squareBracketOperatorHelper( intmax_t const index ) const;
 
 public:
   /**
@@ -192,7 +192,7 @@ public:
    * @return A reference to the data at the specified index or the subarray.
    */
   SHIVA_CONSTEXPR_HOSTDEVICE_FORCEINLINE
-  decltype(auto) operator[]( index_type index ) const
+  decltype(auto) operator[]( intmax_t const index ) const
   {
     return squareBracketOperatorHelper< SubArrayHelper::template const_type >( index );
   }
@@ -203,7 +203,7 @@ public:
    * @return A reference to the data at the specified index or the subarray.
    */
   SHIVA_CONSTEXPR_HOSTDEVICE_FORCEINLINE
-  decltype(auto) operator[]( index_type index )
+  decltype(auto) operator[]( intmax_t const index )
   {
     if constexpr ( std::is_reference_v< decltype(squareBracketOperatorHelper< SubArrayHelper::template type >( index )) > )
     {
@@ -226,7 +226,7 @@ template< typename T, typename DATA_BUFFER, int ... DIMS >
 template< template< int ... > typename CARRAY_TYPE >
 SHIVA_CONSTEXPR_HOSTDEVICE_FORCEINLINE
 decltype(auto)
-CArray< T, DATA_BUFFER, DIMS ... >::squareBracketOperatorHelper( index_type index ) const
+CArray< T, DATA_BUFFER, DIMS ... >::squareBracketOperatorHelper( intmax_t const index ) const
 {
   static_assert( sizeof...(DIMS) >= 1, "operator[] is only valid for sizeof...(DIMS) >= 1" );
 
-- 
2.43.0


From 91da1c411fc1de4b21283489b00cf3b241926460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 20/37] fix: genericKernelWrapper names the HIP copy direction
 in a HIP build

---
 include/shiva/common/pmpl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/shiva/common/pmpl.hpp b/include/shiva/common/pmpl.hpp
index 08282bd..d84b3eb 100644
--- a/include/shiva/common/pmpl.hpp
+++ b/include/shiva/common/pmpl.hpp
@@ -37,6 +37,7 @@ namespace shiva
 #define deviceError_t cudaError_t
 #define deviceGetErrorString    cudaGetErrorString
 #define deviceMemcpyDeviceToHost cudaMemcpyDeviceToHost
+#define deviceMemcpyHostToDevice cudaMemcpyHostToDevice
 constexpr cudaError_t deviceSuccess = cudaSuccess;
 #elif defined(SHIVA_ENABLE_HIP)
 #define deviceMalloc( PTR, BYTES ) hipMalloc( PTR, BYTES );
@@ -47,6 +48,7 @@ constexpr cudaError_t deviceSuccess = cudaSuccess;
 #define deviceError_t hipError_t
 #define deviceGetErrorString    hipGetErrorString
 #define deviceMemcpyDeviceToHost hipMemcpyDeviceToHost
+#define deviceMemcpyHostToDevice hipMemcpyHostToDevice
 constexpr hipError_t deviceSuccess = hipSuccess;
 #endif
 #endif
@@ -159,7 +161,7 @@ void genericKernelWrapper( int const N, DATA_TYPE * const hostData, LAMBDA && fu
 #if defined(SHIVA_ENABLE_DEVICE)
   DATA_TYPE * deviceData;
   deviceMalloc( &deviceData, N * sizeof(DATA_TYPE) );
-  deviceMemCpy( deviceData, hostData, N * sizeof(DATA_TYPE), cudaMemcpyHostToDevice );
+  deviceMemCpy( deviceData, hostData, N * sizeof(DATA_TYPE), deviceMemcpyHostToDevice );
   // UNCRUSTIFY-OFF
   genericKernel <<< 1, 1 >>> ( std::forward< LAMBDA >( func ), deviceData );
   // UNCRUSTIFY-ON
-- 
2.43.0


From e1a3bf515d86e0ea8820f8410ed9b86883908505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:57 +0000
Subject: [PATCH 21/37] fix: genericKernelWrapper reports a kernel that could
 not be launched

---
 include/shiva/common/pmpl.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/shiva/common/pmpl.hpp b/include/shiva/common/pmpl.hpp
index d84b3eb..c8ea6eb 100644
--- a/include/shiva/common/pmpl.hpp
+++ b/include/shiva/common/pmpl.hpp
@@ -36,6 +36,7 @@ namespace shiva
 #define deviceFree( PTR ) cudaFree( PTR );
 #define deviceError_t cudaError_t
 #define deviceGetErrorString    cudaGetErrorString
+#define deviceGetLastError      cudaGetLastError
 #define deviceMemcpyDeviceToHost cudaMemcpyDeviceToHost
 #define deviceMemcpyHostToDevice cudaMemcpyHostToDevice
 constexpr cudaError_t deviceSuccess = cudaSuccess;
@@ -47,6 +48,7 @@ constexpr cudaError_t deviceSuccess = cudaSuccess;
 #define deviceFree( PTR ) hipFree( PTR );
 #define deviceError_t hipError_t
 #define deviceGetErrorString    hipGetErrorString
+#define deviceGetLastError      hipGetLastError
 #define deviceMemcpyDeviceToHost hipMemcpyDeviceToHost
 #define deviceMemcpyHostToDevice hipMemcpyHostToDevice
 constexpr hipError_t deviceSuccess = hipSuccess;
@@ -102,10 +104,15 @@ template< typename LAMBDA >
 void genericKernelWrapper( LAMBDA && func, bool const abortOnError = true )
 {
 #if defined(SHIVA_ENABLE_DEVICE)
+  deviceGetLastError();   // forget an earlier error, so that only this launch is judged
   // UNCRUSTIFY-OFF
   genericKernel <<< 1, 1 >>> ( std::forward< LAMBDA >( func ) );
   // UNCRUSTIFY-ON
-  deviceError_t err = deviceDeviceSynchronize();
+  deviceError_t err = deviceGetLastError();   // a kernel that could not be launched
+  if ( err == deviceSuccess )
+  {
+    err = deviceDeviceSynchronize();
+  }
   if ( err != deviceSuccess )
   {
     printf( "Kernel failed: %s\n", deviceGetErrorString( err ));
@@ -162,10 +169,15 @@ void genericKernelWrapper( int const N, DATA_TYPE * const hostData, LAMBDA && fu
   DATA_TYPE * deviceData;
   deviceMalloc( &deviceData, N * sizeof(DATA_TYPE) );
   deviceMemCpy( deviceData, hostData, N * sizeof(DATA_TYPE), deviceMemcpyHostToDevice );
+  deviceGetLastError();   // forget an earlier error, so that only this launch is judged
   // UNCRUSTIFY-OFF
   genericKernel <<< 1, 1 >>> ( std::forward< LAMBDA >( func ), deviceData );
   // UNCRUSTIFY-ON
-  deviceError_t err = deviceDeviceSynchronize();
+  deviceError_t err = deviceGetLastError();   // a kernel that could not be launched
+  if ( err == deviceSuccess )
+  {
+    err = deviceDeviceSynchronize();
+  }
   deviceMemCpy( hostData, deviceData, N * sizeof(DATA_TYPE), deviceMemcpyDeviceToHost );
   deviceFree( deviceData );
   if ( err != deviceSuccess )
-- 
2.43.0


From 8a29e7ccca2ac3ee47b1589e3570697cd18e51c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:24 +0000
Subject: [PATCH 22/37] fix: genericKernelWrapper reports device memory that
 could not be allocated or copied

---
 include/shiva/common/pmpl.hpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/shiva/common/pmpl.hpp b/include/shiva/common/pmpl.hpp
index c8ea6eb..9d85d0c 100644
--- a/include/shiva/common/pmpl.hpp
+++ b/include/shiva/common/pmpl.hpp
@@ -166,19 +166,28 @@ void genericKernelWrapper( int const N, DATA_TYPE * const hostData, LAMBDA && fu
 {
 
 #if defined(SHIVA_ENABLE_DEVICE)
-  DATA_TYPE * deviceData;
-  deviceMalloc( &deviceData, N * sizeof(DATA_TYPE) );
-  deviceMemCpy( deviceData, hostData, N * sizeof(DATA_TYPE), deviceMemcpyHostToDevice );
-  deviceGetLastError();   // forget an earlier error, so that only this launch is judged
-  // UNCRUSTIFY-OFF
-  genericKernel <<< 1, 1 >>> ( std::forward< LAMBDA >( func ), deviceData );
-  // UNCRUSTIFY-ON
-  deviceError_t err = deviceGetLastError();   // a kernel that could not be launched
+  DATA_TYPE * deviceData = nullptr;
+  deviceError_t err = deviceMalloc( &deviceData, N * sizeof(DATA_TYPE) );
+  if ( err == deviceSuccess )
+  {
+    err = deviceMemCpy( deviceData, hostData, N * sizeof(DATA_TYPE), deviceMemcpyHostToDevice );
+  }
+  if ( err == deviceSuccess )
+  {
+    deviceGetLastError();   // forget an earlier error, so that only this launch is judged
+    // UNCRUSTIFY-OFF
+    genericKernel <<< 1, 1 >>> ( std::forward< LAMBDA >( func ), deviceData );
+    // UNCRUSTIFY-ON
+    err = deviceGetLastError();   // a kernel that could not be launched
+  }
   if ( err == deviceSuccess )
   {
     err = deviceDeviceSynchronize();
   }
-  deviceMemCpy( hostData, deviceData, N * sizeof(DATA_TYPE), deviceMemcpyDeviceToHost );
+  if ( err == deviceSuccess )
+  {
+    err = deviceMemCpy( hostData, deviceData, N * sizeof(DATA_TYPE), deviceMemcpyDeviceToHost );
+  }
   deviceFree( deviceData );
   if ( err != deviceSuccess )
   {
-- 
2.43.0


From 6c601d28d10a39d33aa0e36b840f109dd3b9a715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:24 +0000
Subject: [PATCH 23/37] fix: shivaAssertionFailed does not use its message as a
 format without arguments on a device

---
 include/shiva/common/ShivaErrorHandling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/shiva/common/ShivaErrorHandling.hpp b/include/shiva/common/ShivaErrorHandling.hpp
index b3d885d..1fee9bb 100644
--- a/include/shiva/common/ShivaErrorHandling.hpp
+++ b/include/shiva/common/ShivaErrorHandling.hpp
@@ -33,7 +33,7 @@ void shivaAssertionFailed( const char * file, int line, bool const callAbort, co
 {
 #if defined(__CUDA_ARCH__) || defined(__HIP_DEVICE_COMPILE__)
   printf( "Assertion failed [%s:%d]: ", file, line );
-  printf( fmt );
+  printf( "%s", fmt );   // the arguments do not reach the device: print the format as it is
   printf( "\n" );
 #if defined(__CUDA_ARCH__)
   __trap();
-- 
2.43.0


From eac8f059130dad3d0b1394d7f7c3e26c50ba4df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:36 +0000
Subject: [PATCH 24/37] fix: shivaAssertionFailed traps on a device only when
 asked to abort

---
 include/shiva/common/ShivaErrorHandling.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/shiva/common/ShivaErrorHandling.hpp b/include/shiva/common/ShivaErrorHandling.hpp
index 1fee9bb..09e65f0 100644
--- a/include/shiva/common/ShivaErrorHandling.hpp
+++ b/include/shiva/common/ShivaErrorHandling.hpp
@@ -35,11 +35,14 @@ void shivaAssertionFailed( const char * file, int line, bool const callAbort, co
   printf( "Assertion failed [%s:%d]: ", file, line );
   printf( "%s", fmt );   // the arguments do not reach the device: print the format as it is
   printf( "\n" );
+  if( callAbort )
+  {
 #if defined(__CUDA_ARCH__)
-  __trap();
+    __trap();
 #elif defined(__HIP_DEVICE_COMPILE__)
-  __builtin_trap();
+    __builtin_trap();
 #endif
+  }
 #else // Host
   fprintf( stderr, "Assertion failed [%s:%d]: ", file, line );
   va_list args;
-- 
2.43.0


From 6f08a7f3ae9cc78d134bbce58c3236bfc1c61521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:18 +0000
Subject: [PATCH 25/37] fix: genericKernelWrapper reports a failed kernel on
 stderr

The report was printed to stdout, where std::abort discards it unless
stdout happens to be a terminal.
---
 include/shiva/common/pmpl.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/shiva/common/pmpl.hpp b/include/shiva/common/pmpl.hpp
index 9d85d0c..931e0e5 100644
--- a/include/shiva/common/pmpl.hpp
+++ b/include/shiva/common/pmpl.hpp
@@ -115,11 +115,11 @@ void genericKernelWrapper( LAMBDA && func, bool const abortOnError = true )
   }
   if ( err != deviceSuccess )
   {
-    printf( "Kernel failed: %s\n", deviceGetErrorString( err ));
+    fprintf( stderr, "Kernel failed: %s\n", deviceGetErrorString( err ));
     if ( abortOnError )
     {
       // LCOV_EXCL_START
-      printf( "Aborting...\n" );
+      fprintf( stderr, "Aborting...\n" );
       std::abort();
       // LCOV_EXCL_STOP
     }
@@ -191,11 +191,11 @@ void genericKernelWrapper( int const N, DATA_TYPE * const hostData, LAMBDA && fu
   deviceFree( deviceData );
   if ( err != deviceSuccess )
   {
-    printf( "Kernel failed: %s\n", deviceGetErrorString( err ));
+    fprintf( stderr, "Kernel failed: %s\n", deviceGetErrorString( err ));
     if ( abortOnError )
     {
       // LCOV_EXCL_START
-      printf( "Aborting...\n" );
+      fprintf( stderr, "Aborting...\n" );
       std::abort();
       // LCOV_EXCL_STOP
     }
-- 
2.43.0


From 1a286cbfc0995f672700fedbb259bd9be514decc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:07 +0000
Subject: [PATCH 26/37] fix: config-build.py passes paths and arguments to
 CMake unchanged

They were pasted into a shell command line, which splits them at spaces and
interprets ; $ * and quotes, as in -DCMAKE_PREFIX_PATH=a;b.
---
 scripts/config-build.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/scripts/config-build.py b/scripts/config-build.py
index a345ac7..66c7793 100755
--- a/scripts/config-build.py
+++ b/scripts/config-build.py
@@ -8,6 +8,7 @@ import os
 import subprocess
 import argparse
 import platform
+import shlex
 import shutil
 
 def extract_cmake_location(file_path):
@@ -137,11 +138,11 @@ cmakeline = "cmake"
 assert cmakeline, "Host config file doesn't contain valid cmake location, value was %s" % cmakeline
 
 # Add cache file option
-cmakeline += " -C %s" % cachefile
+cmakeline += " -C %s" % shlex.quote(cachefile)
 # Add build type (opt or debug)
 cmakeline += " -DCMAKE_BUILD_TYPE=" + args.buildtype
 # Set install dir
-cmakeline += " -DCMAKE_INSTALL_PREFIX=%s" % installpath
+cmakeline += " -DCMAKE_INSTALL_PREFIX=%s" % shlex.quote(installpath)
 
 if args.exportcompilercommands:
     cmakeline += " -DCMAKE_EXPORT_COMPILE_COMMANDS=on"
@@ -161,9 +162,9 @@ if args.graphviz:
 
 
 if unknown_args:
-    cmakeline += " " + " ".join( unknown_args )
+    cmakeline += " " + " ".join( shlex.quote(a) for a in unknown_args )
 
-cmakeline += " %s/.. " % scriptsdir
+cmakeline += " %s/.. " % shlex.quote(scriptsdir)
 
 # Dump the cmake command to file for convenience
 cmdfile = open("%s/cmake_cmd" % buildpath, "w")
-- 
2.43.0


From 70c05d521215ff96b7a3033bd15cff009918f4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:11 +0000
Subject: [PATCH 27/37] fix: config-build.py reports a failed CMake run in its
 exit status

subprocess.call does not raise when the command fails, so the script ended
with status 0 whatever happened, and callers such as the CI script went on.
---
 scripts/config-build.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/scripts/config-build.py b/scripts/config-build.py
index 66c7793..1d34098 100755
--- a/scripts/config-build.py
+++ b/scripts/config-build.py
@@ -181,11 +181,9 @@ print("Changing to build directory...")
 os.chdir(buildpath)
 print("Executing cmake line: '%s'\n" % cmakeline)
 
-try:
-    subprocess.call(cmakeline,shell=True)
-    if args.graphviz:
-        subprocess.call(dot_line, shell=True)
-except:
+status = subprocess.call(cmakeline,shell=True)
+if status != 0:
     print("CMake failed.  See above output for details.")
     sys.exit(1)
-
+if args.graphviz:
+    subprocess.call(dot_line, shell=True)
-- 
2.43.0


From 483acc08081fa659dcd0a2baa9a3a9a55d510c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:47 +0000
Subject: [PATCH 28/37] fix: aggregateOrSplit.py keeps the bytes of headers in
 any encoding and locale

---
 scripts/aggregateOrSplit.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/scripts/aggregateOrSplit.py b/scripts/aggregateOrSplit.py
index 8a7428f..57b6f49 100644
--- a/scripts/aggregateOrSplit.py
+++ b/scripts/aggregateOrSplit.py
@@ -14,6 +14,7 @@ class HeaderFileManager:
         self.disabled_prefix = "//aggregated: "  # Marks lines that were commented out by aggregate
         self.missing_newline = " (no newline at end of file)"  # Marks headers whose last line is not terminated
         self.reserved_line = r'// ===== (Start|End) of |//aggregated: '  # Lines with a meaning to split
+        self.text = {'encoding': 'utf-8', 'errors': 'surrogateescape'}  # Keeps every byte, in any locale
 
     def create_dependency_graph(self, header, include_paths=None):
         """
@@ -34,7 +35,7 @@ class HeaderFileManager:
         base_path = os.path.dirname(header)  # Base directory of the current header
 
         try:
-            with open(header, 'r') as file:
+            with open(header, 'r', **self.text) as file:
                 for line in file:
                     include_match = re.match(self.include_directive, line)
                     if include_match:
@@ -128,7 +129,7 @@ class HeaderFileManager:
                 return  # Avoid duplicate processing
             self.included.add(header_path)
 
-            with open(header_path, 'r', newline='') as file:
+            with open(header_path, 'r', newline='', **self.text) as file:
                 output.write(f"\n\n// ===== Start of {header_path} =====\n")
                 line = '\n'
                 for line in file:
@@ -151,7 +152,7 @@ class HeaderFileManager:
                 output.write('\n' if missing_newline else '')
                 output.write(f"// ===== End of {header_path} ====={missing_newline}\n")
 
-        with open(output_file, 'w', newline='') as output:
+        with open(output_file, 'w', newline='', **self.text) as output:
             # The include guards of the headers are disabled: guard the whole
             output.write("#pragma once\n")
 
@@ -178,7 +179,7 @@ class HeaderFileManager:
         output = None
         pending = ''  # The line read last, not written yet
 
-        with open(aggregated_file, 'r', newline='') as agg_file:
+        with open(aggregated_file, 'r', newline='', **self.text) as agg_file:
             for line in agg_file:
                 start_match = re.match(r'// ===== Start of (.+) =====', line)
                 end_match = re.match(r'// ===== End of (.+) =====', line)
@@ -190,7 +191,7 @@ class HeaderFileManager:
                     # The recorded paths are absolute: recreate them below output_dir
                     output_path = os.path.join(output_dir, current_file.lstrip(os.sep))
                     os.makedirs(os.path.dirname(output_path), exist_ok=True)
-                    output = open(output_path, 'w', newline='')
+                    output = open(output_path, 'w', newline='', **self.text)
                     pending = ''
                 elif end_match:
                     if output:
-- 
2.43.0


From 020f520d3edd9dbc4ddba1bbdc332e3b59b8fd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:19 +0000
Subject: [PATCH 29/37] fix: the installed package offers the same target names
 as a subproject

---
 CMakeLists.txt             | 1 +
 cmake/ShivaConfig.cmake.in | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/CMakeLists.txt b/CMakeLists.txt
index ef4ae26..b0e11a3 100644
--- a/CMakeLists.txt
+++ b/CMakeLists.txt
@@ -40,6 +40,7 @@ include( "${CMAKE_CURRENT_LIST_DIR}/cmake/Config.cmake" )
 # -------- Header-only target ---------------------------------------------------
 add_library(Shiva INTERFACE)
 add_library(Shiva::shiva ALIAS Shiva)
+add_library(Shiva::Shiva ALIAS Shiva)
 
 target_include_directories( Shiva INTERFACE
                             "$<BUILD_INTERFACE:${SHIVA_SOURCE_DIR}/include>"   # include/shiva/...
diff --git a/cmake/ShivaConfig.cmake.in b/cmake/ShivaConfig.cmake.in
index 5310614..06d4ebd 100644
--- a/cmake/ShivaConfig.cmake.in
+++ b/cmake/ShivaConfig.cmake.in
@@ -8,5 +8,10 @@ include(CMakeFindDependencyMacro)
 # Import the exported targets for this package
 include("${CMAKE_CURRENT_LIST_DIR}/ShivaTargets.cmake")
 
+# The name that the targets have when Shiva is a subproject
+if( NOT TARGET Shiva::shiva )
+  add_library( Shiva::shiva ALIAS Shiva::Shiva )
+endif()
+
 # (Optional) convenience vars
 set(Shiva_INCLUDE_DIRS "${PACKAGE_PREFIX_DIR}/@CMAKE_INSTALL_INCLUDEDIR@")
-- 
2.43.0


From 2f3c709bfbb93732dcb337fb53e4f1bc9e5213a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:19 +0000
Subject: [PATCH 30/37] fix: Shiva_INCLUDE_DIRS names an absolute
 CMAKE_INSTALL_INCLUDEDIR correctly

---
 CMakeLists.txt             | 3 ++-
 cmake/ShivaConfig.cmake.in | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/CMakeLists.txt b/CMakeLists.txt
index b0e11a3..f07aa6a 100644
--- a/CMakeLists.txt
+++ b/CMakeLists.txt
@@ -116,7 +116,8 @@ write_basic_package_version_file( "${CMAKE_CURRENT_BINARY_DIR}/ShivaConfigVersio
 
 configure_package_config_file( "${CMAKE_CURRENT_LIST_DIR}/cmake/ShivaConfig.cmake.in"
                                "${CMAKE_CURRENT_BINARY_DIR}/ShivaConfig.cmake"
-                               INSTALL_DESTINATION "${CMAKE_INSTALL_LIBDIR}/cmake/Shiva" )
+                               INSTALL_DESTINATION "${CMAKE_INSTALL_LIBDIR}/cmake/Shiva"
+                               PATH_VARS CMAKE_INSTALL_INCLUDEDIR )
 
 install( FILES "${CMAKE_CURRENT_BINARY_DIR}/ShivaConfig.cmake" "${CMAKE_CURRENT_BINARY_DIR}/ShivaConfigVersion.cmake"
          DESTINATION "${CMAKE_INSTALL_LIBDIR}/cmake/Shiva" )
diff --git a/cmake/ShivaConfig.cmake.in b/cmake/ShivaConfig.cmake.in
index 06d4ebd..bfe0bf9 100644
--- a/cmake/ShivaConfig.cmake.in
+++ b/cmake/ShivaConfig.cmake.in
@@ -14,4 +14,4 @@ if( NOT TARGET Shiva::shiva )
 endif()
 
 # (Optional) convenience vars
-set(Shiva_INCLUDE_DIRS "${PACKAGE_PREFIX_DIR}/@CMAKE_INSTALL_INCLUDEDIR@")
+set(Shiva_INCLUDE_DIRS "@PACKAGE_CMAKE_INSTALL_INCLUDEDIR@")
-- 
2.43.0


From 9141fa59f16cc2dfeb737612aeea65790d1922d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:38 +0000
Subject: [PATCH 31/37] fix: fail the coverage step if its report cannot be
 saved

---
 scripts/ci_build_and_test_in_container.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/ci_build_and_test_in_container.sh b/scripts/ci_build_and_test_in_container.sh
index d034dcf..6c060b0 100755
--- a/scripts/ci_build_and_test_in_container.sh
+++ b/scripts/ci_build_and_test_in_container.sh
@@ -67,7 +67,7 @@ fi
 if [[ "$*" == *--code-coverage* ]]; then
   or_die make -j ${NPROC} VERBOSE=1
   or_die make shiva_coverage
-  cp -r ${SHIVA_BUILD_DIR}/shiva_coverage.info.cleaned /tmp/Shiva/shiva_coverage.info.cleaned
+  or_die cp -r ${SHIVA_BUILD_DIR}/shiva_coverage.info.cleaned /tmp/Shiva/shiva_coverage.info.cleaned
 fi
 
 
-- 
2.43.0


From 0a1c86a3023fb7f63f45c1db29c05ef96c706ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:38 +0000
Subject: [PATCH 32/37] fix: static-analysis tests pass with 256 messages or
 before they are saved

The exit status was the number of lines modulo 256, counted while tee could
still be writing them.
---
 cmake/Macros.cmake | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmake/Macros.cmake b/cmake/Macros.cmake
index 7fc55ec..c3b13ae 100644
--- a/cmake/Macros.cmake
+++ b/cmake/Macros.cmake
@@ -53,14 +53,14 @@ macro(shiva_add_code_checks)
 
     if( CPPCHECK_FOUND )
         add_test( NAME testCppCheck
-                COMMAND bash -c "make cppcheck_check 2> >(tee cppcheck.err) >/dev/null && exit $(cat cppcheck.err | wc -l)"
+                COMMAND bash -c "set -o pipefail; make cppcheck_check 2>&1 >/dev/null | tee cppcheck.err && test ! -s cppcheck.err"
                 WORKING_DIRECTORY ${CMAKE_BINARY_DIR}
                 )
     endif()
 
     if( CLANGTIDY_FOUND )
         add_test( NAME testClangTidy
-                COMMAND bash -c "make clang_tidy_check 2> >(tee tidyCheck.err) >/dev/null && exit $(cat tidyCheck.err | wc -l)"
+                COMMAND bash -c "set -o pipefail; make clang_tidy_check 2>&1 >/dev/null | tee tidyCheck.err && test ! -s tidyCheck.err"
                 WORKING_DIRECTORY ${CMAKE_BINARY_DIR}
                 )
     endif()
-- 
2.43.0


From ef7cb579057a819200906f0b8891591e442e9309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:38 +0000
Subject: [PATCH 33/37] fix: code checks skip every source of a tree below a
 directory such as builder

The patterns of what is excluded were matched against absolute paths.
---
 cmake/Macros.cmake | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmake/Macros.cmake b/cmake/Macros.cmake
index c3b13ae..1d6946a 100644
--- a/cmake/Macros.cmake
+++ b/cmake/Macros.cmake
@@ -19,8 +19,9 @@ macro(shiva_add_code_checks)
         set(_sources)
         foreach(_source ${_all_sources})
             set(_to_be_excluded FALSE)
+            file(RELATIVE_PATH _relative "${CMAKE_CURRENT_SOURCE_DIR}" "${_source}")
             foreach(_exclude ${arg_EXCLUDES})
-                if (${_source} MATCHES ${_exclude})
+                if ("${_relative}" MATCHES "${_exclude}")
                     set(_to_be_excluded TRUE)
                     break()
                 endif()
-- 
2.43.0


From 4c790a3ec7920dae44d74172a2480a8e1ad6163a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:38 +0000
Subject: [PATCH 34/37] fix: path of the style file given to the code checks

---
 cmake/Macros.cmake | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmake/Macros.cmake b/cmake/Macros.cmake
index 1d6946a..0fd9308 100644
--- a/cmake/Macros.cmake
+++ b/cmake/Macros.cmake
@@ -48,7 +48,7 @@ macro(shiva_add_code_checks)
                         
     blt_add_code_checks( PREFIX    ${arg_PREFIX}
                          SOURCES   ${_sources}
-                         UNCRUSTIFY_CFG_FILE ${PROJECT_SOURCE_DIR}/src/uncrustify.cfg
+                         UNCRUSTIFY_CFG_FILE ${PROJECT_SOURCE_DIR}/include/uncrustify.cfg
                          CPPCHECK_FLAGS ${CPPCHECK_FLAGS}
                          )
 
-- 
2.43.0


From cf4a3175b59a4ce2fb5a3a6f929540d3bb4b3d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:53 +0000
Subject: [PATCH 35/37] fix: config-build.py accepts host configurations in any
 encoding

---
 scripts/config-build.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/config-build.py b/scripts/config-build.py
index 1d34098..39633b9 100755
--- a/scripts/config-build.py
+++ b/scripts/config-build.py
@@ -15,7 +15,7 @@ def extract_cmake_location(file_path):
     print("Extracting cmake entry from host config file ", file_path)
     if os.path.exists(file_path):
         cmake_line_prefix = "# cmake executable path: "
-        file_handle = open(file_path, "r")
+        file_handle = open(file_path, "r", errors="replace")
         content = file_handle.readlines()
         for line in content:
             if line.startswith(cmake_line_prefix):
-- 
2.43.0


From 0bd27749b923c80d90ac7b039b3e8b684b83abe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:22 +0000
Subject: [PATCH 36/37] fix: config-build.py checks the request before it
 deletes directories

A build or install path that is a file or a link, holds the sources or the host
configuration, or a host configuration that is a directory was found out only
after something had been deleted. A build directory inside the install directory
was deleted after it had been made.
---
 scripts/config-build.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/scripts/config-build.py b/scripts/config-build.py
index 39633b9..499ec9e 100755
--- a/scripts/config-build.py
+++ b/scripts/config-build.py
@@ -86,7 +86,7 @@ platform_info = os.path.split(cachefile)[1]
 if platform_info.endswith(".cmake"):
     platform_info = platform_info[:-6]
     
-assert os.path.exists( cachefile ), "Could not find cmake cache file '%s'." % cachefile
+assert os.path.isfile( cachefile ), "Could not find cmake cache file '%s'." % cachefile
 print("Using host config file: '%s'." % cachefile)
 
 #####################
@@ -101,33 +101,43 @@ else:
 
 buildpath = os.path.abspath(buildpath)
 
-if os.path.exists(buildpath):
-#    sys.exit("Build directory '%s' already exists, exiting...")
-     print("Build directory '%s' already exists.  Deleting..." % buildpath)
-     shutil.rmtree(buildpath)
-
-print("Creating build directory '%s'..." % buildpath)
-os.makedirs(buildpath)
-
 #####################
 # Setup Install Dir
 #####################
 # For install directory, we will clean up old ones, but we don't need to create it, cmake will do that.
 if args.installpath != "":
-    installpath = os.path.abspath(args.installpath)
+    installpath = args.installpath
 else:
     # use platform info & build type
     installpath = "-".join(["install",platform_info,args.buildtype.lower()])
 
 installpath = os.path.abspath(installpath)
 
+# Check everything before anything is deleted
+for path in (buildpath, installpath):
+    existing = path
+    while not os.path.lexists(existing):
+        existing = os.path.dirname(existing)
+    assert os.path.isdir(existing) and not os.path.islink(path), "'%s' is not a directory." % existing
+    for needed in (cachefile, scriptsdir):
+        directory = os.path.realpath(path)
+        assert os.path.commonpath([directory, os.path.realpath(needed)]) != directory, "Deleting '%s' would delete '%s'." % (path, needed)
+
+if os.path.exists(buildpath):
+#    sys.exit("Build directory '%s' already exists, exiting...")
+     print("Build directory '%s' already exists.  Deleting..." % buildpath)
+     shutil.rmtree(buildpath)
+
 if os.path.exists(installpath):
 #    sys.exit("Install directory '%s' already exists, exiting...")
      print("Install directory '%s' already exists, deleting..." % installpath)
      shutil.rmtree(installpath)
 
+print("Creating build directory '%s'..." % buildpath)
+os.makedirs(buildpath)
+
 print("Creating install path '%s'..." % installpath)
-os.makedirs(installpath)
+os.makedirs(installpath, exist_ok=True)
 
 ############################
 # Build CMake command line
-- 
2.43.0


From 299f268227fbfaffe4adaf35ab18133f94c26c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:34 +0000
Subject: [PATCH 37/37] fix: compare_uncrustify.py cuts quoted values at a #

---
 scripts/compare_uncrustify.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/compare_uncrustify.py b/scripts/compare_uncrustify.py
index 01f8d74..a455534 100644
--- a/scripts/compare_uncrustify.py
+++ b/scripts/compare_uncrustify.py
@@ -1,3 +1,4 @@
+import re
 import sys
 
 def read_uncrustify_config(filename):
@@ -10,7 +11,9 @@ def read_uncrustify_config(filename):
                 key_value = line.split('=', 1)
                 if len(key_value) == 2:
                     key, value = key_value
-                    config[key.strip()] = value.split('#')[0].strip()
+                    # A # within quotes does not start a comment
+                    value = re.match(r'\s*("[^"]*"|[^#]*)', value).group(1)
+                    config[key.strip()] = value.strip()
                 elif len(key_value) == 1:
                     key = key_value[0]
                     config[key.strip()] = ''
-- 
2.43.0

