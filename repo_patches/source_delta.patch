From f6f7091e32ee604d2244f96550d8668eaefb39de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:07 +0000
Subject: [PATCH 01/15] fix: row-major strides of MultiIndexRange use the
 extents after the index

---
 include/shiva/common/IndexTypes.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/shiva/common/IndexTypes.hpp b/include/shiva/common/IndexTypes.hpp
index 83cb158..1eb8bd5 100644
--- a/include/shiva/common/IndexTypes.hpp
+++ b/include/shiva/common/IndexTypes.hpp
@@ -60,10 +60,10 @@ stride( MultiIndexRange< BASE_INDEX_TYPE, RANGES... > const & index )
 
   // call strideHelper on an integer_sequence that ranges from 0...(NUM_INDICES
   // - 1 - INDEX).
-  // This will result in a fold expression that multiples entries of the ranges
-  // array for the integer_sequence.
+  // This will result in a fold expression that multiples the entries of the
+  // ranges array that follow INDEX.
   return detail::strideHelper( std::make_integer_sequence< int, (IndexType::NUM_INDICES - 1) - INDEX >{},
-                               &(index.ranges[0]) );
+                               index.ranges + ( INDEX + 1 ) );
 }
 
 /**
-- 
2.43.0


From c8a546b1b888418d531409eb9a926d48bf7d5ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:30 +0000
Subject: [PATCH 02/15] fix: LinearTransform::setData strides follow the number
 of support points

---
 include/shiva/geometry/mapping/LinearTransform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/shiva/geometry/mapping/LinearTransform.hpp b/include/shiva/geometry/mapping/LinearTransform.hpp
index 63e78e3..77243c4 100644
--- a/include/shiva/geometry/mapping/LinearTransform.hpp
+++ b/include/shiva/geometry/mapping/LinearTransform.hpp
@@ -121,7 +121,7 @@ public:
 
       for ( int i = 0; i < numDims; ++i )
       {
-        m_vertexCoords( a, b, c, i ) = coords[a + 2 * b + 4 * c][i];
+        m_vertexCoords( a, b, c, i ) = coords[a + SupportIndexType::range( 0 ) * ( b + SupportIndexType::range( 1 ) * c )][i];
       }
     } );
   }
-- 
2.43.0


From e34ae00fb0daf8d5c385e327130cb3ffcd74ee73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:33 +0000
Subject: [PATCH 03/15] fix: LinearTransform jacobian overwrites its output
 instead of accumulating into it

---
 include/shiva/geometry/mapping/LinearTransform.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/shiva/geometry/mapping/LinearTransform.hpp b/include/shiva/geometry/mapping/LinearTransform.hpp
index 77243c4..b27da8d 100644
--- a/include/shiva/geometry/mapping/LinearTransform.hpp
+++ b/include/shiva/geometry/mapping/LinearTransform.hpp
@@ -168,6 +168,12 @@ jacobian( LinearTransform< REAL_TYPE, INTERPOLATED_SHAPE > const & transform,
   constexpr int DIMS = Transform::numDims;
 
   auto const & nodeCoords = transform.getData();
+  // J is an output argument: discard its previous contents before accumulating.
+  forNestedSequence< DIMS, DIMS >( [&] ( auto const ici, auto const icj ) constexpr
+  {
+    J( decltype(ici)::value, decltype(icj)::value ) = 0;
+  } );
+
   InterpolatedShape::supportLoop( [&] ( auto const ... ic_spIndices ) constexpr
   {
     CArrayNd< REAL_TYPE, DIMS > const dNadXi = InterpolatedShape::template gradient< decltype(ic_spIndices)::value ... >( pointCoordsParent );
@@ -215,6 +221,12 @@ jacobian( LinearTransform< REAL_TYPE, INTERPOLATED_SHAPE > const & transform,
   auto const & nodeCoords = transform.getData();
   constexpr REAL_TYPE qcoords[3] = { ( QUADRATURE::template coordinate< QA >() )... };
 
+  // J is an output argument: discard its previous contents before accumulating.
+  forNestedSequence< DIMS, DIMS >( [&] ( auto const ici, auto const icj ) constexpr
+  {
+    J( decltype(ici)::value, decltype(icj)::value ) = 0;
+  } );
+
   InterpolatedShape::supportLoop( [&] ( auto const ... ic_spIndices ) constexpr
   {
     constexpr CArrayNd< REAL_TYPE, DIMS > dNadXi = InterpolatedShape::template gradient< decltype(ic_spIndices)::value ... >( qcoords );
-- 
2.43.0


From ac27289babf6935e9f547c25e00c3b109621c934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:37 +0000
Subject: [PATCH 04/15] fix: run-time Gauss-Lobatto coordinates for 6 to 9
 points

---
 include/shiva/functions/spacing/Spacing.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/shiva/functions/spacing/Spacing.hpp b/include/shiva/functions/spacing/Spacing.hpp
index 8f5ca29..4c8b425 100644
--- a/include/shiva/functions/spacing/Spacing.hpp
+++ b/include/shiva/functions/spacing/Spacing.hpp
@@ -184,6 +184,26 @@ struct GaussLobattoSpacing
       // if ( index == 3 ) return  sqrt3div7;
       // if ( index == 4 ) return  1.0;
     }
+    else if constexpr ( N == 6 )
+    {
+      constexpr REAL_TYPE rval[6] = { coordinate< 0 >(), coordinate< 1 >(), coordinate< 2 >(), coordinate< 3 >(), coordinate< 4 >(), coordinate< 5 >() };
+      return rval[index];
+    }
+    else if constexpr ( N == 7 )
+    {
+      constexpr REAL_TYPE rval[7] = { coordinate< 0 >(), coordinate< 1 >(), coordinate< 2 >(), coordinate< 3 >(), coordinate< 4 >(), coordinate< 5 >(), coordinate< 6 >() };
+      return rval[index];
+    }
+    else if constexpr ( N == 8 )
+    {
+      constexpr REAL_TYPE rval[8] = { coordinate< 0 >(), coordinate< 1 >(), coordinate< 2 >(), coordinate< 3 >(), coordinate< 4 >(), coordinate< 5 >(), coordinate< 6 >(), coordinate< 7 >() };
+      return rval[index];
+    }
+    else if constexpr ( N == 9 )
+    {
+      constexpr REAL_TYPE rval[9] = { coordinate< 0 >(), coordinate< 1 >(), coordinate< 2 >(), coordinate< 3 >(), coordinate< 4 >(), coordinate< 5 >(), coordinate< 6 >(), coordinate< 7 >(), coordinate< 8 >() };
+      return rval[index];
+    }
     return 0;
   }
 
-- 
2.43.0


From b861500a727b2abc64803a7c6643eaea186af01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 05/15] fix: NCube::numMCubes no longer overflows an
 intermediate product for N >= 10

---
 include/shiva/geometry/shapes/NCube.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/shiva/geometry/shapes/NCube.hpp b/include/shiva/geometry/shapes/NCube.hpp
index dc1b370..6366e17 100644
--- a/include/shiva/geometry/shapes/NCube.hpp
+++ b/include/shiva/geometry/shapes/NCube.hpp
@@ -76,7 +76,7 @@ public:
   SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE int numMCubes()
   {
     static_assert( M <= N, "M must be less than or equal to N" );
-    return mathUtilities::pow< int, N - M >( 2 ) * mathUtilities::factorial< int, N >::value / ( mathUtilities::factorial< int, M >::value * mathUtilities::factorial< int, N - M >::value );
+    return mathUtilities::pow< int, N - M >( 2 ) * mathUtilities::binomialCoefficient< int, N, M >::value;
   }
 
   /**
-- 
2.43.0


From aced205bd9416d7d2274cbfa26dcdbc16c228527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:36 +0000
Subject: [PATCH 06/15] fix: C++20 code paths of BasisProduct and LagrangeBasis
 compile

---
 include/shiva/functions/bases/BasisProduct.hpp  | 4 ++--
 include/shiva/functions/bases/LagrangeBasis.hpp | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/shiva/functions/bases/BasisProduct.hpp b/include/shiva/functions/bases/BasisProduct.hpp
index 2e19417..e072e52 100644
--- a/include/shiva/functions/bases/BasisProduct.hpp
+++ b/include/shiva/functions/bases/BasisProduct.hpp
@@ -94,7 +94,7 @@ struct BasisProduct
     // expand pack over number of dimensions
     return executeSequence< numDims >( [&]< int ... PRODUCT_TERM_INDEX > () constexpr
     {
-      return ( BASIS_TYPE::template value< BASIS_FUNCTION_INDICES >( parentCoord[PRODUCT_TERM_INDEX] ) * ... );
+      return ( BASIS_TYPES::template value< BASIS_FUNCTION_INDICES >( parentCoord[PRODUCT_TERM_INDEX] ) * ... );
     } );
 #else
     return executeSequence< numDims >( [&] ( auto ... PRODUCT_TERM_INDEX ) constexpr
@@ -142,7 +142,7 @@ struct BasisProduct
         return ( gradientComponentHelper< BASIS_TYPES,
                                           decltype(iGrad)::value,
                                           BASIS_FUNCTION_INDICES,
-                                          PRODUCT_TERM_INDICES >( parentCoord ) * ... );
+                                          decltype(PRODUCT_TERM_INDICES)::value >( parentCoord ) * ... );
       };
 
       return { (executeSequence< numDims >( gradientComponent, std::integral_constant< int, i >{} ) )...  };
diff --git a/include/shiva/functions/bases/LagrangeBasis.hpp b/include/shiva/functions/bases/LagrangeBasis.hpp
index 9330885..b65b6ae 100644
--- a/include/shiva/functions/bases/LagrangeBasis.hpp
+++ b/include/shiva/functions/bases/LagrangeBasis.hpp
@@ -119,10 +119,11 @@ public:
 #if __cplusplus >= 202002L
     return executeSequence< numSupportPoints >( [&coord]< int ... a > () constexpr
     {
-      auto func = [&coord]< int ... b > ( auto aa ) constexpr
+      REAL_TYPE const values[ numSupportPoints ] = { valueProductTerm< BF_INDEX, a >( coord )... };
+      auto func = [&values]< int ... b > ( auto aa ) constexpr
       {
         constexpr int aVal = decltype(aa)::value;
-        return gradientOfValueTerm< BF_INDEX, aVal >() * ( valueProductFactor< BF_INDEX, b, aVal >( coord ) * ... );
+        return gradientOfValueTerm< BF_INDEX, aVal >() * ( valueProductFactor< b, aVal >( values ) * ... );
       };
 
       return ( executeSequence< numSupportPoints >( func, std::integral_constant< int, a >{} ) + ... );
-- 
2.43.0


From e716e684812c84df7a39211da1ad92b3df6d9e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:57 +0000
Subject: [PATCH 07/15] fix: multi-index strides are calculated in the index
 type

---
 include/shiva/common/IndexTypes.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/shiva/common/IndexTypes.hpp b/include/shiva/common/IndexTypes.hpp
index 1eb8bd5..b4af25f 100644
--- a/include/shiva/common/IndexTypes.hpp
+++ b/include/shiva/common/IndexTypes.hpp
@@ -30,18 +30,19 @@ namespace detail
 
 /**
  * @brief Helper function for calculating a stride.
+ * @tparam BASE_INDEX_TYPE the type in which the stride is calculated.
  * @tparam INDICES variaic pack of the indices.
  * @param ranges The ranges.
  * @return The largest stride for the index pack.
  */
-template< int ... INDICES >
-SHIVA_CONSTEXPR_HOSTDEVICE_FORCEINLINE int
+template< typename BASE_INDEX_TYPE, int ... INDICES >
+SHIVA_CONSTEXPR_HOSTDEVICE_FORCEINLINE BASE_INDEX_TYPE
 strideHelper( std::integer_sequence< int, INDICES... >,
               int const * const ranges )
 {
   // return result of a fold expression that multiples all entries of the ranges
   // array
-  return ( ranges[INDICES] * ... *1);
+  return ( static_cast< BASE_INDEX_TYPE >( ranges[INDICES] ) * ... * static_cast< BASE_INDEX_TYPE >( 1 ) );
 }
 
 /**
@@ -62,8 +63,8 @@ stride( MultiIndexRange< BASE_INDEX_TYPE, RANGES... > const & index )
   // - 1 - INDEX).
   // This will result in a fold expression that multiples the entries of the
   // ranges array that follow INDEX.
-  return detail::strideHelper( std::make_integer_sequence< int, (IndexType::NUM_INDICES - 1) - INDEX >{},
-                               index.ranges + ( INDEX + 1 ) );
+  return detail::strideHelper< BASE_INDEX_TYPE >( std::make_integer_sequence< int, (IndexType::NUM_INDICES - 1) - INDEX >{},
+                                                  index.ranges + ( INDEX + 1 ) );
 }
 
 /**
-- 
2.43.0


From 729f6bbe1d50fc44d1a5c07835f778ecd9121ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:23 +0000
Subject: [PATCH 08/15] fix: by-value Jacobians and element gradients compile
 in single precision with clang

---
 .../finiteElementMethod/parentElements/ParentElement.hpp      | 2 +-
 include/shiva/geometry/mapping/JacobianTransforms.hpp         | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp b/include/shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp
index 20c8a99..f2d2ea9 100644
--- a/include/shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp
+++ b/include/shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp
@@ -128,7 +128,7 @@ public:
   SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE CArrayNd< RealType, numDims >
   gradient( CoordType const & parentCoord, VAR_TYPE const & var )
   {
-    CArrayNd< RealType, numDims > rval = {0.0};
+    CArrayNd< RealType, numDims > rval = { RealType( 0 ) };
     forNestedSequence< BASIS_TYPE::numSupportPoints... >( [&] ( auto const ... ic_indices ) constexpr
     {
       CArrayNd< RealType, numDims > const grad = gradient< decltype(ic_indices)::value ... >( parentCoord );
diff --git a/include/shiva/geometry/mapping/JacobianTransforms.hpp b/include/shiva/geometry/mapping/JacobianTransforms.hpp
index 2b533f5..772eddf 100644
--- a/include/shiva/geometry/mapping/JacobianTransforms.hpp
+++ b/include/shiva/geometry/mapping/JacobianTransforms.hpp
@@ -48,7 +48,7 @@ SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE auto
 jacobian( BASE_GEOMETRY const & cell,
           REAL_TYPE const (&parentCoords)[3] )
 {
-  typename BASE_GEOMETRY::JacobianType J{0.0 };
+  typename BASE_GEOMETRY::JacobianType J{ REAL_TYPE( 0 ) };
   jacobian( cell, parentCoords, J );
   return J;
 }
@@ -58,7 +58,7 @@ SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE auto
 inverseJacobian( BASE_GEOMETRY const & cell,
                  REAL_TYPE const (&parentCoords)[3] )
 {
-  typename BASE_GEOMETRY::JacobianType invJ{ 0.0 };
+  typename BASE_GEOMETRY::JacobianType invJ{ REAL_TYPE( 0 ) };
   REAL_TYPE detJ;
   inverseJacobian( cell, parentCoords, invJ, detJ );
   return make_tuple( detJ, invJ );
-- 
2.43.0


From 700879413319ee0b1fd3b0ae76560835236bd8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:18 +0000
Subject: [PATCH 09/15] fix: splitting an aggregate writes below the output
 directory, not over the recorded headers

---
 scripts/aggregateOrSplit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/aggregateOrSplit.py b/scripts/aggregateOrSplit.py
index 251174e..610b613 100644
--- a/scripts/aggregateOrSplit.py
+++ b/scripts/aggregateOrSplit.py
@@ -171,7 +171,10 @@ class HeaderFileManager:
                     if output:
                         output.close()
                     current_file = start_match.group(1)
-                    output = open(os.path.join(output_dir, current_file), 'w')
+                    # the recorded path is absolute: recreate it below output_dir
+                    output_path = os.path.join(output_dir, current_file.lstrip(os.sep))
+                    os.makedirs(os.path.dirname(output_path), exist_ok=True)
+                    output = open(output_path, 'w')
                 elif end_match:
                     if output:
                         output.close()
-- 
2.43.0


From 9e3af09c282cea50d36a878938a5927e5a0fe1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:18 +0000
Subject: [PATCH 10/15] fix: aggregation skips the configuration header when it
 is included as shiva/ShivaConfig.hpp

---
 scripts/aggregateOrSplit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/aggregateOrSplit.py b/scripts/aggregateOrSplit.py
index 610b613..2d79580 100644
--- a/scripts/aggregateOrSplit.py
+++ b/scripts/aggregateOrSplit.py
@@ -35,7 +35,7 @@ class HeaderFileManager:
                     if include_match:
                         included_file = include_match.group(1)
 
-                        if included_file != self.config_file:
+                        if os.path.basename(included_file) != self.config_file:
                             resolved_path = self.resolve_path( included_file, base_path, include_paths)
 
                             if resolved_path:
-- 
2.43.0


From daeb2049142ac7efe7cbf28366e825f013bd9317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:18 +0000
Subject: [PATCH 11/15] fix: aggregation ends a header without trailing newline
 before its end marker

---
 scripts/aggregateOrSplit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/aggregateOrSplit.py b/scripts/aggregateOrSplit.py
index 2d79580..e96b7b7 100644
--- a/scripts/aggregateOrSplit.py
+++ b/scripts/aggregateOrSplit.py
@@ -136,7 +136,7 @@ class HeaderFileManager:
                         output.write(f"// {line.strip()}\n")
                     else:
                         # Write all other lines as is
-                        output.write(line)
+                        output.write(line if line.endswith("\n") else line + "\n")
                 output.write(f"// ===== End of {header_path} =====\n")
 
         with open(output_file, 'w') as output:
-- 
2.43.0


From 93b596140e787470ed34306dce2723b130d2db2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:03 +0000
Subject: [PATCH 12/15] fix: executeSequence tests invocability with the
 argument order of its call

---
 include/shiva/common/SequenceUtilities.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/shiva/common/SequenceUtilities.hpp b/include/shiva/common/SequenceUtilities.hpp
index 02eeee4..193ee13 100644
--- a/include/shiva/common/SequenceUtilities.hpp
+++ b/include/shiva/common/SequenceUtilities.hpp
@@ -127,7 +127,7 @@ struct SequenceExpansion< std::integer_sequence< int, DIMENSION_INDICES... > >
     // This checks to see if the function is invocable with the parameter pack
     // provided as a template parameter. In other words, if the FUNC is a
     // function that takes the parameter pack as a function argument.
-    if constexpr ( std::is_invocable_v< FUNC, std::integral_constant< int, DIMENSION_INDICES >..., ARGS ... > )
+    if constexpr ( std::is_invocable_v< FUNC, ARGS ..., std::integral_constant< int, DIMENSION_INDICES >... > )
     {
       // calling func with the parameter packs ( args..., DIMENSION_INDICES...)
       // as arguments.
-- 
2.43.0


From 92b6ab1ecb576b127504b3cccfdf25bb139f6065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:06 +0000
Subject: [PATCH 13/15] fix: forRange compiles for index types other than int

The loop variable was bound as int & to a component of type
BASE_INDEX_TYPE, so forRange did not compile for MultiIndexRange< long, ... >,
MultiIndexRange< unsigned, ... > and so on.
---
 include/shiva/common/IndexTypes.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/shiva/common/IndexTypes.hpp b/include/shiva/common/IndexTypes.hpp
index b4af25f..3949ec8 100644
--- a/include/shiva/common/IndexTypes.hpp
+++ b/include/shiva/common/IndexTypes.hpp
@@ -106,7 +106,7 @@ forRangeHelper( MultiIndexRange< BASE_INDEX_TYPE, RANGES... > const & start,
   // if we are at the last dimension, then call func on index
   if constexpr ( DIM == (IndexType::NUM_INDICES - 1) )
   {
-    int & a = index.data[DIM];
+    BASE_INDEX_TYPE & a = index.data[DIM];
     for ( a = start.data[DIM]; a < index.range( DIM ); ++a )
     {
       func( index );
@@ -115,7 +115,7 @@ forRangeHelper( MultiIndexRange< BASE_INDEX_TYPE, RANGES... > const & start,
   // otherwise, recurse until we get to the last index
   else
   {
-    int & a = index.data[DIM];
+    BASE_INDEX_TYPE & a = index.data[DIM];
     for ( a = start.data[DIM]; a < index.range( DIM ); ++a )
     {
       forRangeHelper< DIM + 1 >( start, index, func );
-- 
2.43.0


From 6584b6dad562a416d1d668599841919c416a529e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:22 +0000
Subject: [PATCH 14/15] fix: copy kernel data to the device with the copy kind
 of the selected back end

genericKernelWrapper named cudaMemcpyHostToDevice directly, which does not exist in a HIP build.
---
 include/shiva/common/pmpl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/shiva/common/pmpl.hpp b/include/shiva/common/pmpl.hpp
index a6f133e..4f84294 100644
--- a/include/shiva/common/pmpl.hpp
+++ b/include/shiva/common/pmpl.hpp
@@ -36,6 +36,7 @@ namespace shiva
 #define deviceFree( PTR ) cudaFree( PTR );
 #define deviceError_t cudaError_t
 #define deviceGetErrorString    cudaGetErrorString
+#define deviceMemcpyHostToDevice cudaMemcpyHostToDevice
 #define deviceMemcpyDeviceToHost cudaMemcpyDeviceToHost
 constexpr cudaError_t deviceSuccess = cudaSuccess;
 #elif defined(SHIVA_ENABLE_HIP)
@@ -46,6 +47,7 @@ constexpr cudaError_t deviceSuccess = cudaSuccess;
 #define deviceFree( PTR ) hipFree( PTR );
 #define deviceError_t hipError_t
 #define deviceGetErrorString    hipGetErrorString
+#define deviceMemcpyHostToDevice hipMemcpyHostToDevice
 #define deviceMemcpyDeviceToHost hipMemcpyDeviceToHost
 constexpr hipError_t deviceSuccess = hipSuccess;
 #endif
@@ -159,7 +161,7 @@ void genericKernelWrapper( int const N, DATA_TYPE * const hostData, LAMBDA && fu
 #if defined(SHIVA_ENABLE_DEVICE)
   DATA_TYPE * deviceData;
   deviceMalloc( &deviceData, N * sizeof(DATA_TYPE) );
-  deviceMemCpy( deviceData, hostData, N * sizeof(DATA_TYPE), cudaMemcpyHostToDevice );
+  deviceMemCpy( deviceData, hostData, N * sizeof(DATA_TYPE), deviceMemcpyHostToDevice );
   // UNCRUSTIFY-OFF
   genericKernel <<< 1, 1 >>> ( std::forward< LAMBDA >( func ), deviceData );
   // UNCRUSTIFY-ON
-- 
2.43.0


From b7256d282cbd43b502960d2f96e76975e881e27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:00 +0000
Subject: [PATCH 15/15] fix: kernel wrappers report every failing runtime call,
 refused launches included

---
 include/shiva/common/pmpl.hpp | 37 ++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/include/shiva/common/pmpl.hpp b/include/shiva/common/pmpl.hpp
index 4f84294..ace66e9 100644
--- a/include/shiva/common/pmpl.hpp
+++ b/include/shiva/common/pmpl.hpp
@@ -32,6 +32,7 @@ namespace shiva
 #define deviceMalloc( PTR, BYTES ) cudaMalloc( PTR, BYTES );
 #define deviceMallocManaged( PTR, BYTES ) cudaMallocManaged( PTR, BYTES );
 #define deviceDeviceSynchronize() cudaDeviceSynchronize();
+#define deviceGetLastError() cudaGetLastError();
 #define deviceMemCpy( DST, SRC, BYTES, KIND ) cudaMemcpy( DST, SRC, BYTES, KIND );
 #define deviceFree( PTR ) cudaFree( PTR );
 #define deviceError_t cudaError_t
@@ -43,6 +44,7 @@ constexpr cudaError_t deviceSuccess = cudaSuccess;
 #define deviceMalloc( PTR, BYTES ) hipMalloc( PTR, BYTES );
 #define deviceMallocManaged( PTR, BYTES ) hipMallocManaged( PTR, BYTES );
 #define deviceDeviceSynchronize() hipDeviceSynchronize();
+#define deviceGetLastError() hipGetLastError();
 #define deviceMemCpy( DST, SRC, BYTES, KIND ) hipMemcpy( DST, SRC, BYTES, KIND );
 #define deviceFree( PTR ) hipFree( PTR );
 #define deviceError_t hipError_t
@@ -105,7 +107,11 @@ void genericKernelWrapper( LAMBDA && func, bool const abortOnError = true )
   // UNCRUSTIFY-OFF
   genericKernel <<< 1, 1 >>> ( std::forward< LAMBDA >( func ) );
   // UNCRUSTIFY-ON
-  deviceError_t err = deviceDeviceSynchronize();
+  deviceError_t err = deviceGetLastError();
+  if ( err == deviceSuccess )
+  {
+    err = deviceDeviceSynchronize();
+  }
   if ( err != deviceSuccess )
   {
     printf( "Kernel failed: %s\n", deviceGetErrorString( err ));
@@ -159,14 +165,27 @@ void genericKernelWrapper( int const N, DATA_TYPE * const hostData, LAMBDA && fu
 {
 
 #if defined(SHIVA_ENABLE_DEVICE)
-  DATA_TYPE * deviceData;
-  deviceMalloc( &deviceData, N * sizeof(DATA_TYPE) );
-  deviceMemCpy( deviceData, hostData, N * sizeof(DATA_TYPE), deviceMemcpyHostToDevice );
-  // UNCRUSTIFY-OFF
-  genericKernel <<< 1, 1 >>> ( std::forward< LAMBDA >( func ), deviceData );
-  // UNCRUSTIFY-ON
-  deviceError_t err = deviceDeviceSynchronize();
-  deviceMemCpy( hostData, deviceData, N * sizeof(DATA_TYPE), deviceMemcpyDeviceToHost );
+  DATA_TYPE * deviceData = nullptr;
+  deviceError_t err = deviceMalloc( &deviceData, N * sizeof(DATA_TYPE) );
+  if ( err == deviceSuccess )
+  {
+    err = deviceMemCpy( deviceData, hostData, N * sizeof(DATA_TYPE), deviceMemcpyHostToDevice );
+  }
+  if ( err == deviceSuccess )
+  {
+    // UNCRUSTIFY-OFF
+    genericKernel <<< 1, 1 >>> ( std::forward< LAMBDA >( func ), deviceData );
+    // UNCRUSTIFY-ON
+    err = deviceGetLastError();
+  }
+  if ( err == deviceSuccess )
+  {
+    err = deviceDeviceSynchronize();
+  }
+  if ( err == deviceSuccess )
+  {
+    err = deviceMemCpy( hostData, deviceData, N * sizeof(DATA_TYPE), deviceMemcpyDeviceToHost );
+  }
   deviceFree( deviceData );
   if ( err != deviceSuccess )
   {
-- 
2.43.0

