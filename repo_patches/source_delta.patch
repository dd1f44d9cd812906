From 3a341fda9ba6e94704866f9d918fdcd9d132fc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:06:02 +0000
Subject: [PATCH 001/112] fix: Do not look up destroyers of unpaired creators
 in function values

Calculating a persistence diagram from a boundary matrix and a vector of
function values threw an exception for every essential class.
---
 include/aleph/persistenceDiagrams/Calculation.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/aleph/persistenceDiagrams/Calculation.hh b/include/aleph/persistenceDiagrams/Calculation.hh
index 0c58a8c..04e0ce8 100644
--- a/include/aleph/persistenceDiagrams/Calculation.hh
+++ b/include/aleph/persistenceDiagrams/Calculation.hh
@@ -93,7 +93,11 @@ PersistenceDiagram<DataType> makePersistenceDiagram( const PersistencePairing<In
     auto&& i = pair.first;
     auto&& j = pair.second;
 
-    D.add( functionValues.at(i), functionValues.at(j) );
+    // The destroyer is not valid if the creator remains unpaired
+    if( j < functionValues.size() )
+      D.add( functionValues.at(i), functionValues.at(j) );
+    else
+      D.add( functionValues.at(i) );
   }
 
   return D;
-- 
2.43.0


From 8cd257e823296fbbced152e061013adde0ecb421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:06:02 +0000
Subject: [PATCH 002/112] fix: Report all vertices of a simplicial complex

The vertex set is documented to contain every vertex that occurs in at
least one simplex, but only 0-simplices were taken into account.
---
 include/aleph/topology/SimplicialComplex.hh | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/include/aleph/topology/SimplicialComplex.hh b/include/aleph/topology/SimplicialComplex.hh
index cc8f333..6fe31a8 100644
--- a/include/aleph/topology/SimplicialComplex.hh
+++ b/include/aleph/topology/SimplicialComplex.hh
@@ -285,15 +285,10 @@ public:
 
     std::set<typename Simplex::vertex_type> vertices;
 
-    const_dimension_iterator d_it;
-    const_dimension_iterator d_it_end;
-
-    for( std::tie( d_it, d_it_end ) = this->range( 0 );
-         d_it != d_it_end;
-         ++d_it )
-    {
-      vertices.insert( *( d_it->begin() ) );
-    }
+    // Do not only check 0-simplices because they need not be present in
+    // a simplicial complex that only stores its top-level simplices.
+    for( auto&& simplex : *this )
+      vertices.insert( simplex.begin(), simplex.end() );
 
     std::copy( vertices.begin(), vertices.end(), result );
   }
-- 
2.43.0


From 0c54948e74e5a4bafb319ce83811cb2f1866e32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:11:28 +0000
Subject: [PATCH 003/112] fix: Size FLANN distance rows by their own number of
 neighbours

The rows of the distances were all sized like the first row. Points with
fewer neighbours caused reads past the end of a row, points with more
neighbours lost some of their distances.
---
 include/aleph/geometry/FLANN.hh | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/aleph/geometry/FLANN.hh b/include/aleph/geometry/FLANN.hh
index db39c67..8e32e04 100644
--- a/include/aleph/geometry/FLANN.hh
+++ b/include/aleph/geometry/FLANN.hh
@@ -96,14 +96,18 @@ public:
       return;
 
     distances.clear();
-    distances.resize( internalDistances.size(), std::vector<ElementType>( internalDistances.front().size() ) );
+    distances.resize( internalDistances.size() );
 
     {
       using size_type = typename std::vector< std::vector<ElementType> >::size_type;
 
       for( size_type row = 0; row < distances.size(); row++ )
+      {
+        distances[row].resize( internalDistances[row].size() );
+
         for( size_type col = 0; col < distances[row].size(); col++ )
           distances[row][col] = static_cast<ElementType>( internalDistances[row][col] );
+      }
     }
 
     for( auto&& D : distances )
@@ -179,14 +183,18 @@ public:
       return;
 
     distances.clear();
-    distances.resize( internalDistances.size(), std::vector<ElementType>( internalDistances.front().size() ) );
+    distances.resize( internalDistances.size() );
 
     {
       using size_type = typename std::vector< std::vector<ElementType> >::size_type;
 
       for( size_type row = 0; row < distances.size(); row++ )
+      {
+        distances[row].resize( internalDistances[row].size() );
+
         for( size_type col = 0; col < distances[row].size(); col++ )
           distances[row][col] = static_cast<ElementType>( internalDistances[row][col] );
+      }
     }
 
     for( auto&& D : distances )
-- 
2.43.0


From 9c909adb3d26418e4fbbf83be419520de7b2c101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:11:28 +0000
Subject: [PATCH 004/112] fix: Assign maximum weights correctly for negative
 edge weights

The weight of an expanded simplex started from its default weight of
zero, so that the maximum of negative edge weights was never assigned.
---
 include/aleph/geometry/RipsExpander.hh | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/aleph/geometry/RipsExpander.hh b/include/aleph/geometry/RipsExpander.hh
index 0ef4f11..f51b2b2 100644
--- a/include/aleph/geometry/RipsExpander.hh
+++ b/include/aleph/geometry/RipsExpander.hh
@@ -112,16 +112,21 @@ public:
       // dimensionality requirement is not satisfied
       if( s.dimension() > minDimension )
       {
-        auto w = s.data();
+        auto w      = std::numeric_limits<DataType>::lowest();
+        bool update = false;
 
         for( auto itFace = s.begin_boundary(); itFace != s.end_boundary(); ++itFace )
         {
           auto itFaceInS = S.find( *itFace );
           if( itFaceInS != S.end() )
-            w = std::max( w, itFaceInS->data() );
+          {
+            w      = std::max( w, itFaceInS->data() );
+            update = true;
+          }
         }
 
-        s.setData( w );
+        if( update )
+          s.setData( w );
       }
 
       S.push_back( s );
-- 
2.43.0


From 2ff5ce3072e1687f4744587883ddcf688ab10b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:11:28 +0000
Subject: [PATCH 005/112] fix: Support asking for more neighbours than there
 are points

The brute force search erased past the end of its results in this case.
---
 include/aleph/geometry/BruteForce.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/aleph/geometry/BruteForce.hh b/include/aleph/geometry/BruteForce.hh
index 9e98504..7f8921c 100644
--- a/include/aleph/geometry/BruteForce.hh
+++ b/include/aleph/geometry/BruteForce.hh
@@ -111,8 +111,12 @@ public:
 
       std::sort( distances[i].begin(), distances[i].end() );
 
-      distances[i].erase( distances[i].begin() + k, distances[i].end() );
-      indices[i].erase( indices[i].begin() + k, indices[i].end() );
+      // There may be fewer points than requested neighbours
+      if( k < distances[i].size() )
+      {
+        distances[i].erase( distances[i].begin() + k, distances[i].end() );
+        indices[i].erase( indices[i].begin() + k, indices[i].end() );
+      }
     }
   }
 
-- 
2.43.0


From 3eb514c49cb5d681d7d3e30d43ed19d8874e0a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:11:28 +0000
Subject: [PATCH 006/112] fix: Make partial Hamming distance count differing
 components

The partial distance is used for pruning in kd-trees. Using the absolute
difference overestimates the distance, so that neighbours get lost.
---
 include/aleph/geometry/distances/Hamming.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/geometry/distances/Hamming.hh b/include/aleph/geometry/distances/Hamming.hh
index e573386..34bcb13 100644
--- a/include/aleph/geometry/distances/Hamming.hh
+++ b/include/aleph/geometry/distances/Hamming.hh
@@ -120,7 +120,7 @@ public:
                          const V& b,
                          int __attribute__((unused)) ) const
   {
-    return std::abs( a - b );
+    return static_cast<ResultType>( a != b );
   }
 
   /** @returns Name of functor */
-- 
2.43.0


From dbe2409c24a090aff0aa5ada163d518371c6652a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:26:34 +0000
Subject: [PATCH 007/112] fix: Permit empty strata in intersection homology

The check for empty strata looked at the complex itself, so that the
dimension of an empty stratum was queried, which throws.
---
 include/aleph/persistentHomology/PhiPersistence.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/persistentHomology/PhiPersistence.hh b/include/aleph/persistentHomology/PhiPersistence.hh
index 4741198..6e84cb9 100644
--- a/include/aleph/persistentHomology/PhiPersistence.hh
+++ b/include/aleph/persistentHomology/PhiPersistence.hh
@@ -271,7 +271,7 @@ auto calculateIntersectionHomology( const aleph::topology::SimplicialComplex<Sim
 
     for( auto&& x : X )
     {
-      if( !K.empty() )
+      if( !x.empty() )
       {
         minDimension = std::min( minDimension, x.dimension() );
         maxDimension = std::max( maxDimension, x.dimension() );
-- 
2.43.0


From ad68ccdd4819ccd0d980d78ae11dbcb91c2da7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:26:34 +0000
Subject: [PATCH 008/112] fix: Return zero for invalid dimensions of a
 perversity

Dimensions below the first valid one were used as an index in front of
the stored values.
---
 include/aleph/persistentHomology/PhiPersistence.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/persistentHomology/PhiPersistence.hh b/include/aleph/persistentHomology/PhiPersistence.hh
index 6e84cb9..f0da33e 100644
--- a/include/aleph/persistentHomology/PhiPersistence.hh
+++ b/include/aleph/persistentHomology/PhiPersistence.hh
@@ -105,7 +105,7 @@ public:
 
   int operator()( std::size_t d ) const noexcept
   {
-    if( d < _values.size() + 1 )
+    if( d >= 1 && d < _values.size() + 1 )
       return _values[ static_cast<std::size_t>( d-1 ) ];
     else
       return 0;
@@ -166,7 +166,7 @@ public:
 
   unsigned operator()( std::size_t d ) const noexcept
   {
-    if( d < _values.size() + 2 )
+    if( d >= 2 && d < _values.size() + 2 )
       return _values[ static_cast<std::size_t>( d-2 ) ];
     else
       return 0;
-- 
2.43.0


From 28a10fa85ff847dec5b1fd56b81029483b7a8d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:26:34 +0000
Subject: [PATCH 009/112] fix: Ensure that Goresky-MacPherson perversities
 start at zero

The documentation of the class guarantees this value, but it was never
enforced.
---
 include/aleph/persistentHomology/PhiPersistence.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/aleph/persistentHomology/PhiPersistence.hh b/include/aleph/persistentHomology/PhiPersistence.hh
index f0da33e..09efb80 100644
--- a/include/aleph/persistentHomology/PhiPersistence.hh
+++ b/include/aleph/persistentHomology/PhiPersistence.hh
@@ -146,6 +146,9 @@ public:
   template <class InputIterator> PerversityGM( InputIterator begin, InputIterator end )
     : _values( begin, end )
   {
+    if( !_values.empty() )
+      _values.front() = 0;
+
     for( std::size_t k = 1; k < _values.size(); k++ )
     {
       if( _values[k] != _values[k-1] && _values[k] != _values[k-1] + 1 )
-- 
2.43.0


From e588068345045bf4db7ba548a40930becca83dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:05 +0000
Subject: [PATCH 010/112] fix: handle empty diagrams when calculating the
 bottleneck distance

Two empty diagrams, or a single point and an empty diagram, made the
binary search access edges that do not exist.
---
 include/aleph/persistenceDiagrams/distances/Bottleneck.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/aleph/persistenceDiagrams/distances/Bottleneck.hh b/include/aleph/persistenceDiagrams/distances/Bottleneck.hh
index 69deecc..2b9fbe7 100644
--- a/include/aleph/persistenceDiagrams/distances/Bottleneck.hh
+++ b/include/aleph/persistenceDiagrams/distances/Bottleneck.hh
@@ -71,7 +71,7 @@ template <class T> struct CheckMatchingCardinality
 
     // The new edge lies behind the edges that are already known, so the
     // surplus edges need to be removed.
-    else
+    else if( it2 < _last )
     {
       do
       {
@@ -132,6 +132,10 @@ template <
   auto m           = D2.size();
   auto maximumSize = n + m;
 
+  // The distance from the empty set to the empty set
+  if( maximumSize == 0 )
+    return DataType();
+
   using SizeType = decltype(n);
   using Edge     = detail::Edge<DataType>;
 
-- 
2.43.0


From 8917430991754d2c0d4dcf21ab19fca662c34161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:32 +0000
Subject: [PATCH 011/112] fix: guarantee that the calculation of mean diagrams
 terminates

Pairings with equal costs could alternate forever. Stop as soon as the
costs do not decrease any more, and sum up the costs of every pairing
instead of reading an entry another thread might be writing.
---
 include/aleph/persistenceDiagrams/Mean.hh | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/include/aleph/persistenceDiagrams/Mean.hh b/include/aleph/persistenceDiagrams/Mean.hh
index 7c9cc38..5879480 100644
--- a/include/aleph/persistenceDiagrams/Mean.hh
+++ b/include/aleph/persistenceDiagrams/Mean.hh
@@ -199,13 +199,11 @@ template <class InputIterator> auto mean( InputIterator begin, InputIterator end
   {
     auto i      = decltype(pairings)::size_type( std::distance( begin, it ) );
     pairings[i] = detail::optimalPairing( Y, *it );
-
-    #pragma omp critical
-    {
-      cost += pairings.back().cost;
-    }
   }
 
+  for( auto&& pairing : pairings )
+    cost += pairing.cost;
+
   bool stop = false;
   while( !stop )
   {
@@ -273,14 +271,14 @@ template <class InputIterator> auto mean( InputIterator begin, InputIterator end
       {
         auto i         = decltype(newPairings)::size_type( std::distance( begin, it ) );
         newPairings[i] = detail::optimalPairing( Y, *it );
-
-        #pragma omp critical
-        {
-          newCost += newPairings.back().cost;
-        }
       }
 
-      if( newPairings == pairings )
+      for( auto&& pairing : newPairings )
+        newCost += pairing.cost;
+
+      // Different pairings may have the same costs, so the calculation
+      // may only continue as long as the costs decrease.
+      if( newPairings == pairings || newCost >= cost )
         stop = true;
       else
       {
-- 
2.43.0


From c65d76e9c0794218c87447671341c4ffc6e06dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:32 +0000
Subject: [PATCH 012/112] fix: use self-similarities in the pseudo-metric of
 the weighted Gaussian kernel

The pseudo-metric was always zero. The Gaussian kernel uses the squared
distance in feature space.
---
 .../persistenceDiagrams/kernels/KernelEmbedding.hh   | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh b/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh
index b9f2ee0..57a425f 100644
--- a/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh
+++ b/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh
@@ -128,11 +128,13 @@ double pseudoMetric( const PersistenceDiagram<T>& D,
                      Weight w,
                      Kernel k )
 {
-  auto kxx = linearKernel(D, E, w, k);
+  auto kxx = linearKernel(D, D, w, k);
   auto kxy = linearKernel(D, E, w, k);
-  auto kyy = linearKernel(D, E, w, k);
+  auto kyy = linearKernel(E, E, w, k);
 
-  return std::sqrt( kxx + kyy - 2*kxy );
+  // Rounding errors might make the squared distance of (almost) equal
+  // diagrams negative.
+  return std::sqrt( std::max( 0.0, kxx + kyy - 2*kxy ) );
 }
 
 /**
@@ -170,7 +172,7 @@ double gaussianKernel( const PersistenceDiagram<T>& D,
                        double tau )
 {
   auto d = pseudoMetric(D, E, w, k);
-  return std::exp( -1/(2*tau*tau) * d );
+  return std::exp( -1/(2*tau*tau) * d*d );
 }
 
 /**
@@ -198,7 +200,7 @@ double gaussianKernel( const PersistenceDiagram<T>& D,
   auto k = detail::DefaultKernel( sigma );
   auto d = pseudoMetric(D, E, w, k);
 
-  return std::exp( -1/(2*tau*tau) * d );
+  return std::exp( -1/(2*tau*tau) * d*d );
 }
 
 
-- 
2.43.0


From 46c69e1fa89b0e4b1fc5920ed04309b3c27e77d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:32 +0000
Subject: [PATCH 013/112] fix: let the exponent of the multi-scale kernel
 depend on its scale

Rounding errors must not result in an undefined pseudo-metric either.
---
 .../persistenceDiagrams/kernels/MultiScaleKernel.hh  | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh b/include/aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh
index b068581..50ae799 100644
--- a/include/aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh
+++ b/include/aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh
@@ -73,8 +73,8 @@ template <class T> double multiScaleKernel( const PersistenceDiagram<T>& D1,
       auto d1 = detail::squaredEuclideanDistance( p, q );
       auto d2 = detail::squaredEuclideanDistance( p, q, true );
 
-      sum += std::exp( -d1 / ( 8.0*M_PI ) );
-      sum -= std::exp( -d2 / ( 8.0*M_PI ) );
+      sum += std::exp( -d1 / ( 8.0*sigma ) );
+      sum -= std::exp( -d2 / ( 8.0*sigma ) );
     }
   }
 
@@ -93,8 +93,8 @@ template <class T> double multiScaleFeatureMap( const PersistenceDiagram<T>& D,
       auto d1 = detail::squaredEuclideanDistance( p, q );
       auto d2 = detail::squaredEuclideanDistance( p, q, true );
 
-      result += std::exp( -d1 / (4.0*M_PI) );
-      result -= std::exp( -d2 / (4.0*M_PI) );
+      result += std::exp( -d1 / (4.0*sigma) );
+      result -= std::exp( -d2 / (4.0*sigma) );
     }
   }
 
@@ -120,7 +120,9 @@ template <class T> double multiScalePseudoMetric( const PersistenceDiagram<T>& D
   auto kxy = multiScaleKernel( D1, D2, sigma );
   auto kyy = multiScaleKernel( D2, D2, sigma );
 
-  return std::sqrt( kxx + kyy - 2*kxy );
+  // Rounding errors might make the squared distance of (almost) equal
+  // diagrams negative.
+  return std::sqrt( std::max( 0.0, kxx + kyy - 2*kxy ) );
 }
 
 } // namespace aleph
-- 
2.43.0


From d36d457be18c1651a15a28fe739159ebfb5c06cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:32 +0000
Subject: [PATCH 014/112] fix: do not read past the last point when calculating
 envelopes

---
 include/aleph/persistenceDiagrams/Envelope.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/persistenceDiagrams/Envelope.hh b/include/aleph/persistenceDiagrams/Envelope.hh
index a505bb2..64916eb 100644
--- a/include/aleph/persistenceDiagrams/Envelope.hh
+++ b/include/aleph/persistenceDiagrams/Envelope.hh
@@ -82,7 +82,7 @@ public:
     for( auto&& x : X )
     {
       auto next = std::next( it );
-      while( next->x() == x )
+      while( next != P.end() && next->x() == x )
       {
         ++next;
         ++it;
-- 
2.43.0


From ef1faa2df62080fb67347f1c5a1db845695e9606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:32 +0000
Subject: [PATCH 015/112] fix: ignore diagonal points at the start of a
 persistence indicator function

An interval from zero to the first point was added in this case, which
is invalid for negative values.
---
 .../aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh b/include/aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh
index b1bc30b..7909fe4 100644
--- a/include/aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh
+++ b/include/aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh
@@ -156,7 +156,9 @@ template <class DataType> aleph::math::StepFunction<DataType> persistenceIndicat
     // implied by the values.
     else
     {
-      f.add( previous, eventPoints.at(i).value, static_cast<DataType>( numActiveFeatures ) );
+      if( i != 0 )
+        f.add( previous, eventPoints.at(i).value, static_cast<DataType>( numActiveFeatures ) );
+
       useNextPoint = true;
     }
 
-- 
2.43.0


From 516507c7ad050955be7e37ec415bf839dae7535f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:32 +0000
Subject: [PATCH 016/112] fix: correct integrals and scalar operations of
 piecewise linear functions

Zero crossings that are created by additions are now accounted for, and
integrals over negative values are defined for arbitrary exponents.
---
 include/aleph/math/PiecewiseLinearFunction.hh | 41 ++++++++-----------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/include/aleph/math/PiecewiseLinearFunction.hh b/include/aleph/math/PiecewiseLinearFunction.hh
index 110e41e..b55582c 100644
--- a/include/aleph/math/PiecewiseLinearFunction.hh
+++ b/include/aleph/math/PiecewiseLinearFunction.hh
@@ -143,7 +143,7 @@ public:
   }
 
   /** Adds a given value to all points in the image of the function */
-  PiecewiseLinearFunction& operator+=( Image lambda ) const noexcept
+  PiecewiseLinearFunction& operator+=( Image lambda ) noexcept
   {
     return this->apply( lambda, std::plus<Image>() );
   }
@@ -181,7 +181,7 @@ public:
   }
 
   /** Subtracts a given value from all points in the image of the function */
-  PiecewiseLinearFunction& operator-=( Image lambda ) const noexcept
+  PiecewiseLinearFunction& operator-=( Image lambda ) noexcept
   {
     return this->apply( lambda, std::minus<Image>() );
   }
@@ -213,7 +213,7 @@ public:
   }
 
   /** Divides the given step function by a scalar value */
-  PiecewiseLinearFunction operator/( I lambda ) const noexcept
+  PiecewiseLinearFunction operator/( I lambda ) const
   {
     auto f = *this;
     f /= lambda;
@@ -325,30 +325,20 @@ public:
 
     while( current != _data.end() )
     {
-      // Coefficients of the line that connect the previous point and the current
-      // point.
+      // Absolute values at both ends of the line that connects the previous
+      // point and the current point. The line does not cross the x-axis.
       auto x1 = previous->first;
-      auto y1 = previous->second;
+      auto y1 = std::abs( previous->second );
       auto x2 = current->first;
-      auto y2 = current->second;
+      auto y2 = std::abs( current->second );
       auto m  = (y2 - y1) / (x2 - x1);
-      auto c  = y1 - m * x1;
 
-      // Evaluator for the integral. This is an application of Cavalieri's
-      // quadrature formula.
-      auto evaluator = [&]( Image x )
-      {
-        // Horizontal segments
-        if( m == Image() )
-          return std::pow( c, p ) * x;
-
-        // Regular lines
-        else
-          return std::pow( m*x + c, p+1 ) / ( m * (p+1) );
-      };
-
-      auto integral   = std::abs( evaluator( x2 ) - evaluator( x1 ) );
-      norm           += integral;
+      // This is an application of Cavalieri's quadrature formula. It needs to
+      // be treated differently for horizontal segments.
+      if( m == Image() )
+        norm += std::pow( y1, p ) * ( x2 - x1 );
+      else
+        norm += ( std::pow( y2, p+1 ) - std::pow( y1, p+1 ) ) / ( m * (p+1) );
 
       previous = current;
       ++current;
@@ -373,6 +363,9 @@ private:
     for( auto&& pair : _data )
       pair.second = operation( pair.second, lambda );
 
+    if( !_data.empty() )
+      this->insertIntersectionPoints();
+
     return *this;
   }
 
@@ -469,6 +462,8 @@ private:
     }
 
     _data.swap( data );
+
+    this->insertIntersectionPoints();
     return *this;
   }
 
-- 
2.43.0


From 64997bcab81edbc226973929705a594550e262e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:32 +0000
Subject: [PATCH 017/112] fix: correct evaluation, division and clean-up of
 step functions

Negative values were not compared by their absolute value, division of
indicator functions did not terminate, and the clean-up looked at the
element past the end.
---
 include/aleph/math/StepFunction.hh | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/aleph/math/StepFunction.hh b/include/aleph/math/StepFunction.hh
index 01a2674..04e2075 100644
--- a/include/aleph/math/StepFunction.hh
+++ b/include/aleph/math/StepFunction.hh
@@ -146,7 +146,8 @@ public:
     {
       // Note that I do not have to handle divisions by zero here
       // because only the step function is using this class.
-      return this->operator/=( 1/lambda );
+      _y /= lambda;
+      return *this;
     }
 
     IndicatorFunction operator/( I lambda ) const
@@ -172,7 +173,7 @@ public:
   };
 
   /** Adds a new indicator function to the step function */
-  void add( D a, D b, I y ) noexcept
+  void add( D a, D b, I y )
   {
     _indicatorFunctions.insert( IndicatorFunction(a,b,y) );
   }
@@ -216,7 +217,7 @@ public:
 
       // If multiple indicator functions overlap, take the one whose
       // absolute value is largest.
-      if( std::abs( f(x) ) > value )
+      if( std::abs( f(x) ) > std::abs( value ) )
         value = f(x);
     }
 
@@ -486,7 +487,7 @@ private:
 
     for( ; curr != _indicatorFunctions.end(); )
     {
-      while( curr->y() == prev->y() && curr != _indicatorFunctions.end() )
+      while( curr != _indicatorFunctions.end() && curr->y() == prev->y() )
         ++curr;
 
       indicatorFunctions.insert( IndicatorFunction( prev->a(), std::prev( curr )->b(), prev->y() ) );
-- 
2.43.0


From ff2879d6daddcc001b669b9c2531311c7a103c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:25 +0000
Subject: [PATCH 018/112] fix: handle zero persistence and degenerate ranges in
 entropy calculations

---
 include/aleph/persistenceDiagrams/Entropy.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/aleph/persistenceDiagrams/Entropy.hh b/include/aleph/persistenceDiagrams/Entropy.hh
index e9f5193..99f3b76 100644
--- a/include/aleph/persistenceDiagrams/Entropy.hh
+++ b/include/aleph/persistenceDiagrams/Entropy.hh
@@ -110,8 +110,10 @@ public:
     x = x - _x0;
     y = y - _y0;
 
-    unsigned i = unsigned( x / _xOffset );
-    unsigned j = unsigned( y / _yOffset );
+    // If all points share a coordinate, the grid consists of a single
+    // row or column only.
+    unsigned i = _xOffset > T() ? unsigned( x / _xOffset ) : 0;
+    unsigned j = _yOffset > T() ? unsigned( y / _yOffset ) : 0;
 
     return this->operator()(i,j);
   }
@@ -177,7 +179,7 @@ template <class T> T persistentEntropy( const aleph::PersistenceDiagram<T>& D )
                   [&totalPersistence] ( T persistence )
                   {
                     auto p = persistence / totalPersistence;
-                    return p * std::log2( p );
+                    return p * detail::log2( p );
                   } );
 
   return -aleph::math::accumulate_kahan_sorted( probabilities.begin(),
-- 
2.43.0


From dcefcafb22abb9b7ab0af58aeb4ba867c8a7f999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:52 +0000
Subject: [PATCH 019/112] fix: split piecewise linear functions at the x-axis
 only where it is required

---
 include/aleph/math/PiecewiseLinearFunction.hh | 27 +++++++++++--------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/include/aleph/math/PiecewiseLinearFunction.hh b/include/aleph/math/PiecewiseLinearFunction.hh
index b55582c..8766737 100644
--- a/include/aleph/math/PiecewiseLinearFunction.hh
+++ b/include/aleph/math/PiecewiseLinearFunction.hh
@@ -280,6 +280,10 @@ public:
   /** Calculates the absolute value of the function */
   PiecewiseLinearFunction& abs() noexcept
   {
+    // Segments that intersect the x-axis need to be split there
+    if( !_data.empty() )
+      this->insertIntersectionPoints();
+
     for( auto&& pair : _data )
       pair.second = std::abs( pair.second );
 
@@ -325,20 +329,26 @@ public:
 
     while( current != _data.end() )
     {
-      // Absolute values at both ends of the line that connects the previous
-      // point and the current point. The line does not cross the x-axis.
       auto x1 = previous->first;
-      auto y1 = std::abs( previous->second );
+      auto y1 = previous->second;
       auto x2 = current->first;
-      auto y2 = std::abs( current->second );
+      auto y2 = current->second;
       auto m  = (y2 - y1) / (x2 - x1);
 
+      // Signed antiderivative, evaluated in terms of the function value. It
+      // increases monotonically, regardless of the sign of the value, hence
+      // segments may intersect the x-axis.
+      auto evaluator = [&]( Image y )
+      {
+        return std::copysign( std::pow( std::abs( y ), p+1 ), y ) / ( p+1 );
+      };
+
       // This is an application of Cavalieri's quadrature formula. It needs to
       // be treated differently for horizontal segments.
       if( m == Image() )
-        norm += std::pow( y1, p ) * ( x2 - x1 );
+        norm += std::pow( std::abs( y1 ), p ) * ( x2 - x1 );
       else
-        norm += ( std::pow( y2, p+1 ) - std::pow( y1, p+1 ) ) / ( m * (p+1) );
+        norm += ( evaluator( y2 ) - evaluator( y1 ) ) / m;
 
       previous = current;
       ++current;
@@ -363,9 +373,6 @@ private:
     for( auto&& pair : _data )
       pair.second = operation( pair.second, lambda );
 
-    if( !_data.empty() )
-      this->insertIntersectionPoints();
-
     return *this;
   }
 
@@ -462,8 +469,6 @@ private:
     }
 
     _data.swap( data );
-
-    this->insertIntersectionPoints();
     return *this;
   }
 
-- 
2.43.0


From 807e65ffb539cbbb17fff19b424eb2508460856e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:34:00 +0000
Subject: [PATCH 020/112] fix: read comments, special values and large matrices
 in adjacency matrix readers

---
 include/aleph/topology/io/AdjacencyMatrix.hh  | 45 +++++++++++++------
 .../topology/io/BipartiteAdjacencyMatrix.hh   | 36 ++++++++++-----
 2 files changed, 56 insertions(+), 25 deletions(-)

diff --git a/include/aleph/topology/io/AdjacencyMatrix.hh b/include/aleph/topology/io/AdjacencyMatrix.hh
index 3ef1406..b1e6305 100644
--- a/include/aleph/topology/io/AdjacencyMatrix.hh
+++ b/include/aleph/topology/io/AdjacencyMatrix.hh
@@ -118,7 +118,6 @@ public:
     using DataType   = typename Simplex::DataType;
     using VertexType = typename Simplex::VertexType;
 
-    auto position    = in.tellg();
     std::size_t n    = 0;
 
     // An 'unrolled' version of all edge weights that can be read from
@@ -132,22 +131,32 @@ public:
       std::string line;
       while( std::getline( in, line ) )
       {
+        line = trim( line );
+
         // Skip empty lines and comments as promised
         if( line.empty() || line.front() == '#' )
           continue;
 
+        auto tokens = splitByWhitespace( line );
+
+        if( n > 0 && tokens.size() * n != values.size() )
+          throw std::runtime_error( "Format error: number of columns must not vary" );
+
+        for( auto&& token : tokens )
+        {
+          bool success = false;
+          auto value   = convert<DataType>( token, success );
+
+          if( !success )
+            throw std::runtime_error( "Format error: unable to convert matrix entry" );
+
+          values.push_back( value );
+        }
+
         ++n;
       }
-
-      in.clear();
-      in.seekg( position );
     }
 
-    // FIXME: this will not work in case comments are part of the file.
-    // Drat---should probably rewrite it.
-    std::copy( std::istream_iterator<DataType>( in ), std::istream_iterator<DataType>(),
-               std::back_inserter( values ) );
-
     // We cannot fill an empty simplicial complex. It might be useful to
     // throw an error here, though.
     if( values.empty() )
@@ -169,9 +178,18 @@ public:
     DataType maxWeight = DataType();
 
     {
-      auto minmax = std::minmax_element( values.begin(), values.end() );
-      minWeight   = *minmax.first;
-      maxWeight   = *minmax.second;
+      // NaNs cannot be compared with other weights, so they must not take
+      // part in the calculation of the extremal weights.
+      auto weights = values;
+      weights.erase( std::remove_if( weights.begin(), weights.end(), [] ( DataType w ) { return std::isnan( w ); } ),
+                     weights.end() );
+
+      if( !weights.empty() )
+      {
+        auto minmax = std::minmax_element( weights.begin(), weights.end() );
+        minWeight   = *minmax.first;
+        maxWeight   = *minmax.second;
+      }
     }
 
     // Edges -----------------------------------------------------------
@@ -187,8 +205,7 @@ public:
       // not be considered here.
       for( std::size_t x = y + 1; x < _dimension; x++ )
       {
-        auto i = static_cast<VertexType>( _dimension * y + x   );
-        auto w = values[i];
+        auto w = values[ _dimension * y + x ];
 
         // Map matrix indices to the corresponding vertex indices as
         // outlined above.
diff --git a/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh b/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh
index 46b784e..149640e 100644
--- a/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh
+++ b/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh
@@ -72,7 +72,6 @@ public:
     using DataType   = typename Simplex::DataType;
     using VertexType = typename Simplex::VertexType;
 
-    auto position      = in.tellg();
     std::size_t height = 0;
 
     // An 'unrolled' version of all edge weights that can be read from
@@ -85,14 +84,32 @@ public:
     {
       std::string line;
       while( std::getline( in, line ) )
-        ++height;
+      {
+        line = trim( line );
 
-      in.clear();
-      in.seekg( position );
-    }
+        // Skip empty lines and comments as promised
+        if( line.empty() || line.front() == '#' )
+          continue;
+
+        auto tokens = splitByWhitespace( line );
+
+        if( height > 0 && tokens.size() * height != values.size() )
+          throw std::runtime_error( "Format error: number of columns must not vary" );
+
+        for( auto&& token : tokens )
+        {
+          bool success = false;
+          auto value   = convert<DataType>( token, success );
+
+          if( !success )
+            throw std::runtime_error( "Format error: unable to convert matrix entry" );
+
+          values.push_back( value );
+        }
 
-    std::copy( std::istream_iterator<DataType>( in ), std::istream_iterator<DataType>(),
-               std::back_inserter( values ) );
+        ++height;
+      }
+    }
 
     // We cannot fill an empty simplicial complex. It might be useful to
     // throw an error here, though.
@@ -101,8 +118,6 @@ public:
 
     _height = height;
     _width  = values.size() / height;
-    if( values.size() % height != 0 )
-      throw std::runtime_error( "Format error: number of columns must not vary" );
 
     // This is required in order to assign the weight of nodes
     // correctly; we cannot trust the weights to be positive.
@@ -144,8 +159,7 @@ public:
     {
       for( std::size_t x = 0; x < _width; x++ )
       {
-        auto i = static_cast<VertexType>( _width * y + x   );
-        auto w = values[i];
+        auto w = values[ _width * y + x ];
 
         // Map matrix indices to the corresponding vertex indices as
         // outline above.
-- 
2.43.0


From 4c9cbe4fe38f18d18c32c703f7141e6be2c275b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:04 +0000
Subject: [PATCH 021/112] fix: forget node labels of previous files when
 reading edge lists

---
 include/aleph/topology/io/EdgeLists.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/aleph/topology/io/EdgeLists.hh b/include/aleph/topology/io/EdgeLists.hh
index 6a1e471..ecebdeb 100644
--- a/include/aleph/topology/io/EdgeLists.hh
+++ b/include/aleph/topology/io/EdgeLists.hh
@@ -68,6 +68,7 @@ public:
     std::vector<Simplex> edges;
 
     std::size_t lastID = 0;
+    _nodeLabels.clear();
 
     while( in )
     {
-- 
2.43.0


From 568882e1d5785d38dd8e7aed8fceee92a03cd551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:04 +0000
Subject: [PATCH 022/112] fix: support empty lines, signed weights and isolated
 vertices in Pajek files

---
 include/aleph/topology/io/Pajek.hh | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/aleph/topology/io/Pajek.hh b/include/aleph/topology/io/Pajek.hh
index cb1d624..70219c4 100644
--- a/include/aleph/topology/io/Pajek.hh
+++ b/include/aleph/topology/io/Pajek.hh
@@ -56,7 +56,7 @@ public:
     std::regex reKeyword  = std::regex( "\\*([[:alpha:]]+).*" );
     std::regex reKeyValue = std::regex( "\\*([[:alpha:]]+)[[:space:]]+([[:digit:]]+)" );
     std::regex reVertex   = std::regex( "([[:digit:]]+)[[:space:]]+\"(.*)\"");
-    std::regex reEdge     = std::regex( "([[:digit:]]+)[[:space:]]+([[:digit:]]+)[[:space:]]*([[:digit:]\\.]+)*");
+    std::regex reEdge     = std::regex( "([[:digit:]]+)[[:space:]]+([[:digit:]]+)(?:[[:space:]]+([-+]?[[:digit:]\\.]+(?:[eE][-+]?[[:digit:]]+)?))?");
 
     std::smatch matches;
 
@@ -72,8 +72,8 @@ public:
       // white space characters in order to simplify parsing.
       line = trim( line );
 
-      // Skip comments
-      if( line.front() == '%' )
+      // Skip empty lines and comments
+      if( line.empty() || line.front() == '%' )
         continue;
 
       // 1st case: Found a keyword. This changes the parser mode and
@@ -160,6 +160,14 @@ public:
       }
     }
 
+    // The file does not contain any edges or vertex specifications, so
+    // there are only isolated vertices.
+    if( simplices.empty() )
+    {
+      for( std::size_t i = 0; i < numVertices; i++ )
+        simplices.push_back( Simplex( VertexType(i+1) ) );
+    }
+
     K = SimplicialComplex( simplices.begin(), simplices.end() );
   }
 
-- 
2.43.0


From cf1658c7d659cc76063c051cf2e55adbb80d8b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:04 +0000
Subject: [PATCH 023/112] fix: handle signed numbers, empty lines and node IDs
 correctly in GML files

---
 include/aleph/topology/io/GML.hh | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/include/aleph/topology/io/GML.hh b/include/aleph/topology/io/GML.hh
index 0938c24..6bf5edc 100644
--- a/include/aleph/topology/io/GML.hh
+++ b/include/aleph/topology/io/GML.hh
@@ -139,8 +139,8 @@ public:
     Node node;
     Edge edge;
 
-    std::regex reAttribute = std::regex( "([_\\|[:alpha:]]+)[[:space:]]*.*" );
-    std::regex reKeyValue  = std::regex( "([_\\|[:alpha:]]+)[[:space:]]+([[:alnum:]\\.]+)" );
+    std::regex reAttribute = std::regex( "([_\\|[:alpha:]][_\\|[:alnum:]]*)[[:space:]]*.*" );
+    std::regex reKeyValue  = std::regex( "([_\\|[:alpha:]][_\\|[:alnum:]]*)[[:space:]]+([[:alnum:]\\.+-]+)" );
     std::regex reLabel     = std::regex( "(label)[[:space:]]+\"([^\"]+)\"" );
 
     while( std::getline( in, line ) )
@@ -148,6 +148,11 @@ public:
       line        = trim( line );
       auto tokens = split( line );
 
+      // Skip empty lines and lines that the format specification tells us
+      // to ignore.
+      if( line.empty() || line.front() == '#' )
+        continue;
+
       // Skip comment lines. This is somewhat wasteful because I am
       // splitting the complete string even though I merely need to
       // know the first token.
@@ -187,6 +192,9 @@ public:
       // Closing a new level
       else if( line == "]" )
       {
+        if( currentLevel.empty() )
+          throw std::runtime_error( "Encountered incorrectly-nested levels" );
+
         if( currentLevel.top() == "node" )
           _nodes.push_back( node );
         else if( currentLevel.top() == "edge" )
@@ -406,16 +414,22 @@ public:
     zero-indexed.
   */
 
-  template <class VertexType> std::map<std::string, VertexType> id_to_index() const noexcept
+  template <class VertexType> std::map<std::string, VertexType> id_to_index() const
   {
     std::set<std::string> nodeIDs;
     for( auto&& node : _nodes )
       nodeIDs.insert( node.id );
 
+    // The indices have to follow the order of the vertices, which is not
+    // lexicographical if numerical IDs are being used.
+    std::set<std::size_t> vertices;
+    for( auto&& node : _nodes )
+      vertices.insert( getID( nodeIDs, node.id ) );
+
     std::map<std::string, VertexType> result;
 
     for( auto&& node : _nodes )
-      result[ node.id ] = static_cast<VertexType>( std::distance( nodeIDs.begin(), nodeIDs.find( node.id ) ) );
+      result[ node.id ] = static_cast<VertexType>( std::distance( vertices.begin(), vertices.find( getID( nodeIDs, node.id ) ) ) );
 
     return result;
   }
@@ -435,7 +449,14 @@ private:
     // vertex type, we use the converted number instead.
     try
     {
-      auto convertedID = std::stoll( id );
+      std::size_t length = 0;
+      auto convertedID   = std::stoll( id, &length );
+
+      // Prevents IDs that merely *start* with a number from being
+      // truncated.
+      if( length != id.size() )
+        throw std::invalid_argument( "Node ID is not numerical" );
+
       return static_cast<std::size_t>( convertedID );
     }
     catch( std::out_of_range& e )
-- 
2.43.0


From 565d14151cc076506297c97920b0370eb183eef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:04 +0000
Subject: [PATCH 024/112] fix: handle missing elements and attributes in
 GraphML files

---
 include/aleph/topology/io/GraphML.hh | 42 +++++++++++++---------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/include/aleph/topology/io/GraphML.hh b/include/aleph/topology/io/GraphML.hh
index 0225221..a037a4a 100644
--- a/include/aleph/topology/io/GraphML.hh
+++ b/include/aleph/topology/io/GraphML.hh
@@ -97,10 +97,12 @@ public:
       using namespace tinyxml2;
 
       XMLDocument document;
-      document.LoadFile( filename.c_str() );
+      if( document.LoadFile( filename.c_str() ) != XML_SUCCESS )
+        throw std::runtime_error( "Unable to read input file" );
 
-      auto root        = document.FirstChild();
-      auto graphml     = root->NextSiblingElement( "graphml" );
+      auto graphml     = document.FirstChildElement( "graphml" );
+      if( !graphml )
+        throw std::runtime_error( "GraphML file has to contain a root element" );
 
       // 1. Read optional information about keys in the graph ----------
 
@@ -112,6 +114,9 @@ public:
           auto name = key->Attribute( "attr.name" );
           auto type = key->Attribute( "for" );
 
+          if( !id || !name || !type )
+            throw std::runtime_error( "Attribute must specify ID, name, and type" );
+
           // It makes sense to switch these two items because we use the
           // name, e.g. 'weight', to look up the ID, e.g. 'id0'.
           if( std::string( type ) == "node" )
@@ -184,6 +189,10 @@ public:
 
     using namespace aleph::utilities;
 
+    // Stores the weight of every node in order to make it possible to
+    // assign weights to the edges.
+    std::vector<DataType> nodeWeights( _nodes.size() );
+
     for( auto&& node : _nodes )
     {
       auto vertex = id_to_index_map.at( node.id );
@@ -207,6 +216,7 @@ public:
         }
       }
 
+      nodeWeights.at( vertex ) = weight;
       simplices.push_back( Simplex( vertex, weight ) );
     }
 
@@ -234,27 +244,11 @@ public:
         }
       }
 
-      // Use the node weights to assign a weight to the edge. Even
-      // though nodes have been parsed at this point already, some
-      // information has to be looked up again here.
+      // Use the node weights to assign a weight to the edge.
       else if( _readNodeWeights && not _nodeWeightAttribute.empty() )
       {
         if( _graph.nodeKeys.find( _nodeWeightAttribute ) != _graph.nodeKeys.end() )
-        {
-          auto iu = id_to_index_map.at( edge.source );
-          auto iv = id_to_index_map.at( edge.target );
-          auto du = _nodes.at( iu ).dict.at( _graph.nodeKeys.at( _nodeWeightAttribute ) );
-          auto dv = _nodes.at( iv ).dict.at( _graph.nodeKeys.at( _nodeWeightAttribute ) );
-
-          // There is no need to check the success of the conversion
-          // because we already processed the nodes before. Failures
-          // to convert the data type have already been processed at
-          // this point.
-          auto wu = convert<DataType>( du );
-          auto wv = convert<DataType>( dv );
-
-          weight = f(wu, wv);
-        }
+          weight = f( nodeWeights.at( u ), nodeWeights.at( v ) );
       }
 
       simplices.push_back( Simplex( {u,v}, weight ) );
@@ -386,7 +380,11 @@ private:
           auto key   = child->Attribute( "key" );
           auto value = child->GetText();
 
-          dict[key] = value;
+          if( !key )
+            throw std::runtime_error( "Data element must specify key" );
+
+          // Elements without any text are permitted by the format
+          dict[key] = value ? value : "";
         }
 
         child = child->NextSiblingElement();
-- 
2.43.0


From 8719e866599e5945d443508a5359a18da03931da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:04 +0000
Subject: [PATCH 025/112] fix: report isolated nodes and optional labels of
 sparse adjacency matrices

---
 .../aleph/topology/io/SparseAdjacencyMatrix.hh  | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/aleph/topology/io/SparseAdjacencyMatrix.hh b/include/aleph/topology/io/SparseAdjacencyMatrix.hh
index 865e6a2..ab4fb1f 100644
--- a/include/aleph/topology/io/SparseAdjacencyMatrix.hh
+++ b/include/aleph/topology/io/SparseAdjacencyMatrix.hh
@@ -51,6 +51,11 @@ public:
     using VertexType = typename Simplex::VertexType;
     using Edge       = std::pair<VertexType, VertexType>;
 
+    _graphLabels.clear();
+    _nodeLabels.clear();
+    _nodeAttributes.clear();
+    _edgeAttributes.clear();
+
     std::unordered_set<VertexType> vertices;
     std::vector<Edge> edges;
 
@@ -143,9 +148,10 @@ public:
 
     using DataType = typename Simplex::DataType;
 
-    for( auto&& vertex : vertices )
+    for( auto&& pair : node_id_to_index )
     {
-      auto&& id    = node_id_to_graph_id[vertex];
+      auto vertex  = pair.first;
+      auto&& id    = node_id_to_graph_id.at( vertex );
       auto&& index = graph_id_to_index[id];
       auto&& K     = complexes[index];
       auto s       = Simplex( vertex );
@@ -153,12 +159,13 @@ public:
       // Most of the time, this just degenerates into an identity
       // lookup, but in case labels are not contiguous, they will
       // be assigned correctly here.
-      labels[index] = _graphLabels.at( index );
+      if( _readGraphLabels )
+        labels[index] = _graphLabels.at( index );
 
       if( _readNodeAttributes && isValidIndex( _nodeAttributeIndex ) )
       {
         auto&& index = node_id_to_index[vertex];
-        s.setData( static_cast<DataType>( _nodeAttributes[index][ _nodeAttributeIndex ] ) );
+        s.setData( static_cast<DataType>( _nodeAttributes.at( index ).at( _nodeAttributeIndex ) ) );
       }
 
       K.push_back( s );
@@ -180,7 +187,7 @@ public:
       auto s       = Simplex( {u,v} );
 
       if( _readEdgeAttributes && isValidIndex( _edgeAttributeIndex ) )
-        s.setData( static_cast<DataType>( _edgeAttributes[i][ _edgeAttributeIndex ] ) );
+        s.setData( static_cast<DataType>( _edgeAttributes.at( i ).at( _edgeAttributeIndex ) ) );
 
       K.push_back( s );
     }
-- 
2.43.0


From 9cb696889a6ab839e9990d0379f15eacb8f36498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:04 +0000
Subject: [PATCH 026/112] fix: honour functor and vertex order in generic
 simplicial complex reader

---
 .../topology/io/SimplicialComplexReader.hh      | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/aleph/topology/io/SimplicialComplexReader.hh b/include/aleph/topology/io/SimplicialComplexReader.hh
index 4095c87..5038434 100644
--- a/include/aleph/topology/io/SimplicialComplexReader.hh
+++ b/include/aleph/topology/io/SimplicialComplexReader.hh
@@ -4,6 +4,7 @@
 #include <algorithm>
 #include <fstream>
 #include <iterator>
+#include <map>
 #include <string>
 #include <stdexcept>
 #include <vector>
@@ -96,12 +97,14 @@ public:
 
     auto extension = aleph::utilities::extension( filename );
 
+    _labels.clear();
+
     // The GML parser works more or less on its own and does not make
     // use of any stored variables.
     if( extension == ".gml" )
     {
       GMLReader reader;
-      reader( filename, K );
+      reader( filename, K, functor );
 
       using VertexType = typename SimplicialComplex::ValueType::VertexType;
 
@@ -113,7 +116,7 @@ public:
     else if( extension == ".h5" )
     {
       HDF5SimpleDataSpaceReader reader;
-      reader( filename, K );
+      reader( filename, K, functor );
     }
 
     // The Pajek parser also works on its own and does not require any
@@ -245,10 +248,16 @@ private:
     if( map.empty() )
       return {};
 
+    // The IDs in the map are strings, so they need to be converted first
+    // to follow the vertex order.
+    std::map<unsigned long, std::string> orderedLabels;
+    for( auto&& pair : map )
+      orderedLabels[ std::stoul( pair.first ) ] = pair.second;
+
     std::vector<std::string> labels;
-    labels.reserve( map.size() );
+    labels.reserve( orderedLabels.size() );
 
-    for( auto&& pair : map )
+    for( auto&& pair : orderedLabels )
     {
       if( !pair.second.empty() )
         labels.push_back( pair.second );
-- 
2.43.0


From 8d036a4a23ba2576a84198ec2d802a7cee36aaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:54:54 +0000
Subject: [PATCH 027/112] fix: skip empty lines and comments when reading
 matrices

---
 include/aleph/topology/io/Matrix.hh | 44 +++++++++++++++++++----------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/include/aleph/topology/io/Matrix.hh b/include/aleph/topology/io/Matrix.hh
index 593b829..3c24511 100644
--- a/include/aleph/topology/io/Matrix.hh
+++ b/include/aleph/topology/io/Matrix.hh
@@ -4,6 +4,7 @@
 #include <algorithm>
 #include <istream>
 #include <fstream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -111,7 +112,11 @@ public:
   /** @overload operator()( const std::string&, SimplicialComplex&, SimplicialComplex&, Functor ) */
   template <class SimplicialComplex, class Functor> void operator()( std::istream& in, SimplicialComplex& K, Functor f )
   {
-    auto position = in.tellg();
+    using Simplex    = typename SimplicialComplex::ValueType;
+    using DataType   = typename Simplex::DataType;
+    using VertexType = typename Simplex::VertexType;
+
+    std::vector<DataType> values;
 
     std::size_t height = 0;
     std::size_t width  = 0;
@@ -122,33 +127,42 @@ public:
       std::string line;
       while( std::getline( in, line ) )
       {
-        line        = trim( line );
-        auto tokens = split( line );
+        line = trim( line );
+
+        // Skip empty lines and comment lines
+        if( line.empty() || line.front() == '#' )
+          continue;
+
+        auto tokens = splitByWhitespace( line );
 
         if( width == 0 )
           width = tokens.size();
         else if( width != tokens.size() )
           throw std::runtime_error( "Format error: number of columns must not vary" );
 
+        for( auto&& token : tokens )
+        {
+          bool success = false;
+          auto value   = convert<DataType>( token, success );
+
+          if( !success )
+            throw std::runtime_error( "Format error: unable to convert matrix entry" );
+
+          values.push_back( value );
+        }
+
         ++height;
       }
-
-      in.clear();
-      in.seekg( position );
     }
 
     _height = height;
     _width  = width;
 
-    using Simplex    = typename SimplicialComplex::ValueType;
-    using DataType   = typename Simplex::DataType;
-    using VertexType = typename Simplex::VertexType;
-
-    std::vector<DataType> values;
-    values.reserve( _height * _width );
-
-    std::copy( std::istream_iterator<DataType>( in ), std::istream_iterator<DataType>(),
-               std::back_inserter( values ) );
+    if( values.empty() )
+    {
+      K = SimplicialComplex();
+      return;
+    }
 
     std::vector<Simplex> simplices;
 
-- 
2.43.0


From 543f6bba9a994ef5070fea447dfe1bbfe49d0c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:54:54 +0000
Subject: [PATCH 028/112] fix: handle blank lines, scalar names and mismatched
 sizes in VTK files

---
 include/aleph/topology/io/VTK.hh | 48 ++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/include/aleph/topology/io/VTK.hh b/include/aleph/topology/io/VTK.hh
index b064bc5..32cf2e3 100644
--- a/include/aleph/topology/io/VTK.hh
+++ b/include/aleph/topology/io/VTK.hh
@@ -108,9 +108,9 @@ public:
 
     // Parse header first ----------------------------------------------
 
-    std::size_t nx, ny, nz,
-                n,
-                s;
+    std::size_t nx = 0, ny = 0, nz = 0,
+                n  = 0,
+                s  = 0;
 
     bool parsedHeader = this->parseHeader( in, nx, ny, nz, n, s );
     if( !parsedHeader )
@@ -120,6 +120,8 @@ public:
     // to look it up and compare it to the requested size of the complex
     // in order to see whether it is capable of storing the data.
     _dataTypeSize = s;
+    _scalarsName  = std::string();
+    _scalarsType  = std::string();
 
     // Parse body ------------------------------------------------------
     //
@@ -128,32 +130,26 @@ public:
     // attributes are supported.
 
     std::regex rePointData( "POINT_DATA[[:space:]]+([[:digit:]]+)" );
-    std::regex reScalars( "SCALARS[[:space:]]+([[:alnum:]]+)[[:space:]]+([[:alnum:]]+)[[:space:]]*([[:digit:]]*)" );
-    std::regex reLookupTable( "LOOKUP_TABLE[[:space:]]+([[:alnum:]]+)" );
+    std::regex reScalars( "SCALARS[[:space:]]+([^[:space:]]+)[[:space:]]+([[:alnum:]_]+)[[:space:]]*([[:digit:]]*)" );
+    std::regex reLookupTable( "LOOKUP_TABLE[[:space:]]+([^[:space:]]+)" );
 
     std::vector<DataType> coordinates;
-    coordinates.reserve( n*3 );
 
-    while( std::getline( in, line ) )
+    while( coordinates.size() < n*3 && std::getline( in, line ) )
     {
-      line         = trim( line );
-      auto strings = split( line );
-
-      for( auto&& coordinate : strings )
+      for( auto&& coordinate : splitByWhitespace( line ) )
         coordinates.push_back( convert<DataType>( coordinate ) );
-
-      if( coordinates.size() == n*3 )
-        break;
     }
 
     std::vector<DataType> values;
-    values.reserve( n );
 
     {
       std::smatch matches;
 
       while( std::getline( in, line ) )
       {
+        line = trim( line );
+
         if( std::regex_match( line, matches, rePointData ) )
         {
           auto sn = matches[1];
@@ -180,15 +176,15 @@ public:
         }
         else
         {
-          line         = trim( line );
-          auto strings = split( line );
-
-          for( auto&& value : strings )
+          for( auto&& value : splitByWhitespace( line ) )
             values.push_back( convert<DataType>( value ) );
         }
       }
     }
 
+    if( coordinates.size() != n*3 || values.size() != n )
+      throw std::runtime_error( "Format error: number of coordinates or values does not match number of points" );
+
     // Create topology -------------------------------------------------
     //
     // Notice that this class only adds 0-simplices and 1-simplices to
@@ -391,7 +387,7 @@ private:
     y = std::size_t( std::stoull( sy ) );
     z = std::size_t( std::stoull( sz ) );
 
-    std::regex rePoints( "POINTS[[:space:]]+([[:digit:]]+)[[:space:]]+([[:alpha:]]+)" );
+    std::regex rePoints( "POINTS[[:space:]]+([[:digit:]]+)[[:space:]]+([[:alpha:]_]+)" );
     if( !std::regex_match( points, matches, rePoints ) )
       return false;
 
@@ -400,6 +396,16 @@ private:
 
     n = std::size_t( std::stoull( sn ) );
 
+    // The grid has to describe every point. The checks are made such that
+    // the product of the dimensions cannot overflow.
+    if( x == 0 || y == 0 || z == 0 )
+    {
+      if( n != 0 )
+        throw std::runtime_error( "Format error: number of points does not match dimensions" );
+    }
+    else if( n % x != 0 || ( n / x ) % y != 0 || n / x / y != z )
+      throw std::runtime_error( "Format error: number of points does not match dimensions" );
+
     if( st == "double" )
       s = sizeof(double);
     else if( st == "float" )
@@ -418,7 +424,7 @@ private:
       s = sizeof(unsigned short);
     else if( st == "char" )
       s = sizeof(char);
-    else if( st == "unsigned char" )
+    else if( st == "unsigned_char" )
       s = sizeof(unsigned char);
     else if( st == "bit" )
       s = sizeof(bool);
-- 
2.43.0


From 0a97831bb011325a7aea72da7e50572dd71e561f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:55:35 +0000
Subject: [PATCH 029/112] fix: read non-square and foreign-endian data sets
 from HDF5 files

---
 include/aleph/topology/io/HDF5.hh | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/aleph/topology/io/HDF5.hh b/include/aleph/topology/io/HDF5.hh
index 4c046fc..2d76fd2 100644
--- a/include/aleph/topology/io/HDF5.hh
+++ b/include/aleph/topology/io/HDF5.hh
@@ -98,13 +98,15 @@ public:
     std::size_t height = 0;
 
     {
-      hsize_t* dimensions = new hsize_t[ dimension ];
+      hsize_t dimensions[2] = { 0, 0 };
 
       dataSpace.getSimpleExtentDims( dimensions,
                                      nullptr );
 
-      width  = dimensions[0];
-      height = dimensions[1];
+      // HDF5 stores data in row-major order, i.e. the last dimension is
+      // the one that changes fastest.
+      width  = dimensions[1];
+      height = dimensions[0];
 
       assert( width * height == std::size_t( numVertices ) );
     }
@@ -238,14 +240,16 @@ private:
     {
       std::vector<double> data_( size );
 
-      dataSet.read( &data_[0], dataType );
+      // Reading into the native type makes HDF5 convert the byte order
+      // of the file if necessary.
+      dataSet.read( data_.data(), H5::PredType::NATIVE_DOUBLE );
       data.assign( data_.begin(), data_.end() );
     }
     else if( std::find( floatTypes.begin(), floatTypes.end(), dataType ) != floatTypes.end() )
     {
       std::vector<float> data_( size );
 
-      dataSet.read( &data_[0], dataType );
+      dataSet.read( data_.data(), H5::PredType::NATIVE_FLOAT );
       data.assign( data_.begin(), data_.end() );
     }
     else
-- 
2.43.0


From 0bdfad823cf731e9f4c3963fe851f5e541603473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:56:00 +0000
Subject: [PATCH 030/112] fix: read PLY files without faces and reject
 malformed headers and faces

---
 include/aleph/topology/io/PLY.hh | 49 +++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/include/aleph/topology/io/PLY.hh b/include/aleph/topology/io/PLY.hh
index 0fa3f85..221c2ef 100644
--- a/include/aleph/topology/io/PLY.hh
+++ b/include/aleph/topology/io/PLY.hh
@@ -8,8 +8,6 @@
 
 #include <aleph/topology/filtrations/Data.hh>
 
-#include <cassert>
-
 #include <fstream>
 #include <limits>
 #include <map>
@@ -38,14 +36,19 @@ namespace detail
 
 std::map<std::string, unsigned short> TypeSizeMap = {
   { "double" , 8 },
+  { "float64", 8 },
   { "float"  , 4 },
+  { "float32", 4 },
   { "int"    , 4 },
   { "int32"  , 4 },
   { "uint"   , 4 },
   { "uint32" , 4 },
   { "short"  , 2 },
+  { "int16"  , 2 },
   { "ushort" , 2 },
+  { "uint16" , 2 },
   { "char"   , 1 },
+  { "int8"   , 1 },
   { "uchar"  , 1 },
   { "uint8"  , 1 }
 };
@@ -59,14 +62,19 @@ std::map<std::string, unsigned short> TypeSizeMap = {
 
 std::map<std::string, bool> TypeSignednessMap = {
   { "double" , true },
+  { "float64", true },
   { "float"  , true },
+  { "float32", true },
   { "int"    , true },
   { "int32"  , true },
   { "uint"   , false },
   { "uint32" , false },
   { "short"  , true },
+  { "int16"  , true },
   { "ushort" , false },
+  { "uint16" , false },
   { "char"   , true },
+  { "int8"   , true },
   { "uchar"  , false },
   { "uint8"  , false }
 };
@@ -106,7 +114,7 @@ template <class T> void readValue( std::ifstream& stream,
     for( std::size_t i = 0; i < bytes; i++ )
       reversedBuffer[i] = buffer[ bytes - 1 - i ];
 
-    std::copy( reversedBuffer, reversedBuffer + bytes, target );
+    std::copy( reversedBuffer, reversedBuffer + bytes, reinterpret_cast<char*>( target ) );
 
     delete[] reversedBuffer;
     delete[] buffer;
@@ -272,7 +280,7 @@ public:
         dataType = utilities::trim( dataType );
         name     = utilities::trim( name );
 
-        PropertyDescriptor descriptor;
+        PropertyDescriptor descriptor = PropertyDescriptor();
         descriptor.index = propertyIndex;
 
         // List of properties require a special handling. The syntax is
@@ -323,8 +331,8 @@ public:
     }
     while( !headerParsed && in );
 
-    assert( numVertices > 0 );
-    assert( numFaces    > 0 );
+    if( !headerParsed )
+      throw std::runtime_error( "Format error: Expecting \"end_header\"" );
 
     using Simplex = typename SimplicialComplex::ValueType;
 
@@ -381,6 +389,18 @@ private:
       (void) weight;
     }
 
+    for( auto&& name : { "x", "y", "z" } )
+    {
+      auto it = std::find_if( properties.begin(), properties.end(),
+                              [&name] ( const PropertyDescriptor& descriptor )
+                              {
+                                return descriptor.name == name && descriptor.bytes > 0;
+                              } );
+
+      if( it == properties.end() )
+        throw std::runtime_error( "Format error: Expecting coordinates for every vertex" );
+    }
+
     for( std::size_t vertexIndex = 0; vertexIndex < numVertices; vertexIndex++ )
     {
       std::vector<double> coordinates;
@@ -391,7 +411,7 @@ private:
         if( descriptor.bytesListSize + descriptor.bytesListEntry != 0 )
           continue;
 
-        detail::PLYValue pv;
+        detail::PLYValue pv = detail::PLYValue();
 
         switch( descriptor.bytes )
         {
@@ -409,16 +429,15 @@ private:
             break;
         }
 
+        if( !in )
+          throw std::runtime_error( "Vertex conversion error: Unexpected end of file" );
+
         // FIXME: Not sure whether this is legal...
         if( descriptor.name == "x" || descriptor.name == "y" || descriptor.name == "z" )
           coordinates.push_back( pv.d );
       }
     }
 
-    for( std::size_t faceIndex = 0; faceIndex < numVertices; faceIndex++ )
-    {
-    }
-
     return {};
   }
 
@@ -433,6 +452,8 @@ private:
     std::vector<Simplex> simplices;
     std::string line;
 
+    _coordinates.clear();
+
     auto getPropertyIndex = [&properties] ( const std::string& property )
     {
       auto it = std::find_if( properties.begin(), properties.end(),
@@ -514,6 +535,12 @@ private:
         if( !converter )
           throw std::runtime_error( "Unable to parse vertex indices" );
 
+        if( i1 >= numVertices || i2 >= numVertices || i3 >= numVertices )
+          throw std::runtime_error( "Format error: Face refers to unknown vertex" );
+
+        if( i1 == i2 || i1 == i3 || i2 == i3 )
+          throw std::runtime_error( "Format error: Face contains duplicate vertices" );
+
         Simplex triangle( {i1,i2,i3} );
 
         // Create edges ----------------------------------------------
-- 
2.43.0


From 3722bcdf3a3f8733c290c96f21093b3da2aab860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:56:00 +0000
Subject: [PATCH 031/112] fix: reset spectrum data between reads and normalise
 single peaks

---
 include/aleph/topology/io/FlexSpectrum.hh | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/include/aleph/topology/io/FlexSpectrum.hh b/include/aleph/topology/io/FlexSpectrum.hh
index ff22c86..4a369ff 100644
--- a/include/aleph/topology/io/FlexSpectrum.hh
+++ b/include/aleph/topology/io/FlexSpectrum.hh
@@ -42,6 +42,9 @@ public:
     std::vector<DataType> intensities;
     std::vector<Simplex> simplices;
 
+    _index_to_value.clear();
+    _index_to_intensity.clear();
+
     // Read lines & create vertices ------------------------------------
     //
     // This only fills up the auxiliary data structure of the spectrum
@@ -72,20 +75,12 @@ public:
       ++index;
     }
 
-    // Abandon further calculations; the simplicial complex is empty or
-    // almost empty and no edges can be added.
-    if( index <= 1)
-    {
-      K = SimplicialComplex( simplices.begin(), simplices.end() );
-      return;
-    }
-
     // Create edges ----------------------------------------------------
     //
     // Creates a superlevel set filtration for the spectrum by assigning
     // each edge the *minimum* of the two function values.
 
-    for( std::size_t i = 0; i < index - 1; i++ )
+    for( std::size_t i = 0; i + 1 < index; i++ )
     {
       VertexType u = VertexType(i  );
       VertexType v = VertexType(i+1);
-- 
2.43.0


From cc74d958a2fb394d1685d37c1bcd8a3d37f81b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:56:00 +0000
Subject: [PATCH 032/112] fix: handle line breaks and unexpected characters in
 lexicographic triangulations

---
 .../aleph/topology/io/LexicographicTriangulation.hh  | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/aleph/topology/io/LexicographicTriangulation.hh b/include/aleph/topology/io/LexicographicTriangulation.hh
index 22c2ce4..9f274ac 100644
--- a/include/aleph/topology/io/LexicographicTriangulation.hh
+++ b/include/aleph/topology/io/LexicographicTriangulation.hh
@@ -121,7 +121,9 @@ private:
     auto numOpeningBrackets = std::count( block.begin(), block.end(), '[' );
     auto numClosingBrackets = std::count( block.begin(), block.end(), ']' );
 
-    return numOpeningBrackets == numClosingBrackets;
+    // A block without any brackets has not started yet. Its list may be
+    // part of one of the next lines.
+    return numOpeningBrackets > 0 && numOpeningBrackets == numClosingBrackets;
   }
 
   /**
@@ -132,7 +134,7 @@ private:
     Upon success, a non-empty simplicial complex is returned.
   */
 
-  template <class SimplicialComplex> static SimplicialComplex parseBlock( const std::string& block ) noexcept
+  template <class SimplicialComplex> static SimplicialComplex parseBlock( const std::string& block )
   {
     // Sanity check
     if( !isBlockFinished( block ) )
@@ -189,9 +191,13 @@ private:
 
       // Just skip all valid characters and try to directly proceed with
       // the parsing process.
-      if( *it == ',' || std::isspace( *it ) )
+      if( it != block.end() && ( *it == ',' || std::isspace( static_cast<unsigned char>( *it ) ) ) )
         ++it;
 
+      // Format error: there must not be anything else between simplices
+      else if( !parsingSimplex && it != block.end() && *it != '[' && *it != ']' )
+        return {};
+
       // Look ahead until the next "]" appears. Tokenize the list of
       // vertices in between.
       if( parsingSimplex )
-- 
2.43.0


From a883cbd4124fc0cc24d93aea1b597b911f7142f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:03:15 +0000
Subject: [PATCH 033/112] fix: reject malformed JSON persistence diagrams
 instead of aborting

---
 include/aleph/persistenceDiagrams/io/JSON.hh | 21 +++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/aleph/persistenceDiagrams/io/JSON.hh b/include/aleph/persistenceDiagrams/io/JSON.hh
index 2065ec0..14d284d 100644
--- a/include/aleph/persistenceDiagrams/io/JSON.hh
+++ b/include/aleph/persistenceDiagrams/io/JSON.hh
@@ -10,6 +10,7 @@
 #include <fstream>
 #include <istream>
 #include <ostream>
+#include <stdexcept>
 #include <string>
 
 #include <map>
@@ -116,11 +117,26 @@ template <class T> std::vector< aleph::PersistenceDiagram<T> > readJSON( std::is
 
   std::vector<PersistenceDiagram> persistenceDiagrams;
 
-  if( !document.HasMember( "diagrams" ) )
+  if( document.HasParseError() || !document.IsObject() )
+    throw std::runtime_error( "Unable to parse JSON document" );
+
+  if( !document.HasMember( "diagrams" ) || !document["diagrams"].IsArray() )
     throw std::runtime_error( "Unable to find array of persistence diagrams" );
 
   for( auto&& diagram : document["diagrams"].GetArray() )
   {
+    if( !diagram.IsObject() )
+      throw std::runtime_error( "Persistence diagram must be an object" );
+
+    for( auto&& name : { "dimension", "betti", "size" } )
+    {
+      if( !diagram.HasMember( name ) || !diagram[name].IsUint() )
+        throw std::runtime_error( "Persistence diagram must contain dimension, Betti number, and size" );
+    }
+
+    if( !diagram.HasMember( "diagram" ) || !diagram["diagram"].IsArray() )
+      throw std::runtime_error( "Persistence diagram must contain array of points" );
+
     auto dimension = diagram["dimension"].GetUint();
     auto betti     = diagram["betti"].GetUint();
     auto size      = diagram["size"].GetUint();
@@ -130,6 +146,9 @@ template <class T> std::vector< aleph::PersistenceDiagram<T> > readJSON( std::is
 
     for( auto&& point : diagram["diagram"].GetArray() )
     {
+      if( !point.IsArray() || point.Size() != 2 || !point[0].IsString() || !point[1].IsString() )
+        throw std::runtime_error( "Point in persistence diagram must consist of two strings" );
+
       auto x  = aleph::utilities::convert<T>( point[0].GetString() );
       auto y  = aleph::utilities::convert<T>( point[1].GetString() );
 
-- 
2.43.0


From cdf47da59662dbe696c917eb57f800e165ab00f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:03:15 +0000
Subject: [PATCH 034/112] fix: load point clouds whose last line is not
 terminated

---
 include/aleph/containers/PointCloud.hh | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/include/aleph/containers/PointCloud.hh b/include/aleph/containers/PointCloud.hh
index 88438a8..ae8328a 100644
--- a/include/aleph/containers/PointCloud.hh
+++ b/include/aleph/containers/PointCloud.hh
@@ -233,35 +233,30 @@ template<class T> PointCloud<T> load( std::istream& in )
   if( !in )
     return PointCloud<T>();
 
-  auto lines = std::count( std::istreambuf_iterator<char>( in ),
-                           std::istreambuf_iterator<char>(),
-                           '\n' );
-
-  in.clear();
-  in.seekg( 0 );
-
-  if( lines <= 0 )
-    return PointCloud<T>();
-
-  // Recount all lines in the file, removing comments and empty lines
+  // Count all lines in the file, removing comments and empty lines
   // from the calculation. Else, the code below allocates many points
   // that will remain empty.
+  std::size_t lines = 0;
+
   {
     std::string line;
     while( std::getline( in, line ) )
     {
       line = utilities::trim( line );
-      if( line.empty() || line.front() == '#' )
-        lines -= 1;
+      if( !line.empty() && line.front() != '#' )
+        lines += 1;
     }
   }
 
+  if( lines == 0 )
+    return PointCloud<T>();
+
   in.clear();
   in.seekg( 0 );
 
   std::size_t i = 0;
   std::size_t d = 0;
-  std::size_t n = static_cast<std::size_t>( lines );
+  std::size_t n = lines;
 
   std::string line;
 
-- 
2.43.0


From 4ac563af37a9c0e7ec7b263ac128e027a0eb4967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:03:15 +0000
Subject: [PATCH 035/112] fix: ignore indented comments and reject unknown
 indices when loading boundary matrices

---
 include/aleph/topology/BoundaryMatrix.hh | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/aleph/topology/BoundaryMatrix.hh b/include/aleph/topology/BoundaryMatrix.hh
index 609a89b..0c784a7 100644
--- a/include/aleph/topology/BoundaryMatrix.hh
+++ b/include/aleph/topology/BoundaryMatrix.hh
@@ -196,10 +196,6 @@ public:
 
     while( std::getline( in, line ) )
     {
-      // Ignore empty lines and comment lines
-      if( line.empty() || line.front() == '#' )
-        continue;
-
       std::istringstream iss( line );
 
       std::vector<std::string> tokens;
@@ -208,8 +204,8 @@ public:
                  std::istream_iterator<std::string>(),
                  std::back_inserter( tokens ) );
 
-      // Ignore this line if it does not contain any tokens
-      if( tokens.empty() )
+      // Ignore empty lines and comment lines
+      if( tokens.empty() || tokens.front().front() == '#' )
         continue;
 
       std::vector<Index> indices;
@@ -228,6 +224,9 @@ public:
       // representation of the matrix class.
       std::sort( indices.begin() + 1, indices.end() );
 
+      if( indices.size() > 1 && indices.back() >= numColumns )
+        throw std::runtime_error( "Boundary refers to unknown column" );
+
       M.setColumn( curColumn,
                    indices.begin() + 1, indices.end() );
 
-- 
2.43.0


From a6d0ed2dfa70673d9e07bd2bb1d585f160470589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:03:15 +0000
Subject: [PATCH 036/112] fix: report errors of the HDF5 library as standard
 exceptions

---
 include/aleph/topology/io/HDF5.hh | 55 ++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/include/aleph/topology/io/HDF5.hh b/include/aleph/topology/io/HDF5.hh
index 2d76fd2..70969a8 100644
--- a/include/aleph/topology/io/HDF5.hh
+++ b/include/aleph/topology/io/HDF5.hh
@@ -81,6 +81,41 @@ public:
   template <class SimplicialComplex, class Functor> void operator()( const std::string& filename, SimplicialComplex& K, Functor f )
   {
 #ifdef ALEPH_WITH_HDF5
+    try
+    {
+      this->readFile( filename, K, f );
+    }
+    catch( H5::Exception& e )
+    {
+      // The exceptions of the HDF5 library do not derive from any of the
+      // standard exceptions.
+      throw std::runtime_error( "Unable to read HDF5 file: " + e.getDetailMsg() );
+    }
+#else
+    (void) filename;
+    (void) K;
+    (void) f;
+
+    throw std::runtime_error( "Missing dependency HDF5 to use this reader" );
+#endif
+  }
+
+  // Getters -----------------------------------------------------------
+
+  std::string groupName() const noexcept   { return _groupName; }
+  std::string dataSetName() const noexcept { return _dataSetName; }
+
+  // Setters -----------------------------------------------------------
+
+  void setGroupName( const std::string& name ) noexcept   { _groupName = name;   }
+  void setDataSetName( const std::string& name ) noexcept { _dataSetName = name; }
+
+private:
+
+#ifdef ALEPH_WITH_HDF5
+  /** Reads all data from an HDF5 file and creates the simplicial complex */
+  template <class SimplicialComplex, class Functor> void readFile( const std::string& filename, SimplicialComplex& K, Functor f )
+  {
     using namespace H5;
 
     H5File file( filename, H5F_ACC_RDONLY );
@@ -194,26 +229,8 @@ public:
     }
 
     K = SimplicialComplex( simplices.begin(), simplices.end() );
-#else
-    (void) filename;
-    (void) K;
-    (void) f;
-
-    throw std::runtime_error( "Missing dependency HDF5 to use this reader" );
-#endif
   }
-
-  // Getters -----------------------------------------------------------
-
-  std::string groupName() const noexcept   { return _groupName; }
-  std::string dataSetName() const noexcept { return _dataSetName; }
-
-  // Setters -----------------------------------------------------------
-
-  void setGroupName( const std::string& name ) noexcept   { _groupName = name;   }
-  void setDataSetName( const std::string& name ) noexcept { _dataSetName = name; }
-
-private:
+#endif
 
   /**
     Auxiliary function for reading data from an HDF5 file and *directly*
-- 
2.43.0


From 62e08dd92d3696599036d51a328f7c4d098e3e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:16:49 +0000
Subject: [PATCH 037/112] fix: reject Pajek edges that refer to unknown
 vertices

---
 include/aleph/topology/io/Pajek.hh | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/include/aleph/topology/io/Pajek.hh b/include/aleph/topology/io/Pajek.hh
index 70219c4..74303f8 100644
--- a/include/aleph/topology/io/Pajek.hh
+++ b/include/aleph/topology/io/Pajek.hh
@@ -5,6 +5,7 @@
 #include <fstream>
 #include <map>
 #include <regex>
+#include <set>
 #include <stdexcept>
 #include <string>
 #include <vector>
@@ -160,6 +161,27 @@ public:
       }
     }
 
+    // Edges must not refer to vertices that have not been specified. Else,
+    // the simplicial complex would not be valid.
+    {
+      std::set<VertexType> vertices;
+
+      for( auto&& simplex : simplices )
+      {
+        if( simplex.dimension() == 0 )
+          vertices.insert( *simplex.begin() );
+      }
+
+      for( auto&& simplex : simplices )
+      {
+        for( auto&& vertex : simplex )
+        {
+          if( vertices.find( vertex ) == vertices.end() )
+            throw std::runtime_error( "Edge refers to unknown vertex" );
+        }
+      }
+    }
+
     // The file does not contain any edges or vertex specifications, so
     // there are only isolated vertices.
     if( simplices.empty() )
-- 
2.43.0


From 670976c63b03d9527277abf7bb829ee48f54b248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:16:49 +0000
Subject: [PATCH 038/112] fix: reject GML edges that refer to unknown nodes

---
 include/aleph/topology/io/GML.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/aleph/topology/io/GML.hh b/include/aleph/topology/io/GML.hh
index 6bf5edc..edcbfa7 100644
--- a/include/aleph/topology/io/GML.hh
+++ b/include/aleph/topology/io/GML.hh
@@ -303,6 +303,9 @@ public:
       auto u = static_cast<VertexType>( getID( nodeIDs, edge.source ) );
       auto v = static_cast<VertexType>( getID( nodeIDs, edge.target ) );
 
+      if( id_to_simplex.find(u) == id_to_simplex.end() || id_to_simplex.find(v) == id_to_simplex.end() )
+        throw std::runtime_error( "Edge refers to unknown node" );
+
       // No optional data attached; need to create weight based on node
       // weights, if those are available.
       if( edge.dict.find( "weight" ) == edge.dict.end() && edge.dict.find( "value" ) == edge.dict.end() )
-- 
2.43.0


From 12c929accffa9124f64e88d578d14c9e743b67f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:16:49 +0000
Subject: [PATCH 039/112] fix: reject duplicate indices when loading boundary
 matrices

---
 include/aleph/topology/BoundaryMatrix.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/aleph/topology/BoundaryMatrix.hh b/include/aleph/topology/BoundaryMatrix.hh
index 0c784a7..47fdc88 100644
--- a/include/aleph/topology/BoundaryMatrix.hh
+++ b/include/aleph/topology/BoundaryMatrix.hh
@@ -227,6 +227,9 @@ public:
       if( indices.size() > 1 && indices.back() >= numColumns )
         throw std::runtime_error( "Boundary refers to unknown column" );
 
+      if( std::adjacent_find( indices.begin() + 1, indices.end() ) != indices.end() )
+        throw std::runtime_error( "Boundary contains duplicate indices" );
+
       M.setColumn( curColumn,
                    indices.begin() + 1, indices.end() );
 
-- 
2.43.0


From 2e77a3b96624107a4f03bfbf49f6a52bdd772ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:38:36 +0000
Subject: [PATCH 040/112] fix: read back JSON persistence diagrams in the
 format in which they are written

---
 include/aleph/persistenceDiagrams/io/JSON.hh | 48 +++++++++++++++++---
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/include/aleph/persistenceDiagrams/io/JSON.hh b/include/aleph/persistenceDiagrams/io/JSON.hh
index 14d284d..dab7d8d 100644
--- a/include/aleph/persistenceDiagrams/io/JSON.hh
+++ b/include/aleph/persistenceDiagrams/io/JSON.hh
@@ -26,6 +26,32 @@ namespace aleph
 namespace io
 {
 
+namespace detail
+{
+
+/** Escapes a string such that it can be stored as a JSON value */
+inline std::string escapeJSON( const std::string& string )
+{
+  std::string result;
+
+  for( auto&& c : string )
+  {
+    switch( c )
+    {
+    case '"':  result += "\\\""; break;
+    case '\\': result += "\\\\"; break;
+    case '\n': result += "\\n";  break;
+    case '\r': result += "\\r";  break;
+    case '\t': result += "\\t";  break;
+    default:   result += c;
+    }
+  }
+
+  return result;
+}
+
+} // namespace detail
+
 /**
   Writes a persistence diagram to an output stream, using the JSON
   format. The diagram will be serialized such that its points will
@@ -56,11 +82,11 @@ template <class Diagram> void writeJSON(
   if( !kvs.empty() )
   {
     for( auto&& pair : kvs )
-      o << level << "\"" << pair.first << "\": " << "\"" << pair.second << "\",\n";
+      o << level << "\"" << detail::escapeJSON( pair.first ) << "\": " << "\"" << detail::escapeJSON( pair.second ) << "\",\n";
   }
 
   if( !name.empty() )
-    o << level << "\"name\": " << "\"" << name << "\",\n";
+    o << level << "\"name\": " << "\"" << detail::escapeJSON( name ) << "\",\n";
 
   o << level << "\"size\": "      << D.size()      << ",\n"
     << level << "\"diagram\": "   << "[\n";
@@ -120,10 +146,9 @@ template <class T> std::vector< aleph::PersistenceDiagram<T> > readJSON( std::is
   if( document.HasParseError() || !document.IsObject() )
     throw std::runtime_error( "Unable to parse JSON document" );
 
-  if( !document.HasMember( "diagrams" ) || !document["diagrams"].IsArray() )
-    throw std::runtime_error( "Unable to find array of persistence diagrams" );
-
-  for( auto&& diagram : document["diagrams"].GetArray() )
+  // Auxiliary function for converting an individual diagram; this is the
+  // format that is used by `writeJSON()`.
+  auto addDiagram = [&persistenceDiagrams] ( const rapidjson::Value& diagram )
   {
     if( !diagram.IsObject() )
       throw std::runtime_error( "Persistence diagram must be an object" );
@@ -162,7 +187,18 @@ template <class T> std::vector< aleph::PersistenceDiagram<T> > readJSON( std::is
       throw std::runtime_error( "Stored Betti number does not match Betti number of persistence diagram" );
 
     persistenceDiagrams.emplace_back( persistenceDiagram );
+  };
+
+  // A document may also consist of a single diagram only
+  if( document.HasMember( "diagram" ) )
+    addDiagram( document );
+  else if( document.HasMember( "diagrams" ) && document["diagrams"].IsArray() )
+  {
+    for( auto&& diagram : document["diagrams"].GetArray() )
+      addDiagram( diagram );
   }
+  else
+    throw std::runtime_error( "Unable to find array of persistence diagrams" );
 
   return persistenceDiagrams;
 
-- 
2.43.0


From d37134601bdb4f2166e5d7e6039379ab6946869d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:46 +0000
Subject: [PATCH 041/112] fix: stop reading PLY files at the end of the file

---
 include/aleph/topology/io/PLY.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/aleph/topology/io/PLY.hh b/include/aleph/topology/io/PLY.hh
index 221c2ef..843b769 100644
--- a/include/aleph/topology/io/PLY.hh
+++ b/include/aleph/topology/io/PLY.hh
@@ -474,7 +474,8 @@ private:
     {
       std::vector<double> vertexCoordinates( 3 );
 
-      std::getline( in, line );
+      if( !std::getline( in, line ) )
+        throw std::runtime_error( "Vertex conversion error: Unexpected end of file" );
 
       line        = utilities::trim( line );
       auto tokens = utilities::split( line );
@@ -511,7 +512,9 @@ private:
 
     for( std::size_t faceIndex = 0; faceIndex < numFaces; faceIndex++ )
     {
-      std::getline( in, line );
+      if( !std::getline( in, line ) )
+        throw std::runtime_error( "Face conversion error: Unexpected end of file" );
+
       std::istringstream converter( line );
 
       unsigned numEntries = 0;
-- 
2.43.0


From 9e7088d6118c2a1fba0041c8dd94018cdbd230f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:39 +0000
Subject: [PATCH 042/112] fix: include the highest dimension in Euler
 characteristics

---
 include/aleph/persistentHomology/EulerCharacteristic.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/aleph/persistentHomology/EulerCharacteristic.hh b/include/aleph/persistentHomology/EulerCharacteristic.hh
index b85541e..76c5072 100644
--- a/include/aleph/persistentHomology/EulerCharacteristic.hh
+++ b/include/aleph/persistentHomology/EulerCharacteristic.hh
@@ -30,7 +30,7 @@ template <class SimplicialComplex> long eulerCharacteristic( const SimplicialCom
   }
 
   short s = 1;
-  for( std::size_t d = 0; d < K.dimension(); d++ )
+  for( std::size_t d = 0; d <= K.dimension(); d++ )
   {
     chi += s * cardinality[d];
     s    = s * (-1);
@@ -64,7 +64,7 @@ template <class InputIterator> long eulerCharacteristic( InputIterator begin,
   long chi = 0;
   short s  = 1;
 
-  for( std::size_t d = 0; d < D; d++ )
+  for( std::size_t d = 0; d <= D; d++ )
   {
     chi += s * betti[d];
     s   *= (-1);
@@ -98,7 +98,7 @@ template <class InputIterator> auto persistentEulerCharacteristic( InputIterator
   for( auto it = begin; it != end; ++it )
   {
     auto&& diagram = *it;
-    auto s         = std::pow( -1, it->dimension);
+    auto s         = it->dimension() % 2 == 0 ? DataType(1) : DataType(-1);
 
     for( auto&& point : diagram )
       chi += s * point.persistence();
-- 
2.43.0


From 1ebf8c6fdc8f15336818a9fa69144a9f1f6f40d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:53:56 +0000
Subject: [PATCH 043/112] fix: pass the dimension to the weight functor of
 barycentric subdivisions

---
 include/aleph/topology/BarycentricSubdivision.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/topology/BarycentricSubdivision.hh b/include/aleph/topology/BarycentricSubdivision.hh
index e5a0428..df8e703 100644
--- a/include/aleph/topology/BarycentricSubdivision.hh
+++ b/include/aleph/topology/BarycentricSubdivision.hh
@@ -181,7 +181,7 @@ public:
           // The new cone simplex needs to use the same weight as the
           // barycentre simplex.
           cone.emplace_back( Simplex( vertices.begin(), vertices.end(),
-                                      s.data() * DataType( functor( vertices.size() ) ) ) );
+                                      s.data() * DataType( functor( vertices.size() - 1 ) ) ) );
         }
 
        // Cone boundaries; required in order to ensure consistency of
@@ -198,7 +198,7 @@ public:
           // the resulting simplicial complex---it will not be used by
           // any other simplex during the subdivision.
           L.push_back( Simplex( vertices.begin(), vertices.end(),
-                                s.data() * DataType( functor( vertices.size() ) ) ) );
+                                s.data() * DataType( functor( vertices.size() - 1 ) ) ) );
         }
 
         subdivision[s] = cone;
-- 
2.43.0


From 79be0790ef386d6b49c15eabac32b71d271ccbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:01 +0000
Subject: [PATCH 044/112] fix: report the degree of isolated vertices

---
 include/aleph/topology/filtrations/Degree.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/aleph/topology/filtrations/Degree.hh b/include/aleph/topology/filtrations/Degree.hh
index 13c9be6..5789f9c 100644
--- a/include/aleph/topology/filtrations/Degree.hh
+++ b/include/aleph/topology/filtrations/Degree.hh
@@ -46,6 +46,11 @@ template <class SimplicialComplex, class OutputIterator> void degrees( const Sim
       for( auto&& vertex : simplex )
         degrees[vertex] += 1;
     }
+
+    // Ensures that isolated vertices are reported as well. Else, the
+    // degrees cannot be assigned to their vertices any more.
+    else
+      degrees[ *simplex.begin() ] += 0;
   }
 
   for( auto&& pair : degrees )
-- 
2.43.0


From f808ea1a7934fcbf6cd9f0dfefc40f4bc66a930d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:01 +0000
Subject: [PATCH 045/112] fix: avoid integer overflows for unreachable nodes in
 Floyd--Warshall

---
 include/aleph/topology/FloydWarshall.hh | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/aleph/topology/FloydWarshall.hh b/include/aleph/topology/FloydWarshall.hh
index cbb9107..ceae9e8 100644
--- a/include/aleph/topology/FloydWarshall.hh
+++ b/include/aleph/topology/FloydWarshall.hh
@@ -61,11 +61,13 @@ template <class SimplicialComplex> auto floydWarshall( const SimplicialComplex&
 
   Matrix M( static_cast<VertexType>( n ) );
 
+  auto infinity = std::numeric_limits<DataType>::has_infinity ? std::numeric_limits<DataType>::infinity() : std::numeric_limits<DataType>::max();
+
   for( VertexType i = VertexType(0); i < VertexType(n); i++ )
   {
     M(i,i) = DataType(0);
     for( auto j = i+1; j < VertexType(n); j++ )
-      M(i,j) = std::numeric_limits<DataType>::has_infinity ? std::numeric_limits<DataType>::infinity() : std::numeric_limits<DataType>::max();
+      M(i,j) = infinity;
   }
 
   for( auto&& s : K )
@@ -85,8 +87,17 @@ template <class SimplicialComplex> auto floydWarshall( const SimplicialComplex&
   {
     for( VertexType i = VertexType(0); i < VertexType(n); i++ )
     {
+      // Nothing can be reached via this node. The check is required because
+      // adding anything to the largest value of an integral type results in
+      // an overflow.
+      if( M(i,k) == infinity )
+        continue;
+
       for( auto j = i+1; j < VertexType(n); j++ )
       {
+        if( M(k,j) == infinity )
+          continue;
+
         if( M(i,j) > M(i,k) + M(k,j) )
           M(i,j) = M(i,k) + M(k,j);
       }
-- 
2.43.0


From 9afc6398ee476191fb839851c5dbcbeab5206bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:01 +0000
Subject: [PATCH 046/112] fix: do not count simplices as their own parallel
 neighbours and permit negative curvature

---
 include/aleph/topology/CombinatorialCurvature.hh | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/aleph/topology/CombinatorialCurvature.hh b/include/aleph/topology/CombinatorialCurvature.hh
index 9aa199d..b0283a9 100644
--- a/include/aleph/topology/CombinatorialCurvature.hh
+++ b/include/aleph/topology/CombinatorialCurvature.hh
@@ -92,23 +92,23 @@ template <class SimplicialComplex, class OutputIterator> void curvature( const S
                                                                          OutputIterator result,
                                                                          unsigned p = 1 )
 {
-  using Simplex    = typename SimplicialComplex::ValueType;
-  using VertexType = typename Simplex::VertexType;
-  auto pair        = K.range( p );
+  using Simplex = typename SimplicialComplex::ValueType;
+  auto pair     = K.range( p );
 
   for( auto&& it = pair.first; it != pair.second; ++it )
   {
     auto&& s                   = *it;
     auto isCoface              = [&s]    ( const Simplex& t ) { return hasFace( t, s ); };
-    auto isParallelNeighbour   = [&K,&s] ( const Simplex& t ) { return parallelNeighbours( K, s, t ); };
+    auto isParallelNeighbour   = [&K,&s] ( const Simplex& t ) { return s != t && parallelNeighbours( K, s, t ); };
     auto range                 = K.range( s.dimension() + 1 );
     auto numCofaces            = std::count_if( range.first, range.second, isCoface );
     range                      = K.range( s.dimension() );
     auto numParallelNeighbours = std::count_if( range.first, range.second, isParallelNeighbour );
 
-    *result++ = VertexType(   VertexType( numCofaces )
-                            + VertexType( s.size() )
-                            - VertexType( numParallelNeighbours ) );
+    // Notice that the curvature may be negative
+    *result++ =   static_cast<long>( numCofaces )
+                + static_cast<long>( s.size() )
+                - static_cast<long>( numParallelNeighbours );
   }
 }
 
-- 
2.43.0


From fb0edfcf53b5b66a87b48e7b1415e03709e04b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:01 +0000
Subject: [PATCH 047/112] fix: use the absolute difference of every neighbour
 for weighted curvature

---
 .../aleph/topology/CombinatorialCurvature.hh   | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/aleph/topology/CombinatorialCurvature.hh b/include/aleph/topology/CombinatorialCurvature.hh
index b0283a9..6b4e8ed 100644
--- a/include/aleph/topology/CombinatorialCurvature.hh
+++ b/include/aleph/topology/CombinatorialCurvature.hh
@@ -203,8 +203,7 @@ template <class SimplicialComplex, class OutputIterator> void weightedCurvature(
 
     range = K.range( s.dimension() );
 
-    std::vector<DataType> weights_commonCofaces;
-    std::vector<DataType> weights_commonFaces;
+    std::vector<DataType> weights_Neighbours;
 
     for( auto itNeighbour = range.first; itNeighbour != range.second; ++itNeighbour )
     {
@@ -215,19 +214,24 @@ template <class SimplicialComplex, class OutputIterator> void weightedCurvature(
       auto faces   = commonFaces  ( K, *itNeighbour, s );
       auto weight  = std::sqrt( s.data() * itNeighbour->data() );
 
+      // The weight of every neighbour is a *difference*, the absolute value
+      // of which contributes to the curvature.
+      aleph::math::KahanSummation<DataType> difference = DataType();
+
       for( auto&& coface : cofaces )
-        weights_commonCofaces.push_back( weight / coface.data() );
+        difference += weight / coface.data();
 
       for( auto&& face : faces )
-        weights_commonFaces.push_back( face.data() / weight );
+        difference -= face.data() / weight;
+
+      weights_Neighbours.push_back( std::abs( DataType( difference ) ) );
     }
 
     auto s11 = aleph::math::accumulate_kahan_sorted( weights_Cofaces.begin()      , weights_Cofaces.end()      , DataType() );
     auto s12 = aleph::math::accumulate_kahan_sorted( weights_Faces.begin()        , weights_Faces.end()        , DataType() );
-    auto s21 = aleph::math::accumulate_kahan_sorted( weights_commonCofaces.begin(), weights_commonCofaces.end(), DataType() );
-    auto s22 = aleph::math::accumulate_kahan_sorted( weights_commonFaces.begin()  , weights_commonFaces.end()  , DataType() );
+    auto s2  = aleph::math::accumulate_kahan_sorted( weights_Neighbours.begin()   , weights_Neighbours.end()   , DataType() );
 
-    auto curvature = s.data() * ( (s11 + s12) - std::abs( s21 - s22 ) );
+    auto curvature = s.data() * ( (s11 + s12) - s2 );
     *result++      = curvature;
   }
 }
-- 
2.43.0


From a343e4e7c2c98ae2a787cca275cc16ba4affdc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:01 +0000
Subject: [PATCH 048/112] fix: calculate the pseudo-inverse of the Laplacian
 for all graphs

---
 include/aleph/geometry/HeatKernel.hh | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/aleph/geometry/HeatKernel.hh b/include/aleph/geometry/HeatKernel.hh
index 8b5b3bd..d79f927 100644
--- a/include/aleph/geometry/HeatKernel.hh
+++ b/include/aleph/geometry/HeatKernel.hh
@@ -11,6 +11,7 @@
 #include <aleph/math/KahanSummation.hh>
 
 #include <algorithm>
+#include <limits>
 #include <unordered_map>
 #include <stdexcept>
 #include <string>
@@ -143,15 +144,33 @@ template <class SimplicialComplex> auto weightedLaplacianMatrix( const Simplicia
 template <class SimplicialComplex> auto pinvWeightedLaplacianMatrix( const SimplicialComplex& K ) -> Eigen::Matrix<typename SimplicialComplex::ValueType::DataType, Eigen::Dynamic, Eigen::Dynamic>
 {
   auto L = weightedLaplacianMatrix( K );
-  auto n = L.rows();
 
   using Matrix    = decltype(L);
+  using IndexType = typename Matrix::Index;
   using Simplex   = typename SimplicialComplex::ValueType;
   using DataType  = typename Simplex::DataType;
 
-  Matrix M = Matrix::Constant( L.rows(), L.cols(), static_cast<DataType>( 1/ n ) );
+  Eigen::SelfAdjointEigenSolver<Matrix> solver;
+  solver.compute( L );
+
+  auto eigenvalues  = solver.eigenvalues();
+  auto eigenvectors = solver.eigenvectors();
+
+  // Every connected component of the complex results in an eigenvalue of
+  // zero, which must not be inverted.
+  auto threshold    =   eigenvalues.cwiseAbs().maxCoeff()
+                      * static_cast<DataType>( 10 * L.rows() )
+                      * std::numeric_limits<DataType>::epsilon();
+
+  Matrix M = Matrix::Zero( L.rows(), L.cols() );
+
+  for( IndexType i = 0; i < eigenvalues.size(); i++ )
+  {
+    if( std::abs( eigenvalues(i) ) > threshold )
+      M += eigenvectors.col(i) * eigenvectors.col(i).transpose() / eigenvalues(i);
+  }
 
-  return (M+L).inverse() - M;
+  return M;
 }
 
 #endif
-- 
2.43.0


From ea3952253c39529d4122525dcd5e693ba4ead5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:01 +0000
Subject: [PATCH 049/112] fix: evaluate the heat kernel for all vertices and
 its determinant

---
 include/aleph/geometry/HeatKernel.hh | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/aleph/geometry/HeatKernel.hh b/include/aleph/geometry/HeatKernel.hh
index d79f927..6b9b1be 100644
--- a/include/aleph/geometry/HeatKernel.hh
+++ b/include/aleph/geometry/HeatKernel.hh
@@ -248,7 +248,7 @@ public:
   }
 
   /**
-    Evaluates the heat kernel for *all* vertices at a given time \f$t\f$
+    Evaluates the auto-diffusion of *all* vertices at a given time \f$t\f$
     and returns the resulting values. This function is guaranteed to be
     more efficient than calling the per-element functions repeatedly.
   */
@@ -257,14 +257,17 @@ public:
   {
 #ifdef ALEPH_WITH_EIGEN
 
-    Vector result = Vector();
+    if( _eigenvectors.empty() )
+      return {};
+
+    Vector result = Vector::Zero( _eigenvectors.front().size() );
 
     for( std::size_t k = 0; k < _eigenvalues.size(); k++ )
     {
       auto&& lk  = std::exp( -t * _eigenvalues[k] );
       auto&& uk = _eigenvectors[k];
 
-      result += lk * uk * uk.transpose();
+      result += lk * uk.cwiseProduct( uk );
     }
 
     return std::vector<T>( result.data(), result.data() + result.size() );
@@ -362,7 +365,7 @@ public:
 
   T determinant( T t) const
   {
-    T result = T();
+    T result = T(1);
 
     for( auto&& eigenvalue : _eigenvalues )
       result = result * std::exp( -t * eigenvalue );
-- 
2.43.0


From a6f53b3dc76fc8feddaf534c54143a01e9906e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:22 +0000
Subject: [PATCH 050/112] fix: honour skipping of the first eigenvector in heat
 kernels

---
 include/aleph/geometry/HeatKernel.hh | 43 +++++++++++++++++++---------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/include/aleph/geometry/HeatKernel.hh b/include/aleph/geometry/HeatKernel.hh
index 6b9b1be..0fa4119 100644
--- a/include/aleph/geometry/HeatKernel.hh
+++ b/include/aleph/geometry/HeatKernel.hh
@@ -231,12 +231,10 @@ public:
 
     using IndexType_ = typename decltype(L)::Index;
 
-    // If configured, skip both the first eigenvector and the first
-    // eigenvalue because they do not contribute anything later on.
-    for( IndexType_ i = _skip ? 1 : 0; i < eigenvalues.size(); i++ )
+    for( IndexType_ i = 0; i < eigenvalues.size(); i++ )
       _eigenvalues.push_back( eigenvalues(i) );
 
-    for( IndexType_ i = _skip ? 1 : 0; i < eigenvectors.cols(); i++ )
+    for( IndexType_ i = 0; i < eigenvectors.cols(); i++ )
       _eigenvectors.push_back( eigenvectors.col(i) );
 
 #else
@@ -262,7 +260,7 @@ public:
 
     Vector result = Vector::Zero( _eigenvectors.front().size() );
 
-    for( std::size_t k = 0; k < _eigenvalues.size(); k++ )
+    for( std::size_t k = this->firstIndex(); k < _eigenvalues.size(); k++ )
     {
       auto&& lk  = std::exp( -t * _eigenvalues[k] );
       auto&& uk = _eigenvectors[k];
@@ -290,7 +288,7 @@ public:
 
     aleph::math::KahanSummation<T> result = T();
 
-    for( std::size_t k = 0; k < _eigenvalues.size(); k++ )
+    for( std::size_t k = this->firstIndex(); k < _eigenvalues.size(); k++ )
     {
       auto&& lk  = std::exp( -t * _eigenvalues[k] );
       auto&& uik = _eigenvectors[k](i);
@@ -325,7 +323,7 @@ public:
 
     aleph::math::KahanSummation<T> result = T();
 
-    for( std::size_t k = 0; k < _eigenvalues.size(); k++ )
+    for( std::size_t k = this->firstIndex(); k < _eigenvalues.size(); k++ )
     {
       auto&& lk  = std::exp( -t * _eigenvalues[k] );
       auto&& uik = _eigenvectors[k](i);
@@ -352,8 +350,8 @@ public:
   {
     aleph::math::KahanSummation<T> result = T();
 
-    for( auto&& eigenvalue : _eigenvalues )
-      result += std::exp( -t * eigenvalue );
+    for( std::size_t k = this->firstIndex(); k < _eigenvalues.size(); k++ )
+      result += std::exp( -t * _eigenvalues[k] );
 
     return result;
   }
@@ -367,8 +365,8 @@ public:
   {
     T result = T(1);
 
-    for( auto&& eigenvalue : _eigenvalues )
-      result = result * std::exp( -t * eigenvalue );
+    for( std::size_t k = this->firstIndex(); k < _eigenvalues.size(); k++ )
+      result = result * std::exp( -t * _eigenvalues[k] );
 
     return result;
   }
@@ -387,9 +385,12 @@ public:
 
   std::vector<T> logarithmicSamplingInterval( unsigned n ) const
   {
+    if( _eigenvalues.size() < 2 )
+      throw std::runtime_error( "Sampling interval requires at least two eigenvalues" );
+
     auto t_min  = 4 * std::log( 10 ) / _eigenvalues.back();
-    auto t_max  = 4 * std::log( 10 ) / ( _skip ? _eigenvalues.front() : *( _eigenvalues.begin() + 1 ) );
-    auto offset = ( std::log( t_max ) - std::log( t_min ) ) / ( n - 1 );
+    auto t_max  = 4 * std::log( 10 ) / _eigenvalues[1];
+    auto offset = n > 1 ? ( std::log( t_max ) - std::log( t_min ) ) / ( n - 1 ) : T();
 
     std::vector<T> samples;
     samples.reserve( n );
@@ -414,7 +415,21 @@ public:
 
 private:
 
-  /** If set, skips the first eigenvector and eigenvalue */
+  /**
+    Index of the first eigenvector and eigenvalue that are used for all
+    evaluations.
+  */
+
+  std::size_t firstIndex() const noexcept
+  {
+    return _skip ? 1 : 0;
+  }
+
+  /**
+    If set, skips the first eigenvector and eigenvalue because they do not
+    contribute anything.
+  */
+
   bool _skip = false;
 
   /**
-- 
2.43.0


From 1e28d377b7dd73747ff48ed3895f342c321acda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:19:27 +0000
Subject: [PATCH 051/112] fix: Handle a single point in eccentricity of order
 zero

The maximum of an empty range was dereferenced.
---
 include/aleph/containers/DataDescriptors.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/containers/DataDescriptors.hh b/include/aleph/containers/DataDescriptors.hh
index 96a0da6..268a7b2 100644
--- a/include/aleph/containers/DataDescriptors.hh
+++ b/include/aleph/containers/DataDescriptors.hh
@@ -77,7 +77,7 @@ template <class Distance, class Container> std::vector<double> eccentricities( c
       eccentricity = aleph::math::accumulate_kahan( distances.begin(), distances.end(), 0.0 );
       eccentricity = std::pow( eccentricity, 1.0 / order );
     }
-    else
+    else if( !distances.empty() )
       eccentricity = *std::max_element( distances.begin(), distances.end() );
 
     eccentricities.push_back( eccentricity );
-- 
2.43.0


From 41cf786f3692edeae8edacf6f548663f607232dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:19:27 +0000
Subject: [PATCH 052/112] fix: Check number of available neighbours in
 dimensionality estimators

The estimators read past the end of the distance lists if more
neighbours were requested than there are points.
---
 include/aleph/containers/DimensionalityEstimators.hh | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/aleph/containers/DimensionalityEstimators.hh b/include/aleph/containers/DimensionalityEstimators.hh
index 67a0c93..59421a8 100644
--- a/include/aleph/containers/DimensionalityEstimators.hh
+++ b/include/aleph/containers/DimensionalityEstimators.hh
@@ -59,6 +59,10 @@ template <
   for( decltype(n) i = 0; i < n; i++ )
   {
     auto&& nnDistances = distances.at(i);
+
+    if( nnDistances.size() <= k )
+      throw std::runtime_error( "Insufficient number of nearest neighbours" );
+
     auto r1            = aleph::math::accumulate_kahan( nnDistances.begin(), nnDistances.begin() + k,     0.0 ) / static_cast<double>(k  );
     auto r2            = aleph::math::accumulate_kahan( nnDistances.begin(), nnDistances.begin() + k + 1, 0.0 ) / static_cast<double>(k+1);
 
@@ -131,6 +135,9 @@ template <
   {
     auto&& nnDistances = distances.at(i);
 
+    if( nnDistances.size() + 1 < kMax )
+      throw std::runtime_error( "Insufficient number of nearest neighbours" );
+
     std::vector<double> localEstimates;
     localEstimates.reserve( kMax );
 
@@ -231,6 +238,9 @@ template <
   {
     auto&& nnDistances = distances.at(i);
 
+    if( nnDistances.size() < kMax )
+      throw std::runtime_error( "Insufficient number of nearest neighbours" );
+
     std::vector<double> localEstimates;
     localEstimates.reserve( kMax );
 
-- 
2.43.0


From 3b245bd84e1e73026d45e1ce1952ae2950c02811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:26:02 +0000
Subject: [PATCH 053/112] fix: return a number from the Euclidean norm for
 density estimates

The functor returned its input type and could not be used with any
container.
---
 include/aleph/math/KernelDensityEstimator.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/math/KernelDensityEstimator.hh b/include/aleph/math/KernelDensityEstimator.hh
index 4ce6321..6de6976 100644
--- a/include/aleph/math/KernelDensityEstimator.hh
+++ b/include/aleph/math/KernelDensityEstimator.hh
@@ -93,12 +93,12 @@ public:
 class Euclidean
 {
 public:
-  template <class T> T operator()( T value ) const
+  template <class T> double operator()( const T& value ) const
   {
     auto squaredNorm
       = std::inner_product( std::begin( value ), std::end( value ),
                             std::begin( value ),
-                            T() );
+                            0.0 );
 
     return std::sqrt( squaredNorm );
   }
-- 
2.43.0


From 38c1edeef20239d12652e4fc2e4df8ed6115f5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:26:29 +0000
Subject: [PATCH 054/112] fix: scale the compensation term of Kahan sums

Scaling a sum left its compensation untouched, which spoils all values
that are added afterwards.
---
 include/aleph/math/KahanSummation.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/aleph/math/KahanSummation.hh b/include/aleph/math/KahanSummation.hh
index a94e46c..dd800aa 100644
--- a/include/aleph/math/KahanSummation.hh
+++ b/include/aleph/math/KahanSummation.hh
@@ -40,12 +40,14 @@ public:
   KahanSummation& operator*= ( T v )
   {
     _sum *= v;
+    _c   *= v;
     return *this;
   }
 
   KahanSummation& operator/= ( T v )
   {
     _sum /= v;
+    _c   /= v;
     return *this;
   }
 
-- 
2.43.0


From 56d88113607fd581c9c82a46d52d98899c758242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:26:29 +0000
Subject: [PATCH 055/112] fix: calculate a valid index for the zeroth
 percentile

---
 include/aleph/math/Bootstrap.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/aleph/math/Bootstrap.hh b/include/aleph/math/Bootstrap.hh
index 1e6ccae..46c2213 100644
--- a/include/aleph/math/Bootstrap.hh
+++ b/include/aleph/math/Bootstrap.hh
@@ -235,7 +235,8 @@ public:
     // the product samples * alpha is an integer or not. Note the
     // offset of -1. It is required because, say, the 100th value
     // is at index 99 of the vector.
-    return static_cast<unsigned>( std::ceil( samples * alpha ) ) - 1;
+    // The smallest percentiles refer to the first value.
+    return static_cast<unsigned>( std::max( std::ceil( samples * alpha ), 1.0 ) ) - 1;
   }
 };
 
-- 
2.43.0


From 458d7d90e1b4715f9c82e7426dab8aa4c0170360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:26:29 +0000
Subject: [PATCH 056/112] fix: normalize principal components by the number of
 samples

The coordinates were scaled by the number of columns, which is only
correct if there is one more sample than there are columns.
---
 include/aleph/math/PrincipalComponentAnalysis.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/aleph/math/PrincipalComponentAnalysis.hh b/include/aleph/math/PrincipalComponentAnalysis.hh
index ef7892f..9562bfb 100644
--- a/include/aleph/math/PrincipalComponentAnalysis.hh
+++ b/include/aleph/math/PrincipalComponentAnalysis.hh
@@ -60,7 +60,11 @@ public:
       M.row( Index(row) ) = Vector::Map( &data[row][0], Index(m) );
 
     M  = M.rowwise() - M.colwise().mean();
-    M /= std::sqrt( static_cast<T>( m ) );
+
+    // Normalize by the number of samples, so that the squared singular
+    // values are the sample variances of the principal components.
+    if( n > 1 )
+      M /= std::sqrt( static_cast<T>( n-1 ) );
 
     Eigen::JacobiSVD<Matrix> svd( M, Eigen::ComputeThinV );
 
-- 
2.43.0


From e117fe718f5dfb1604bca303146665a64bfa9949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:26:29 +0000
Subject: [PATCH 057/112] fix: use correct sign for the centre of algebraic
 spheres

---
 include/aleph/math/AlgebraicSphere.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/math/AlgebraicSphere.hh b/include/aleph/math/AlgebraicSphere.hh
index c60607e..fb6d733 100644
--- a/include/aleph/math/AlgebraicSphere.hh
+++ b/include/aleph/math/AlgebraicSphere.hh
@@ -51,7 +51,7 @@ public:
       std::transform( c.begin(), c.end(), c.begin(),
         [&s] ( T x )
         {
-          return x / (2*s);
+          return -x / (2*s);
         }
       );
 
-- 
2.43.0


From a4fd833137686df042dcd81a48db5af295c77e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:26:29 +0000
Subject: [PATCH 058/112] fix: report symmetric matrices without rows as empty

Copies of an empty matrix were not considered to be empty.
---
 include/aleph/math/SymmetricMatrix.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/math/SymmetricMatrix.hh b/include/aleph/math/SymmetricMatrix.hh
index 4df3104..e88ab97 100644
--- a/include/aleph/math/SymmetricMatrix.hh
+++ b/include/aleph/math/SymmetricMatrix.hh
@@ -138,7 +138,7 @@ public:
   /** Checks whether the matrix is empty */
   bool empty() const noexcept
   {
-    return _numRows == 0 && _size == 0 && _data == nullptr;
+    return _numRows == 0 && _size == 0;
   }
 
 private:
-- 
2.43.0


From 0af1769fab048b697037f8f3a690c895554dea85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:44:02 +0000
Subject: [PATCH 059/112] fix: assign unused vertex IDs in meshes

A vertex without an explicit ID could be assigned the ID of an existing
vertex, resulting in an exception.
---
 include/aleph/topology/Mesh.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/topology/Mesh.hh b/include/aleph/topology/Mesh.hh
index 8a1b4ee..a70162b 100644
--- a/include/aleph/topology/Mesh.hh
+++ b/include/aleph/topology/Mesh.hh
@@ -166,7 +166,7 @@ public:
   {
     Vertex v;
 
-    v.id   = id == std::numeric_limits<Index>::max() ? std::max( _vertices.size(), _largestVertexID ) : id;
+    v.id   = id == std::numeric_limits<Index>::max() ? ( _vertices.empty() ? Index() : _largestVertexID + 1 ) : id;
     v.x    = x;
     v.y    = y;
     v.z    = z;
-- 
2.43.0


From 1c73321140d050aea97e3923abebd42c1c88c685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:44:02 +0000
Subject: [PATCH 060/112] fix: report all faces of a mesh and all faces of
 boundary vertices

Only a single face per vertex was considered when enumerating faces, and
the faces of a vertex were not reported beyond the boundary.
---
 include/aleph/topology/Mesh.hh | 49 +++++++++++-----------------------
 1 file changed, 15 insertions(+), 34 deletions(-)

diff --git a/include/aleph/topology/Mesh.hh b/include/aleph/topology/Mesh.hh
index a70162b..c86e037 100644
--- a/include/aleph/topology/Mesh.hh
+++ b/include/aleph/topology/Mesh.hh
@@ -121,22 +121,10 @@ public:
   // TODO: Better return type?
   std::vector< std::vector<Index> > faces() const noexcept
   {
-    std::unordered_set<FacePointer> faces;
-
-    for( auto&& pair : _vertices )
-    {
-      auto&& vertex = pair.second;
-      auto&& edge   = vertex->edge;
-      auto&& face   = edge->face;
-
-      if( face )
-        faces.insert( face );
-    }
-
     std::vector< std::vector<Index> > results;
-    results.reserve( faces.size() );
+    results.reserve( _faces.size() );
 
-    for( auto&& face : faces )
+    for( auto&& face : _faces )
       results.push_back( face->vertices() );
 
     return results;
@@ -144,19 +132,7 @@ public:
 
   std::size_t numFaces() const noexcept
   {
-    std::unordered_set<FacePointer> faces;
-
-    for( auto&& pair : _vertices )
-    {
-      auto&& vertex = pair.second;
-      auto&& edge   = vertex->edge;
-      auto&& face   = edge->face;
-
-      if( face )
-        faces.insert( face );
-    }
-
-    return faces.size();
+    return _faces.size();
   }
 
   // Mesh modification -------------------------------------------------
@@ -246,6 +222,8 @@ public:
       edges.push_back( edge );
     }
 
+    _faces.push_back( face );
+
     // Set 'next' and 'prev' pointers correctly ------------------------
     //
     // We first traverse all edges that bound the current face. Here, it
@@ -524,11 +502,14 @@ private:
     auto edge = v.edge;
     do
     {
-      if( edge && edge->face )
-        faces.push_back( edge->face );
-      else
+      if( !edge )
         break;
 
+      // The boundary of the mesh has no face, but there may be more
+      // faces on its other side.
+      if( edge->face )
+        faces.push_back( edge->face );
+
       edge = edge->pair->next;
     }
     while( edge != v.edge );
@@ -577,10 +558,10 @@ private:
 
   Index _largestVertexID = Index();
 
-  /**
-    Stores all vertex pointers. This is sufficient to store the
-    complete mesh.
-  */
+  /** Stores all faces in the order in which they have been added. */
+  std::vector<FacePointer> _faces;
+
+  /** Stores all vertex pointers. */
 
   std::unordered_map<Index, VertexPointer> _vertices;
 };
-- 
2.43.0


From ba53315e2a8991b8d208158e0a6c2c2a542a1e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:44:02 +0000
Subject: [PATCH 061/112] fix: use all edges to count connected components of a
 mesh

Only one edge per vertex was considered, and isolated vertices resulted
in dereferencing a null pointer.
---
 include/aleph/topology/Mesh.hh | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/aleph/topology/Mesh.hh b/include/aleph/topology/Mesh.hh
index c86e037..8d6b628 100644
--- a/include/aleph/topology/Mesh.hh
+++ b/include/aleph/topology/Mesh.hh
@@ -437,13 +437,9 @@ public:
 
     for( auto&& vertex : vertices )
     {
-      auto&& v      = _vertices.at( vertex );
-      auto&& e      = v->edge;
-      auto&& source = e->source()->id;
-      auto&& target = e->target()->id;
-
       // Actually, the order does not matter one bit here...
-      uf.merge( target, source );
+      for( auto&& neighbour : this->getNeighbours( *_vertices.at( vertex ) ) )
+        uf.merge( neighbour->id, vertex );
     }
 
     std::vector<Index> roots;
-- 
2.43.0


From 98fbb63768dc526e7a045633016b356465bc8325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:44:24 +0000
Subject: [PATCH 062/112] fix: link boundary edges of a mesh for all insertion
 orders

The boundary was traversed starting from a single edge per vertex. If a
face shares only a vertex with the faces that are already present, some
edges could not be reached any more, and the traversal was not
guaranteed to terminate.
---
 include/aleph/topology/Mesh.hh | 119 +++++++++++++++++++--------------
 1 file changed, 68 insertions(+), 51 deletions(-)

diff --git a/include/aleph/topology/Mesh.hh b/include/aleph/topology/Mesh.hh
index 8d6b628..f045c9a 100644
--- a/include/aleph/topology/Mesh.hh
+++ b/include/aleph/topology/Mesh.hh
@@ -172,6 +172,14 @@ public:
     std::vector<HalfEdgePointer> edges;
     edges.reserve( static_cast<std::size_t>( std::distance( begin, end ) ) );
 
+    // Indicates which of the half-edges have been created, and for which
+    // of them the source vertex has not been used by any face before.
+    std::vector<bool> isNew;
+    std::vector<bool> isIsolated;
+
+    for( InputIterator it = begin; it != end; ++it )
+      isIsolated.push_back( !_vertices.at( *it )->edge );
+
     for( InputIterator it = begin; it != end; ++it )
     {
       auto curr = it;
@@ -184,6 +192,8 @@ public:
       auto target = _vertices.at( *next );   // Edge target vertex
       auto edge   = getEdge( *curr, *next ); // Edge
 
+      isNew.push_back( !edge );
+
       // Case 1: A new edge. Create a new edge and a new pair. Set edges
       // of source and target vertex correctly. Moreover, initialize the
       // paired edge with sensible default values.
@@ -226,67 +236,58 @@ public:
 
     // Set 'next' and 'prev' pointers correctly ------------------------
     //
-    // We first traverse all edges that bound the current face. Here, it
-    // should be possible to traverse the face directly, so we require a
-    // proper pointer in both directions.
+    // For every vertex of the face, the two half-edges that meet at the
+    // vertex become neighbours. Their pairs, as well as the edges found
+    // at the vertex so far, are part of the boundary and remain linked,
+    // such that *all* edges of a vertex can always be reached.
 
-    for( auto itEdge = edges.begin(); itEdge != edges.end(); ++itEdge )
+    auto connect = [] ( const HalfEdgePointer& first, const HalfEdgePointer& second )
     {
-      auto curr = itEdge;
-      auto prev = std::prev( curr );
-      auto next = std::next( curr );
+      first->next  = second;
+      second->prev = first;
+    };
 
-      if( curr == edges.begin() )
-        prev = std::prev( edges.end() );
-
-      if( next == edges.end() )
-        next = edges.begin();
-
-      auto&& edge = *itEdge;
-
-      edge->next = *next;
-      edge->prev = *prev;
-    }
-
-    // Extend boundary -------------------------------------------------
-    //
-    // Traverse all vertices whose paired edges have an empty face. Any
-    // of these edges is part of the boundary face.
-
-    for( auto&& pair : _vertices )
+    for( std::size_t i = 0; i < edges.size(); i++ )
     {
-      auto&& vertex = pair.second;
+      auto k    = i == 0 ? edges.size() - 1 : i - 1;
+      auto prev = edges[k];
+      auto next = edges[i];
 
-      if( !vertex->edge || vertex->edge->pair->face )
-        continue;
-
-      auto curr = vertex->edge->target();
-      auto edge = vertex->edge->pair;
-
-      do
+      if( isNew[k] && isNew[i] )
       {
-        assert( !edge->face );
-        auto edges = this->getEdges( *curr );
-
-        for( auto&& e : edges )
+        if( isIsolated[i] )
+          connect( next->pair, prev->pair );
+        else
         {
-          if( !e->pair->face )
-          {
-            e->pair->next = edge;
-            edge->prev    = e->pair;
-
-            edge          = e->pair;
-            curr          = e->pair->pair->target();
-            break;
-          }
+          // Insert the face into any gap around the vertex.
+          auto boundary = this->getBoundaryEdge( *prev->target() );
+
+          connect( boundary->prev, prev->pair );
+          connect( next->pair    , boundary   );
         }
       }
-      while( curr != vertex );
+      else if( isNew[k] )
+        connect( next->prev, prev->pair );
+      else if( isNew[i] )
+        connect( next->pair, prev->next );
+
+      // Other faces have been inserted into the gap that is filled by the
+      // current face. They have to be moved to another gap.
+      else if( prev->next != next )
+      {
+        auto boundary = next->pair;
+        do
+          boundary = boundary->next->pair;
+        while( boundary->face );
+
+        auto first = prev->next;
+        auto last  = next->prev;
 
-      // Close the loop around the boundary face by adding a pointer to
-      // the identified edge.
-      vertex->edge->pair->next = edge;
-      edge->prev               = vertex->edge->pair;
+        connect( last    , boundary->next );
+        connect( boundary, first          );
+      }
+
+      connect( prev, next );
     }
   }
 
@@ -490,6 +491,22 @@ private:
     return edges;
   }
 
+  /** Gets an edge that starts in a given vertex and has no face yet. */
+  HalfEdgePointer getBoundaryEdge( const Vertex& v ) const
+  {
+    auto edges  = this->getEdges( v );
+    auto itEdge = std::find_if( edges.begin(), edges.end(),
+                                [] ( const HalfEdgePointer& edge )
+                                {
+                                  return !edge->face;
+                                } );
+
+    if( itEdge == edges.end() )
+      throw std::runtime_error( "Unable to add another face to an interior vertex" );
+
+    return *itEdge;
+  }
+
   /** Gets all faces that are incident on a given vertex */
   std::vector<FacePointer> getFaces( const Vertex& v ) const noexcept
   {
-- 
2.43.0


From 9f21e8e4d17e52f9fbc86da4608f782acf1a2139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:50:46 +0000
Subject: [PATCH 063/112] fix: check number of random landmarks

---
 include/aleph/geometry/WitnessComplex.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/aleph/geometry/WitnessComplex.hh b/include/aleph/geometry/WitnessComplex.hh
index cbb4d9f..bb4c3f6 100644
--- a/include/aleph/geometry/WitnessComplex.hh
+++ b/include/aleph/geometry/WitnessComplex.hh
@@ -222,6 +222,9 @@ template <
 
 template <class T, class OutputIterator> void generateRandomLandmarks( T n, T k, OutputIterator result )
 {
+  if( k > n )
+    throw std::out_of_range( "Number of landmarks is out of range" );
+
   std::random_device rd;
   std::mt19937 rng( rd() );
 
-- 
2.43.0


From 6a57e820c7c6c85cb4411a45cc35f5a8f38b95a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:50:59 +0000
Subject: [PATCH 064/112] fix: select distinct max-min landmarks for coincident
 points

---
 include/aleph/geometry/WitnessComplex.hh | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/aleph/geometry/WitnessComplex.hh b/include/aleph/geometry/WitnessComplex.hh
index bb4c3f6..decf860 100644
--- a/include/aleph/geometry/WitnessComplex.hh
+++ b/include/aleph/geometry/WitnessComplex.hh
@@ -260,6 +260,9 @@ template <
   if( n > container.size() )
     throw std::out_of_range( "Number of landmarks is out of range" );
 
+  if( n == 0 )
+    return;
+
   using SizeType = decltype( container.size() );
 
   std::random_device rd;
@@ -272,6 +275,11 @@ template <
 
   indices.emplace_back( distribution( rng ) );
 
+  // Points that have already been selected must not be selected again,
+  // even if all remaining points coincide with a landmark.
+  std::vector<bool> selected( container.size() );
+  selected[ indices.front() ] = true;
+
   using DataType = typename Distance::ResultType;
   auto N         = container.size();
   auto d         = container.dimension();
@@ -283,6 +291,9 @@ template <
 
     for( SizeType i = 0; i < N; i++ )
     {
+      if( selected[i] )
+        continue;
+
       auto min = std::numeric_limits<DataType>::max();
 
       for( auto&& landmarkIndex : indices )
@@ -299,6 +310,7 @@ template <
     }
 
     indices.push_back( index );
+    selected[index] = true;
   }
 
   std::copy( indices.begin(), indices.end(), result );
-- 
2.43.0


From 20f2927359d9d2a302c18796c27d7baec5fb9834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:55:17 +0000
Subject: [PATCH 065/112] fix: do not modify algebraic spheres in read-only
 functions

---
 include/aleph/math/AlgebraicSphere.hh | 47 +++++++++------------------
 1 file changed, 16 insertions(+), 31 deletions(-)

diff --git a/include/aleph/math/AlgebraicSphere.hh b/include/aleph/math/AlgebraicSphere.hh
index fb6d733..a502864 100644
--- a/include/aleph/math/AlgebraicSphere.hh
+++ b/include/aleph/math/AlgebraicSphere.hh
@@ -42,36 +42,27 @@ public:
   /** Calculates and returns the centre of the sphere */
   std::vector<T> centre() const noexcept
   {
-    if( _centre.empty() )
-    {
-      auto s = _coefficients.back();
-      auto c = std::vector<T>( _coefficients.begin() + 1,
-                               _coefficients.end()   - 1);
-
-      std::transform( c.begin(), c.end(), c.begin(),
-        [&s] ( T x )
-        {
-          return -x / (2*s);
-        }
-      );
-
-      _centre = c;
-    }
-
-    return _centre;
+    auto s = _coefficients.back();
+    auto c = std::vector<T>( _coefficients.begin() + 1,
+                             _coefficients.end()   - 1);
+
+    std::transform( c.begin(), c.end(), c.begin(),
+      [&s] ( T x )
+      {
+        return -x / (2*s);
+      }
+    );
+
+    return c;
   }
 
   /** Calculates and returns the radius of the sphere */
   T radius() const noexcept
   {
-    if( !std::isfinite( _radius ) )
-    {
-      auto c  = this->centre();
-      auto n  = std::inner_product( c.begin(), c.end(), c.begin(), T() );
-      _radius = std::sqrt( n - _coefficients.front() / _coefficients.back() );
-    }
-
-    return _radius;
+    auto c = this->centre();
+    auto n = std::inner_product( c.begin(), c.end(), c.begin(), T() );
+
+    return std::sqrt( n - _coefficients.front() / _coefficients.back() );
   }
 
   /** Calculates and returns the Gaussian curvature of the sphere */
@@ -102,12 +93,6 @@ public:
 
 private:
 
-  /** Radius */
-  mutable T _radius = std::numeric_limits<T>::quiet_NaN();
-
-  /** Centre */
-  mutable std::vector<T> _centre;
-
   /** Sphere coefficients */
   std::vector<T> _coefficients;
 };
-- 
2.43.0


From 384d1962fb1eab68c370b2d4b0366b054f715ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:01 +0000
Subject: [PATCH 066/112] fix: use correct getter and setter for the dimension
 of diagrams in Python

---
 bindings/python/aleph.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index b4b51f7..bef509a 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -327,7 +327,7 @@ void wrapPersistenceDiagram( py::module& m )
     )
     .def( "removeDiagonal", &PersistenceDiagram::removeDiagonal )
     .def( "removeUnpaired", &PersistenceDiagram::removeUnpaired )
-    .def_property( "dimension", &PersistenceDiagram::setDimension, &PersistenceDiagram::dimension )
+    .def_property( "dimension", &PersistenceDiagram::dimension, &PersistenceDiagram::setDimension )
     .def_property_readonly( "betti", &PersistenceDiagram::betti )
     .def( "__array__",
       [] ( PersistenceDiagram& D )
-- 
2.43.0


From a039f82169d2f8873da11d0c43d87641dc9ff8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:01 +0000
Subject: [PATCH 067/112] fix: register distance and kernel functions in Python

---
 bindings/python/aleph.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index bef509a..b37dae5 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -1185,6 +1185,8 @@ PYBIND11_MODULE(aleph, m)
   wrapPersistenceDiagram(m);
   wrapPersistencePairing(m);
   wrapPersistentHomologyCalculation(m);
+  wrapDistanceCalculations(m);
+  wrapKernelCalculations(m);
   wrapRipsExpander(m);
   wrapStepFunction(m);
   wrapInputFunctions(m);
-- 
2.43.0


From affc28739a5f9b50a15a0a9754d678ea9ceb5bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:01 +0000
Subject: [PATCH 068/112] fix: return complex when loading data with a functor
 in Python

---
 bindings/python/aleph.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index b37dae5..e6d8a37 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -756,9 +756,11 @@ void wrapInputFunctions( py::module& m )
               K,
               [&functor] ( DataType a, DataType b )
               {
-                return py::cast<bool>( functor(a,b) );
+                return py::cast<DataType>( functor(a,b) );
               }
       );
+
+      return K;
     }
   );
 
-- 
2.43.0


From 01eaad2321e0cfa2c5e6cd43ef6bec29377febcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:01 +0000
Subject: [PATCH 069/112] fix: handle strides of point cloud buffers in Python

---
 bindings/python/aleph.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index e6d8a37..e47865d 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -469,10 +469,19 @@ void wrapPersistentHomologyCalculation( py::module& m )
         static_cast<std::size_t>(d)
       );
 
-      DataType* target = pointCloud.data();
-      DataType* source = reinterpret_cast<DataType*>( bufferInfo.ptr );
+      DataType* target   = pointCloud.data();
+      const char* source = reinterpret_cast<const char*>( bufferInfo.ptr );
 
-      std::copy( source, source + n*d, target );
+      // The buffer is not required to be contiguous, so all strides (in
+      // bytes) have to be taken into account.
+      for( decltype(n) i = 0; i < n; i++ )
+      {
+        for( decltype(d) j = 0; j < d; j++ )
+        {
+          const char* element = source + i * bufferInfo.strides[0] + j * bufferInfo.strides[1];
+          std::copy( element, element + sizeof(DataType), reinterpret_cast<char*>( target + i*d + j ) );
+        }
+      }
 
       using Distance = aleph::geometry::distances::Euclidean<DataType>;
       dimension      = dimension > 0 ? dimension : static_cast<unsigned>( pointCloud.dimension() + 1 );
-- 
2.43.0


From d2fceb26d75d5cc56c4453fd7c13a109bb5f8dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:01 +0000
Subject: [PATCH 070/112] fix: convert matrices to contiguous arrays in Python

---
 bindings/python/aleph.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index e47865d..213d086 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -541,7 +541,7 @@ void wrapPersistentHomologyCalculation( py::module& m )
   // the graph will be filtered from large weights to small ones, or
   // vice versa.
   m.def( "calculateZeroDimensionalPersistenceDiagramOfMatrix",
-    [] ( py::array_t<double> M, bool reverseFiltration, DataType vertexWeight, DataType unpairedData )
+    [] ( py::array_t<double, py::array::c_style | py::array::forcecast> M, bool reverseFiltration, DataType vertexWeight, DataType unpairedData )
     {
       py::buffer_info bufferInfo = M.request();
 
@@ -830,7 +830,7 @@ void wrapVietorisRipsComplexCalculation( py::module& m )
   // a pre-defined dimension, returning a persistence diagram, and a
   // corresponding pairing.
   m.def( "vietoris_rips_from_matrix",
-    [] ( py::array_t<double> M, unsigned max_dimension )
+    [] ( py::array_t<double, py::array::c_style | py::array::forcecast> M, unsigned max_dimension )
     {
       py::buffer_info bufferInfo = M.request();
 
@@ -910,7 +910,7 @@ void wrapVietorisRipsComplexCalculation( py::module& m )
   // persistence pairing. The pairing will consist of the destroyer,
   // i.e. the edge that merges a connected component.
   m.def( "vietoris_rips_from_matrix_1d",
-    [] ( py::array_t<double> M )
+    [] ( py::array_t<double, py::array::c_style | py::array::forcecast> M )
     {
       py::buffer_info bufferInfo = M.request();
 
@@ -1007,7 +1007,7 @@ void wrapVietorisRipsComplexCalculation( py::module& m )
   // that *create* a cycle, while the last two indices contain *the*
   // unique (!) edge of the triangle that destroys the cycle.
   m.def( "vietoris_rips_from_matrix_2d",
-    [] ( py::array_t<double> M )
+    [] ( py::array_t<double, py::array::c_style | py::array::forcecast> M )
     {
       py::buffer_info bufferInfo = M.request();
 
-- 
2.43.0


From 91b0705f2dd9929fb21d271d9514912f2b6dee20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:01 +0000
Subject: [PATCH 071/112] fix: check indices of simplices in Python

---
 bindings/python/aleph.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index 213d086..df1cfae 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -246,7 +246,7 @@ void wrapSimplicialComplex( py::module& m )
       }
     )
     .def( "__contains__", &SimplicialComplex::contains )
-    .def( "__getitem__",  &SimplicialComplex::operator[] ) // FIXME: might want to handle negative indices?
+    .def( "__getitem__",  &SimplicialComplex::at ) // FIXME: might want to handle negative indices?
     .def( "__iter__",
       [] ( const SimplicialComplex& K )
       {
-- 
2.43.0


From 94e4d19b56915febaa1140e8d5e4f2c92c9708a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:01 +0000
Subject: [PATCH 072/112] fix: keep simplex alive during boundary traversal in
 Python

---
 bindings/python/aleph.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index df1cfae..f2554bd 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -174,10 +174,12 @@ void wrapSimplex( py::module& m )
           }, py::keep_alive<0,1>()
     )
     .def_property_readonly( "boundary",
-          [] ( const Simplex& simplex )
-          {
-            return py::make_iterator( simplex.begin_boundary(), simplex.end_boundary() );
-          }, py::keep_alive<0,1>()
+          py::cpp_function(
+            [] ( const Simplex& simplex )
+            {
+              return py::make_iterator( simplex.begin_boundary(), simplex.end_boundary() );
+            }, py::keep_alive<0,1>()
+          )
     )
     .def_property_readonly( "dimension", &Simplex::dimension )
     .def_property_readonly( "empty"    , &Simplex::empty )
-- 
2.43.0


From d624b9f19b7249c3b5d4204065c2e80140429502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:01 +0000
Subject: [PATCH 073/112] fix: report correct edges of pairs in Vietoris--Rips
 complexes in Python

---
 bindings/python/aleph.cc | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index f2554bd..130fb4a 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -1109,14 +1109,11 @@ void wrapVietorisRipsComplexCalculation( py::module& m )
           // make this a proper selection of edges.
           else
           {
-            auto u = K[ pair.first ][0]; // creator is always a vertex
-            auto e = K[ pair.second ];   // destroyer is always an edge
+            auto edge = K[ pair.second ]; // destroyer is always an edge
 
-            // Select the proper vertex index for the destroyer; this is
-            // just the *other* vertex of the edge.
-            auto v = e[0] != u ? e[0] : e[1];
-
-            selected_edges.push_back( std::make_pair( u, v ) );
+            // The creator is not necessarily a vertex of this edge, so
+            // both vertices have to be taken from the edge itself.
+            selected_edges.push_back( std::make_pair( edge[1], edge[0] ) );
           }
         }
 
@@ -1158,20 +1155,20 @@ void wrapVietorisRipsComplexCalculation( py::module& m )
           // sane ordering in case all of the edges have the same
           // weight.
 
-          auto k = i;
-          auto l = j;
+          auto k = u;
+          auto l = v;
 
-          if( d1 >= creator.data() )
+          if( d1 >= d2 && d1 >= d3 )
           {
-            k = u; 
+            k = u;
             l = v;
           }
-          else if( d2 >= creator.data() )
+          else if( d2 >= d1 && d2 >= d3 )
           {
             k = u;
             l = w;
           }
-          else if( d3 >= creator.data() )
+          else
           {
             k = v;
             l = w;
-- 
2.43.0


From 42138c6f86296f95d3fdd2540c94f634a557689f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:01 +0000
Subject: [PATCH 074/112] fix: do not modify step functions when calculating
 absolute values in Python

---
 bindings/python/aleph.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index 130fb4a..403e7fd 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -694,7 +694,12 @@ void wrapStepFunction( py::module& m )
             }
       )
     )
-    .def( "__abs__" , &StepFunction::abs )
+    .def( "__abs__" ,
+      [] ( StepFunction f )
+      {
+        return f.abs();
+      }
+    )
     .def( "__add__" ,
       [] ( const StepFunction& f, const StepFunction& g )
       {
-- 
2.43.0


From 8f6d44efd687de6e3edf6c7e3021f6888ee81614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:15:58 +0000
Subject: [PATCH 075/112] fix: support empty containers in FLANN wrapper

---
 include/aleph/geometry/FLANN.hh | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/aleph/geometry/FLANN.hh b/include/aleph/geometry/FLANN.hh
index 8e32e04..69fdf27 100644
--- a/include/aleph/geometry/FLANN.hh
+++ b/include/aleph/geometry/FLANN.hh
@@ -42,7 +42,10 @@ public:
     _index
       = new flann::Index<DistanceFunctor>( _matrix, indexParameters );
 
-    _index->buildIndex();
+    // FLANN is unable to build an index of an empty data set; there is
+    // nothing to search for in this case.
+    if( _matrix.rows > 0 )
+      _index->buildIndex();
 #endif
   }
 
@@ -58,6 +61,14 @@ public:
                      std::vector< std::vector<IndexType> >& indices,
                      std::vector< std::vector<ElementType> >& distances ) const
   {
+    if( _matrix.rows == 0 )
+    {
+      indices.clear();
+      distances.clear();
+
+      return;
+    }
+
     flann::SearchParams searchParameters = flann::SearchParams();
     searchParameters.checks = flann::FLANN_CHECKS_UNLIMITED;
     searchParameters.sorted = true;
@@ -134,8 +145,8 @@ public:
                         std::vector< std::vector<ElementType> >& distances ) const
   {
     // FLANN does *not* like being queried for no neighbours at all, so
-    // let's play nice.
-    if( k == 0 )
+    // let's play nice. The same applies to empty data sets.
+    if( k == 0 || _matrix.rows == 0 )
     {
       indices.clear();
       distances.clear();
-- 
2.43.0


From a51c27ccc0440d2b6223b8df302abc4cfcf64091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:15:58 +0000
Subject: [PATCH 076/112] fix: copy points when iterating over persistence
 diagrams in Python

---
 bindings/python/aleph.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index 403e7fd..6e1deb5 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -315,7 +315,9 @@ void wrapPersistenceDiagram( py::module& m )
     .def( "__iter__",
       [] ( const PersistenceDiagram& D )
       {
-        return py::make_iterator( D.begin(), D.end() );
+        // Points are copied because removing points from the diagram
+        // would modify all points that have been obtained already.
+        return py::make_iterator<py::return_value_policy::copy>( D.begin(), D.end() );
       }, py::keep_alive<0,1>()
     )
     .def( "__repr__",
-- 
2.43.0


From 5e76edcd70ff59fd3c332e19efe96817acfced98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:25:03 +0000
Subject: [PATCH 077/112] fix: require the distance threshold in Vietoris--Rips
 example

---
 examples/vietoris_rips.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/vietoris_rips.cc b/examples/vietoris_rips.cc
index bbedee1..b2ff215 100644
--- a/examples/vietoris_rips.cc
+++ b/examples/vietoris_rips.cc
@@ -96,7 +96,7 @@ int main( int argc, char** argv )
 
   // Insufficient number of parameters available. Just show the help and
   // stop everything else.
-  if( argc - optind <= 0 )
+  if( argc - optind < 2 )
   {
     usage();
     return -1;
-- 
2.43.0


From 046ccd31c0a9133830f7df22f3b538b8ba93596c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:25:03 +0000
Subject: [PATCH 078/112] fix: normalize with the maximum distance in
 Vietoris--Rips example

---
 examples/vietoris_rips.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/examples/vietoris_rips.cc b/examples/vietoris_rips.cc
index b2ff215..a9fe49d 100644
--- a/examples/vietoris_rips.cc
+++ b/examples/vietoris_rips.cc
@@ -214,6 +214,10 @@ int main( int argc, char** argv )
         maxDistance = std::max( maxDistance, Distance()( p.begin(), q.begin(), pointCloud.dimension() ) );
       }
     }
+
+    // The functor calculates squared distances, whereas the persistence
+    // diagrams contain regular ones.
+    maxDistance = aleph::geometry::distances::Traits<Distance>().from( maxDistance );
   }
 
   using PersistenceDiagram = aleph::PersistenceDiagram<DataType>;
-- 
2.43.0


From 17ded7579d2d3b113988f0f02e93de2577390b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:25:03 +0000
Subject: [PATCH 079/112] fix: report Betti numbers of transformed diagrams in
 network analysis

---
 examples/network_analysis.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/examples/network_analysis.cc b/examples/network_analysis.cc
index 274b921..5996ee2 100644
--- a/examples/network_analysis.cc
+++ b/examples/network_analysis.cc
@@ -350,6 +350,10 @@ int main( int argc, char** argv )
     // clutter up the diagram.
     D.removeDiagonal();
 
+    // The Betti number has to be determined before the unpaired points
+    // are being transformed.
+    auto betti = D.betti();
+
     if( std::isfinite( infinity ) && infinity != std::numeric_limits<DataType>::max() )
     {
       std::cerr << "* Transforming unpaired points in persistence diagram with a factor of " << infinity << "...\n";
@@ -381,7 +385,7 @@ int main( int argc, char** argv )
            << "#\n"
            << "# Dimension   : " << D.dimension() << "\n"
            << "# Entries     : " << D.size() << "\n"
-           << "# Betti number: " << D.betti() << "\n"
+           << "# Betti number: " << betti << "\n"
            << D;
 
     // Use the separator for all but the last persistence diagram. Else,
-- 
2.43.0


From 9e41b8633b6afc01ba332e02acd377f865a04700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:25:03 +0000
Subject: [PATCH 080/112] fix: report missing node weights file in network
 analysis

---
 examples/network_analysis.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/examples/network_analysis.cc b/examples/network_analysis.cc
index 5996ee2..9c6dc97 100644
--- a/examples/network_analysis.cc
+++ b/examples/network_analysis.cc
@@ -56,6 +56,7 @@
 #include <fstream>
 #include <limits>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -215,6 +216,9 @@ int main( int argc, char** argv )
   {
     std::ifstream in( nodeWeightsFile );
 
+    if( !in )
+      throw std::runtime_error( "Unable to read node weights" );
+
     std::vector<DataType> nodeWeights;
 
     aleph::geometry::RipsExpander<SimplicialComplex> ripsExpander;
-- 
2.43.0


From 17b944f05bbb480373fbfc98d7234c75cae68a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:25:03 +0000
Subject: [PATCH 081/112] fix: normalize node weights in network analysis

---
 examples/network_analysis.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/examples/network_analysis.cc b/examples/network_analysis.cc
index 9c6dc97..29073b4 100644
--- a/examples/network_analysis.cc
+++ b/examples/network_analysis.cc
@@ -248,7 +248,9 @@ int main( int argc, char** argv )
 
     for (auto it = K.begin(); it != K.end(); ++it )
     {
-      if( it->dimension() == 0 )
+      // Vertices do not have a weight of their own unless it has been
+      // specified by the user.
+      if( it->dimension() == 0 && nodeWeightsFile.empty() )
         continue;
 
       auto s = *it;
-- 
2.43.0


From 3d0eabaad5f0a4ba85e98da9cf3dcdafd5f468cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:25:03 +0000
Subject: [PATCH 082/112] fix: report missing input files in function analysis

---
 src/tools/function_analysis.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/function_analysis.cc b/src/tools/function_analysis.cc
index 5d77189..6cb9edc 100644
--- a/src/tools/function_analysis.cc
+++ b/src/tools/function_analysis.cc
@@ -230,6 +230,9 @@ int main( int argc, char** argv )
     {
       fin.open( filename );
       in = &fin;
+
+      if( !fin )
+        throw std::runtime_error( "Unable to read input file" );
     }
 
     auto localComplexes
-- 
2.43.0


From 41d1040defcd6eddf2010857a8fccd86d5b9ea82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:25:03 +0000
Subject: [PATCH 083/112] fix: support functions with a single value in
 function analysis

---
 src/tools/function_analysis.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tools/function_analysis.cc b/src/tools/function_analysis.cc
index 6cb9edc..190688d 100644
--- a/src/tools/function_analysis.cc
+++ b/src/tools/function_analysis.cc
@@ -264,7 +264,10 @@ int main( int argc, char** argv )
 
   for( auto&& K : complexes )
   {
-    auto diagrams = aleph::calculatePersistenceDiagrams( K );
+    bool dualize                    = true;
+    bool includeAllUnpairedCreators = true; // required for functions with a single value
+
+    auto diagrams = aleph::calculatePersistenceDiagrams( K, dualize, includeAllUnpairedCreators );
     auto minmax   = minmaxData( K );
 
     if( diagrams.size() != 1 )
-- 
2.43.0


From 9908b4dea82e96fb81ebdf699d2ac49eb19bba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:25:03 +0000
Subject: [PATCH 084/112] fix: calculate Wasserstein and bottleneck distances
 with correct power

---
 src/tools/topological_distance.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools/topological_distance.cc b/src/tools/topological_distance.cc
index dc3a86b..ee48777 100644
--- a/src/tools/topological_distance.cc
+++ b/src/tools/topological_distance.cc
@@ -691,12 +691,12 @@ int main( int argc, char** argv )
         useWassersteinDistance
         ? [] ( const PersistenceDiagram& D1, const PersistenceDiagram& D2, double p )
              {
-               return aleph::distances::wassersteinDistance( D1, D2, p );
+               return std::pow( aleph::distances::wassersteinDistance( D1, D2, p ), p );
              }
         : useBottleneckDistance
-          ? [] ( const PersistenceDiagram& D1, const PersistenceDiagram& D2, double )
+          ? [] ( const PersistenceDiagram& D1, const PersistenceDiagram& D2, double p )
                {
-                 return aleph::distances::bottleneckDistance( D1, D2 );
+                 return std::pow( aleph::distances::bottleneckDistance( D1, D2 ), p );
                }
           : [] ( const PersistenceDiagram& D1, const PersistenceDiagram& D2, double p )
                {
-- 
2.43.0


From ec814a134a87dfce860235d93ed69d3500ff8fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:25:03 +0000
Subject: [PATCH 085/112] fix: support missing dimensions in topological
 distance calculation

---
 src/tools/topological_distance.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/tools/topological_distance.cc b/src/tools/topological_distance.cc
index ee48777..147628d 100644
--- a/src/tools/topological_distance.cc
+++ b/src/tools/topological_distance.cc
@@ -282,10 +282,15 @@ double persistenceDiagramDistance( const std::vector<DataSet>& dataSet1,
                               return dataSet.dimension == dimension;
                             } );
 
+    PersistenceDiagram D;
+
     if( it != dataSet.end() )
-      return PersistenceDiagram( it->persistenceDiagram );
-    else
-      return PersistenceDiagram();
+      D = it->persistenceDiagram;
+
+    // Ensures that diagrams can be compared even if the data set does
+    // not contain a diagram of this dimension.
+    D.setDimension( dimension );
+    return D;
   };
 
   double d = 0.0;
-- 
2.43.0


From 6bfbf6df0d6bdbbda1ba5dbb28b9029a4b8a1754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:25:03 +0000
Subject: [PATCH 086/112] fix: report missing or empty list of files in
 topological distance calculation

---
 src/tools/topological_distance.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools/topological_distance.cc b/src/tools/topological_distance.cc
index 147628d..f4afe3a 100644
--- a/src/tools/topological_distance.cc
+++ b/src/tools/topological_distance.cc
@@ -42,6 +42,7 @@
 #include <limits>
 #include <map>
 #include <regex>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -545,6 +546,9 @@ int main( int argc, char** argv )
       std::string line;
       while( std::getline( in, line ) )
         filenames.push_back( line );
+
+      if( filenames.empty() )
+        throw std::runtime_error( "Unable to read filenames from input file" );
     }
 
     // If the first filename is a text file, I am assuming that the rest
-- 
2.43.0


From c64fdbcb87b2439d51416293c1dd2d316483afda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:25:03 +0000
Subject: [PATCH 087/112] fix: report unknown file formats in topological
 distance calculation

---
 src/tools/topological_distance.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/topological_distance.cc b/src/tools/topological_distance.cc
index f4afe3a..445ff4b 100644
--- a/src/tools/topological_distance.cc
+++ b/src/tools/topological_distance.cc
@@ -691,6 +691,8 @@ int main( int argc, char** argv )
         dataSets.push_back( dataSet );
       }
     }
+    else
+      throw std::runtime_error( "Unknown file format" );
   }
 
   // Setup distance functor --------------------------------------------
-- 
2.43.0


From 9914baeb327cd5fd8c126602edf007dcb7fc2e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:25:03 +0000
Subject: [PATCH 088/112] fix: calculate correct kernel matrices of persistence
 diagrams

---
 src/tools/topological_distance.cc | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/tools/topological_distance.cc b/src/tools/topological_distance.cc
index 445ff4b..136856f 100644
--- a/src/tools/topological_distance.cc
+++ b/src/tools/topological_distance.cc
@@ -754,18 +754,19 @@ int main( int argc, char** argv )
     std::size_t n = dataSets.size();
     std::size_t m = dataSets.size() * ( dataSets.size() - 1 ) / 2;
 
-    #pragma omp parallel for
-    for( std::size_t k = 0; k < m; k++ )
+    auto calculate = [&] ( std::size_t row, std::size_t col )
     {
-      auto row = std::size_t( double( n - 2 ) - std::floor( std::sqrt( -8.0* double( k ) + double( 4*n*(n-1) ) - double( 7 ) ) / 2.0 - 0.5 ) );
-      auto col = std::size_t( k + row + 1 - n*(n-1)/2 + (n-row)*( (n-row)-1 ) / 2 );
-
       double d = 0.0;
 
       if( useIndicatorFunctionDistance )
         d = distancePIF( dataSets.at(row), dataSets.at(col), minDimension, maxDimension, power, normalize );
       else if( useEnvelopeFunctionDistance )
         d = distanceEnvelopeFunctions( dataSets.at(row), dataSets.at(col), minDimension, maxDimension, power );
+
+      // This function already is a kernel, so neither the power nor any
+      // of the conversions are required.
+      else if( useScaleSpaceKernel )
+        return persistenceDiagramDistance( dataSets.at(row), dataSets.at(col), minDimension, maxDimension, 1.0, functor );
       else
         d = persistenceDiagramDistance( dataSets.at(row), dataSets.at(col), minDimension, maxDimension, power, functor );
 
@@ -776,12 +777,31 @@ int main( int argc, char** argv )
           d = std::exp( sigma * d );
       }
 
+      return d;
+    };
+
+    #pragma omp parallel for
+    for( std::size_t k = 0; k < m; k++ )
+    {
+      auto row = std::size_t( double( n - 2 ) - std::floor( std::sqrt( -8.0* double( k ) + double( 4*n*(n-1) ) - double( 7 ) ) / 2.0 - 0.5 ) );
+      auto col = std::size_t( k + row + 1 - n*(n-1)/2 + (n-row)*( (n-row)-1 ) / 2 );
+
+      auto d = calculate( row, col );
+
       distances[row][col] = d;
       distances[col][row] = d;
 
       if( verbose )
         std::cerr << ".";
     }
+
+    // In contrast to distances, kernel values of a data set with itself
+    // are not necessarily zero.
+    if( calculateKernel )
+    {
+      for( std::size_t i = 0; i < n; i++ )
+        distances[i][i] = calculate( i, i );
+    }
   }
 
   std::cerr << "finished\n";
-- 
2.43.0


From d14b93cc0b793a76d5c1e76c6c8a858ca6a86781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:25:03 +0000
Subject: [PATCH 089/112] fix: support missing labels in clique persistence
 diagram tool

---
 src/tools/clique_persistence_diagram.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/clique_persistence_diagram.cc b/src/tools/clique_persistence_diagram.cc
index 9bc894d..020f7f0 100644
--- a/src/tools/clique_persistence_diagram.cc
+++ b/src/tools/clique_persistence_diagram.cc
@@ -541,7 +541,7 @@ int main( int argc, char** argv )
       out << vertex
           << "\t" << ccif.accumulatedPersistence( vertex )
           << "\t" << ccif.numberOfCliqueCommunities( vertex )
-          << ( labels.empty() ? "" : "\t" + formatLabel( labels.at( vertex ) ) ) << "\n";
+          << ( labels.find( vertex ) == labels.end() ? "" : "\t" + formatLabel( labels.at( vertex ) ) ) << "\n";
     }
   }
 }
-- 
2.43.0


From d1b03536ee78b8ae6d08f092d6d6231e91dfae60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:25:03 +0000
Subject: [PATCH 090/112] fix: support arbitrary node identifiers in clique
 persistence diagram tool

---
 src/tools/clique_persistence_diagram.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/tools/clique_persistence_diagram.cc b/src/tools/clique_persistence_diagram.cc
index 020f7f0..4ab8ac8 100644
--- a/src/tools/clique_persistence_diagram.cc
+++ b/src/tools/clique_persistence_diagram.cc
@@ -22,6 +22,7 @@
 #include <iostream>
 #include <limits>
 #include <numeric>
+#include <set>
 #include <string>
 #include <sstream>
 #include <unordered_map>
@@ -341,11 +342,18 @@ int main( int argc, char** argv )
 
     auto labelMap = reader.getNodeAttribute( "label" );
 
-    // Note that this assumes that the labels are convertible to
-    // numbers.
+    auto idMap    = reader.id_to_index<std::size_t>();
+
+    // The identifiers of the nodes are not necessarily numbers, so the
+    // vertices have to be looked up.
+    std::set<VertexType> vertices;
+    K.vertices( std::inserter( vertices, vertices.end() ) );
+
+    std::vector<VertexType> indexToVertex( vertices.begin(), vertices.end() );
+
     for( auto&& pair : labelMap )
       if( !pair.second.empty() )
-        labels[ static_cast<VertexType>( std::stoul( pair.first ) ) ] = pair.second;
+        labels[ indexToVertex.at( idMap.at( pair.first ) ) ] = pair.second;
 
     if( labels.empty() )
       labels.clear();
-- 
2.43.0


From c70b5cef1ce285f0fc69653cf4ced74ca32f59b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:31:25 +0000
Subject: [PATCH 091/112] fix: report missing data values in Rips expansion

---
 include/aleph/geometry/RipsExpander.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/aleph/geometry/RipsExpander.hh b/include/aleph/geometry/RipsExpander.hh
index f51b2b2..45ab69f 100644
--- a/include/aleph/geometry/RipsExpander.hh
+++ b/include/aleph/geometry/RipsExpander.hh
@@ -6,6 +6,7 @@
 #include <list>
 #include <limits>
 #include <set>
+#include <stdexcept>
 #include <unordered_map>
 #include <unordered_set>
 #include <type_traits>
@@ -187,6 +188,9 @@ public:
         vertexToIndex[vertex] = index++;
     }
 
+    if( dataValues.size() < vertexToIndex.size() )
+      throw std::runtime_error( "Number of data values must not be smaller than number of vertices" );
+
     for( auto s : K )
     {
       DataType data = init;
-- 
2.43.0


From a012ee4b6a5096823a6e05573da9ead7072fd3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:32:36 +0000
Subject: [PATCH 092/112] fix: support streams without random access when
 loading point clouds

---
 include/aleph/containers/PointCloud.hh | 28 +++++++++-----------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/include/aleph/containers/PointCloud.hh b/include/aleph/containers/PointCloud.hh
index ae8328a..a71d965 100644
--- a/include/aleph/containers/PointCloud.hh
+++ b/include/aleph/containers/PointCloud.hh
@@ -233,10 +233,11 @@ template<class T> PointCloud<T> load( std::istream& in )
   if( !in )
     return PointCloud<T>();
 
-  // Count all lines in the file, removing comments and empty lines
+  // Store all lines in the file, removing comments and empty lines
   // from the calculation. Else, the code below allocates many points
-  // that will remain empty.
-  std::size_t lines = 0;
+  // that will remain empty. The stream cannot be read a second time,
+  // as not every stream, such as a pipe, supports this.
+  std::vector<std::string> lines;
 
   {
     std::string line;
@@ -244,34 +245,25 @@ template<class T> PointCloud<T> load( std::istream& in )
     {
       line = utilities::trim( line );
       if( !line.empty() && line.front() != '#' )
-        lines += 1;
+        lines.push_back( line );
     }
   }
 
-  if( lines == 0 )
+  if( lines.empty() )
     return PointCloud<T>();
 
-  in.clear();
-  in.seekg( 0 );
-
   std::size_t i = 0;
   std::size_t d = 0;
-  std::size_t n = lines;
-
-  std::string line;
+  std::size_t n = lines.size();
 
   PointCloud<T> pointCloud;
 
-  while( std::getline( in, line ) )
+  for( auto&& line : lines )
   {
-    line        = utilities::trim( line );
     auto tokens = utilities::split( line, std::string( "[:;,[:space:]]+" ) );
 
-    // Skip comment lines or empty lines; while this is somewhat
-    // superfluous in most files (at least it is unlikely that a
-    // line in the middle of the file will be empty), the loader
-    // should handle empty lines at the end of the file.
-    if( line.empty() || line.front() == '#' || tokens.empty() )
+    // Skip lines that do not contain any coordinates
+    if( tokens.empty() )
       continue;
 
     if( d == 0 )
-- 
2.43.0


From 48f6164db64a0fb19e73cecbe32a929b8e4dbe9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:32:36 +0000
Subject: [PATCH 093/112] fix: report missing or empty point clouds in
 Vietoris--Rips example

---
 examples/vietoris_rips.cc              | 4 ++++
 include/aleph/containers/PointCloud.hh | 1 +
 2 files changed, 5 insertions(+)

diff --git a/examples/vietoris_rips.cc b/examples/vietoris_rips.cc
index a9fe49d..03a1489 100644
--- a/examples/vietoris_rips.cc
+++ b/examples/vietoris_rips.cc
@@ -39,6 +39,7 @@
 #include <aleph/persistentHomology/Calculation.hh>
 
 #include <iostream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -128,6 +129,9 @@ int main( int argc, char** argv )
     pointCloud = aleph::containers::load<DataType>( input );
   }
 
+  if( pointCloud.empty() )
+    throw std::runtime_error( "Unable to read point cloud" );
+
   auto dimension = pointCloud.dimension() + 1;
 
   // This converts the string supplied by the user to the corresponding
diff --git a/include/aleph/containers/PointCloud.hh b/include/aleph/containers/PointCloud.hh
index a71d965..8463541 100644
--- a/include/aleph/containers/PointCloud.hh
+++ b/include/aleph/containers/PointCloud.hh
@@ -9,6 +9,7 @@
 #include <ostream>
 #include <stdexcept>
 #include <string>
+#include <vector>
 
 #include <cstddef>
 
-- 
2.43.0


From 97b64d325cceb6db1651e9e89726601fd1d49a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:10:03 +0000
Subject: [PATCH 094/112] fix: Compare points of different dimensions without
 reading past the end

---
 include/aleph/geometry/Point.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/geometry/Point.hh b/include/aleph/geometry/Point.hh
index 45d4aab..5bc630b 100644
--- a/include/aleph/geometry/Point.hh
+++ b/include/aleph/geometry/Point.hh
@@ -80,7 +80,7 @@ public:
   /** Checks all coordinates of two points for equality */
   bool operator==( const Point& other ) const noexcept
   {
-    return std::equal( _data.begin(), _data.end(), other._data.begin() );
+    return _data == other._data;
   }
 
   /** Checks whether at least one coordinate of the two points differs */
-- 
2.43.0


From 83df463e06225cbec8ffe4987f2d71c32cb735f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:10:03 +0000
Subject: [PATCH 095/112] fix: Format numbers correctly if the maximum is zero

---
 include/aleph/utilities/Format.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/aleph/utilities/Format.hh b/include/aleph/utilities/Format.hh
index 34b8ea0..91bf9cf 100644
--- a/include/aleph/utilities/Format.hh
+++ b/include/aleph/utilities/Format.hh
@@ -3,6 +3,7 @@
 
 #include <iomanip>
 #include <ostream>
+#include <sstream>
 #include <string>
 
 #include <cmath>
@@ -24,7 +25,8 @@ namespace utilities
 
 template <class T> std::string format( T n, T N, char fill = '0' )
 {
-  int width = static_cast<int>(std::log10( N ) + 1);
+  // There is always at least one digit, even if the maximum is zero
+  int width = N < T(1) ? 1 : static_cast<int>(std::log10( N ) + 1);
 
   std::ostringstream stream;
   stream << std::setw( width ) << std::setfill( fill ) << n;
-- 
2.43.0


From 31ff4af2cb21e773c39eba779c607fa2bfa58705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:32:55 +0000
Subject: [PATCH 096/112] fix: Use the filtration order of weights when
 analysing connectivity matrices

---
 src/tools/connectivity_matrix_analysis.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/connectivity_matrix_analysis.cc b/src/tools/connectivity_matrix_analysis.cc
index 23b1afd..759d403 100644
--- a/src/tools/connectivity_matrix_analysis.cc
+++ b/src/tools/connectivity_matrix_analysis.cc
@@ -15,6 +15,8 @@
 
 #include <aleph/persistentHomology/Calculation.hh>
 
+#include <aleph/topology/filtrations/Data.hh>
+
 #include <aleph/topology/io/AdjacencyMatrix.hh>
 
 #include <aleph/topology/Simplex.hh>
@@ -132,7 +134,7 @@ int main( int argc, char** argv )
       }
     );
 
-    K.sort();
+    K.sort( aleph::topology::filtrations::Data<Simplex>() );
 
     bool dualize                    = true;
     bool includeAllUnpairedCreators = keepUnpaired;
-- 
2.43.0


From f7266aeb3b411690e34f2ac02e7ec2cd6583ec57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:32:55 +0000
Subject: [PATCH 097/112] fix: Honour dimension and verbosity options when
 analysing connectivity matrices

---
 src/tools/connectivity_matrix_analysis.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/tools/connectivity_matrix_analysis.cc b/src/tools/connectivity_matrix_analysis.cc
index 759d403..3099405 100644
--- a/src/tools/connectivity_matrix_analysis.cc
+++ b/src/tools/connectivity_matrix_analysis.cc
@@ -8,6 +8,8 @@
   interpretable correlation measure.
 */
 
+#include <aleph/geometry/RipsExpander.hh>
+
 #include <aleph/persistenceDiagrams/Entropy.hh>
 #include <aleph/persistenceDiagrams/Norms.hh>
 
@@ -84,6 +86,9 @@ int main( int argc, char** argv )
       case 'k':
         keepUnpaired = true;
         break;
+      case 'v':
+        verbose = true;
+        break;
       }
     }
   }
@@ -134,6 +139,14 @@ int main( int argc, char** argv )
       }
     );
 
+    if( dimension > 1 )
+    {
+      aleph::geometry::RipsExpander<SimplicialComplex> expander;
+
+      K = expander( K, dimension );
+      K = expander.assignMaximumWeight( K );
+    }
+
     K.sort( aleph::topology::filtrations::Data<Simplex>() );
 
     bool dualize                    = true;
-- 
2.43.0


From a6e22633a3992c64505fa21df37833676f8d5b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:32:55 +0000
Subject: [PATCH 098/112] fix: Separate diagrams of connectivity matrices in
 JSON output

---
 src/tools/connectivity_matrix_analysis.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tools/connectivity_matrix_analysis.cc b/src/tools/connectivity_matrix_analysis.cc
index 3099405..2cbcf45 100644
--- a/src/tools/connectivity_matrix_analysis.cc
+++ b/src/tools/connectivity_matrix_analysis.cc
@@ -124,6 +124,8 @@ int main( int argc, char** argv )
   std::cout << "{\n"
             << "\"diagrams\": [\n";
 
+  bool first = true;
+
   for( auto&& filename : filenames )
   {
     if( verbose )
@@ -187,6 +189,11 @@ int main( int argc, char** argv )
 
       kvs["persistent_entropy"]  = std::to_string( aleph::persistentEntropy( diagram ) );
 
+      if( !first )
+        std::cout << ",\n";
+
+      first = false;
+
       aleph::io::writeJSON( std::cout, diagram, basename, kvs );
     }
   }
-- 
2.43.0


From 6ebda04175c0c29da1db072b6eb5ca810e2b84c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:32:55 +0000
Subject: [PATCH 099/112] fix: Sort superlevel set filtration of PLY example in
 descending order

---
 examples/ply.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/examples/ply.cc b/examples/ply.cc
index 11a8854..257ee7b 100644
--- a/examples/ply.cc
+++ b/examples/ply.cc
@@ -39,6 +39,7 @@
 
 #include <aleph/utilities/Timer.hh>
 
+#include <functional>
 #include <iostream>
 #include <vector>
 
@@ -156,7 +157,7 @@ int main( int argc, char** argv )
   if( useSuperlevelSets )
   {
     K.recalculateWeights( false );
-    K.sort( aleph::topology::filtrations::Data<Simplex>() );
+    K.sort( aleph::topology::filtrations::Data<Simplex, std::greater<DataType> >() );
   }
 
   // This small utility class permits measuring the time of certain
-- 
2.43.0


From 6eaf0f44aeb71c8d2a35d047530b0cd45a5f89b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:32:55 +0000
Subject: [PATCH 100/112] fix: Treat dimension of witness complex example as an
 optional argument

---
 examples/witness_complex.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/examples/witness_complex.cc b/examples/witness_complex.cc
index 6156f18..d74919e 100644
--- a/examples/witness_complex.cc
+++ b/examples/witness_complex.cc
@@ -106,7 +106,7 @@ int main( int argc, char** argv )
     }
   }
 
-  if( ( argc - optind ) <= 1 )
+  if( ( argc - optind ) < 1 )
   {
     usage();
     return -1;
@@ -121,7 +121,7 @@ int main( int argc, char** argv )
   auto dimension    = static_cast<unsigned>( pointCloud.dimension() + 1 );
   auto numLandmarks = static_cast<std::size_t>( static_cast<double>( pointCloud.size() ) * landmarksFraction );
 
-  if( ( argc - optind ) >= 2 )
+  if( ( argc - optind ) >= 1 )
     dimension = static_cast<unsigned>( std::stoul( argv[optind++] ) );
 
   std::vector<std::size_t> landmarks;
-- 
2.43.0


From 9ea73c92dda68c1aad1c38e3f066e5895c8643d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:32:55 +0000
Subject: [PATCH 101/112] fix: Support empty diagrams when calculating
 signatures

---
 src/tools/make_signature.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/make_signature.cc b/src/tools/make_signature.cc
index e33ccce..e9da7d2 100644
--- a/src/tools/make_signature.cc
+++ b/src/tools/make_signature.cc
@@ -78,7 +78,7 @@ std::vector<DataType> makeSignature( const PersistenceDiagram& D )
   // All pairwise distances with potential repetitions for points that
   // are well outside the influence radius of other points.
   std::vector<DataType> distances;
-  distances.reserve( ( D.size() * D.size() - 1 ) / 2 );
+  distances.reserve( D.size() * ( D.size() - 1 ) / 2 );
 
   for( auto it1 = D.begin(); it1 != D.end(); ++it1 )
   {
-- 
2.43.0


From ef288fb6c9961c6bc21b03949c7c4760a49cd849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:32:55 +0000
Subject: [PATCH 102/112] fix: Require an argument for the short option that
 selects the spine method

---
 src/tools/persistent_spines.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/persistent_spines.cc b/src/tools/persistent_spines.cc
index ad25323..4c126ab 100644
--- a/src/tools/persistent_spines.cc
+++ b/src/tools/persistent_spines.cc
@@ -48,7 +48,7 @@ int main( int argc, char** argv )
     };
 
     int option = 0;
-    while( ( option = getopt_long( argc, argv, "r:st", commandLineOptions, nullptr ) ) != -1 )
+    while( ( option = getopt_long( argc, argv, "r:s:t", commandLineOptions, nullptr ) ) != -1 )
     {
       switch( option )
       {
-- 
2.43.0


From 6a5cb610ead9863c207fccda4d8fca1a79a52651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:32:55 +0000
Subject: [PATCH 103/112] fix: Sort superlevel set filtration of sparse
 adjacency matrices in descending order

---
 src/tools/sparse_adjacency_matrices.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/sparse_adjacency_matrices.cc b/src/tools/sparse_adjacency_matrices.cc
index 80f5ca4..1595ff6 100644
--- a/src/tools/sparse_adjacency_matrices.cc
+++ b/src/tools/sparse_adjacency_matrices.cc
@@ -315,7 +315,7 @@ int main( int argc, char** argv )
       if( useSuperlevelSets )
       {
         K.sort(
-           aleph::topology::filtrations::Data< Simplex, std::less<DataType> >()
+           aleph::topology::filtrations::Data< Simplex, std::greater<DataType> >()
          );
       }
       else
-- 
2.43.0


From 79019b4d618153b278cb12de5efa0b70e7ff3b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:32:55 +0000
Subject: [PATCH 104/112] fix: Expand sparse adjacency matrices if requested

---
 src/tools/sparse_adjacency_matrices.cc | 31 ++++++++++----------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/src/tools/sparse_adjacency_matrices.cc b/src/tools/sparse_adjacency_matrices.cc
index 1595ff6..ca0f29a 100644
--- a/src/tools/sparse_adjacency_matrices.cc
+++ b/src/tools/sparse_adjacency_matrices.cc
@@ -232,27 +232,8 @@ int main( int argc, char** argv )
     }
   }
 
-  // Expand simplicial complexes ---------------------------------------
-
   aleph::geometry::RipsExpander<SimplicialComplex> expander;
 
-  if( dimension != 0 )
-  {
-    std::cerr << "* Expanding simplicial complexes to dimension " << dimension << "...";
-
-    for( auto&& K : simplicialComplexes )
-      expander( K, dimension );
-
-    std::cerr << "finished\n";
-  }
-
-  std::size_t maxDimension = 0;
-
-  // Determine maximum dimension; this will be required later on to
-  // ensure that we store persistence diagrams for each complex.
-  for( auto&& K : simplicialComplexes )
-    maxDimension = std::max( K.dimension(), maxDimension );
-
   // Calculate degrees -------------------------------------------------
 
   DataType maxDegree = 0;
@@ -266,6 +247,11 @@ int main( int argc, char** argv )
 
     std::vector<DataType> degrees( degrees_.begin(), degrees_.end() );
 
+    // The degrees refer to the graph, so the expansion must not happen
+    // before they have been calculated.
+    if( dimension != 0 )
+      K = expander( K, dimension );
+
     if( !degrees.empty() )
     {
       maxDegree
@@ -325,6 +311,13 @@ int main( int argc, char** argv )
   std::cerr << "finished\n"
             << "* Identified maximum degree as D=" << maxDegree << "\n";
 
+  std::size_t maxDimension = 0;
+
+  // Determine maximum dimension; this will be required later on to
+  // ensure that we store persistence diagrams for each complex.
+  for( auto&& K : simplicialComplexes )
+    maxDimension = std::max( K.dimension(), maxDimension );
+
   // Store graphs ------------------------------------------------------
 
   if( storeGraphs )
-- 
2.43.0


From 710d4236fc14e95db7083723ba69cf8c9bda8d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:41:27 +0000
Subject: [PATCH 105/112] fix: vietoris_rips_eccentricity handles empty and
 equally central point clouds

---
 examples/vietoris_rips_eccentricity.cc | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/examples/vietoris_rips_eccentricity.cc b/examples/vietoris_rips_eccentricity.cc
index ac61647..658ba4d 100644
--- a/examples/vietoris_rips_eccentricity.cc
+++ b/examples/vietoris_rips_eccentricity.cc
@@ -154,14 +154,20 @@ int main( int argc, char** argv )
     // traversal.
 
     auto minmax = std::minmax_element( eccentricity.begin(), eccentricity.end() );
-    auto min    = *minmax.first;
-    auto max    = *minmax.second;
-
-    std::transform( eccentricity.begin(), eccentricity.end(), eccentricity.begin(),
-                    [&min, &max] ( double v )
-                    {
-                      return ( max - v ) / ( max - min );
-                    } );
+
+    // There is nothing to transform if the point cloud is empty or if all
+    // points are equally central.
+    if( minmax.first != eccentricity.end() && *minmax.first != *minmax.second )
+    {
+      auto min = *minmax.first;
+      auto max = *minmax.second;
+
+      std::transform( eccentricity.begin(), eccentricity.end(), eccentricity.begin(),
+                      [&min, &max] ( double v )
+                      {
+                        return ( max - v ) / ( max - min );
+                      } );
+    }
   }
 
   std::cerr << "finished\n";
-- 
2.43.0


From 540a012bbad75465b1ae8336559d2dc8f5d42bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:41:27 +0000
Subject: [PATCH 106/112] fix: piecewise_linear_function_smoothing accepts its
 short option for the number of samples

---
 src/tools/piecewise_linear_function_smoothing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/piecewise_linear_function_smoothing.cc b/src/tools/piecewise_linear_function_smoothing.cc
index c6e5849..6c37569 100644
--- a/src/tools/piecewise_linear_function_smoothing.cc
+++ b/src/tools/piecewise_linear_function_smoothing.cc
@@ -72,7 +72,7 @@ int main( int argc, char** argv )
     };
 
     int option = 0;
-    while( ( option = getopt_long( argc, argv, "a:", commandLineOptions, nullptr ) ) != - 1 )
+    while( ( option = getopt_long( argc, argv, "a:n:", commandLineOptions, nullptr ) ) != - 1 )
     {
       switch( option )
       {
-- 
2.43.0


From 432a394427cc6ac61417790a71592aa95224e2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:41:27 +0000
Subject: [PATCH 107/112] fix: stratified_graph_analysis uses a strict weak
 order for absolute weights

---
 src/tools/stratified_graph_analysis.cc | 48 ++++++++++++--------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/src/tools/stratified_graph_analysis.cc b/src/tools/stratified_graph_analysis.cc
index d733587..e46da3e 100644
--- a/src/tools/stratified_graph_analysis.cc
+++ b/src/tools/stratified_graph_analysis.cc
@@ -205,21 +205,19 @@ SimplicialComplex applyFiltration( const SimplicialComplex& K,
           return true;
         else if( std::abs( w1 ) == std::abs( w2 ) )
         {
+          // A face has to precede its cofaces
+          if( s.dimension() != t.dimension() )
+            return s.dimension() < t.dimension();
+
           // This amounts to saying that w1 is positive and w2 is
           // negative.
-          if( w1 > w2 )
-            return true;
-          else
-          {
-            if( s.dimension() < t.dimension() )
-              return true;
-
-            // Absolute value is equal, signed value is equal, and the
-            // dimension is equal. We thus have to fall back to merely
-            // using the lexicographical order.
-            else
-              return s < t;
-          }
+          if( w1 != w2 )
+            return w1 > w2;
+
+          // Absolute value is equal, signed value is equal, and the
+          // dimension is equal. We thus have to fall back to merely
+          // using the lexicographical order.
+          return s < t;
         }
 
         return false;
@@ -238,21 +236,19 @@ SimplicialComplex applyFiltration( const SimplicialComplex& K,
           return true;
         else if( std::abs( w1 ) == std::abs( w2 ) )
         {
+          // A face has to precede its cofaces
+          if( s.dimension() != t.dimension() )
+            return s.dimension() < t.dimension();
+
           // This amounts to saying that w1 is negative and w2 is
           // positive.
-          if( w1 < w2 )
-            return true;
-          else
-          {
-            if( s.dimension() < t.dimension() )
-              return true;
-
-            // Absolute value is equal, signed value is equal, and the
-            // dimension is equal. We thus have to fall back to merely
-            // using the lexicographical order.
-            else
-              return s < t;
-          }
+          if( w1 != w2 )
+            return w1 < w2;
+
+          // Absolute value is equal, signed value is equal, and the
+          // dimension is equal. We thus have to fall back to merely
+          // using the lexicographical order.
+          return s < t;
         }
 
         return false;
-- 
2.43.0


From 51f43f002ac00c2e4c07c83d94272614cf4e8271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:54:14 +0000
Subject: [PATCH 108/112] fix: relevant_edges handles missing labels and labels
 of vertices that are not contiguous

---
 src/tools/relevant_edges.cc | 49 +++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/src/tools/relevant_edges.cc b/src/tools/relevant_edges.cc
index 44b127a..07dafd4 100644
--- a/src/tools/relevant_edges.cc
+++ b/src/tools/relevant_edges.cc
@@ -8,7 +8,9 @@
 #include <aleph/topology/SimplicialComplex.hh>
 
 #include <iostream>
+#include <iterator>
 #include <map>
+#include <set>
 #include <string>
 #include <utility>
 #include <unordered_map>
@@ -49,22 +51,11 @@ struct SizeFunctor
     _edgeRelevance[ e ]    = std::min( c_older, c_younger)  / std::max( c_older, c_younger );
     _edgeStrength [ e ]    = _componentSize[older];
 
-    if( _labels.empty() )
-    {
-      std::cerr << "* Edge " << "(" << u << "," << v << "): "
-                << _edgeRelevance[e]
-                << " "
-                << "[" << creation << "," << destruction << "]"
-                << "\n";
-    }
-    else
-    {
-      std::cerr << "* Edge " << "(" << _labels.at(u) << "," << _labels.at(v) << "): "
-                << _edgeRelevance[e]
-                << " "
-                << "[" << creation << "," << destruction << "]"
-                << "\n";
-    }
+    std::cerr << "* Edge " << "(" << label(u) << "," << label(v) << "): "
+              << _edgeRelevance[e]
+              << " "
+              << "[" << creation << "," << destruction << "]"
+              << "\n";
   }
 
   void operator()( VertexType /* root */,
@@ -72,11 +63,18 @@ struct SizeFunctor
   {
   }
 
+  // Vertices without a label are described by their index
+  std::string label( VertexType v ) const
+  {
+    auto it = _labels.find( v );
+    return it != _labels.end() && !it->second.empty() ? it->second : std::to_string( v );
+  }
+
   std::unordered_map<VertexType, unsigned> _componentSize;
   std::map<Edge, double>                   _edgeRelevance;
   std::map<Edge, unsigned>                 _edgeStrength;
 
-  std::vector<std::string> _labels;
+  std::unordered_map<VertexType, std::string> _labels;
 };
 
 }
@@ -96,7 +94,22 @@ int main( int argc, char** argv )
   K.sort( Filtration() );
 
   SizeFunctor sf;
-  sf._labels = reader.labels();
+
+  // Labels follow the order of the vertices. Since the vertices are not
+  // required to be contiguous, they cannot be used as an index.
+  {
+    std::set<VertexType> vertices;
+    K.vertices( std::inserter( vertices, vertices.begin() ) );
+
+    auto labels = reader.labels();
+
+    if( labels.size() == vertices.size() )
+    {
+      auto it = labels.begin();
+      for( auto&& vertex : vertices )
+        sf._labels[ vertex ] = *it++;
+    }
+  }
 
   auto&& tuple = aleph::calculateZeroDimensionalPersistenceDiagram<Simplex, aleph::traits::PersistencePairingCalculation<aleph::PersistencePairing<VertexType> > >( K, sf );
   auto&& pd    = std::get<0>( tuple );
-- 
2.43.0


From 5eefd261ea15dfab823c11a34e13a0b88b8e5dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:19:27 +0000
Subject: [PATCH 109/112] fix: Choose best fit among all admissible spheres
 when estimating curvature

---
 include/aleph/geometry/TangentSpace.hh | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/aleph/geometry/TangentSpace.hh b/include/aleph/geometry/TangentSpace.hh
index 9e2236a..67b5425 100644
--- a/include/aleph/geometry/TangentSpace.hh
+++ b/include/aleph/geometry/TangentSpace.hh
@@ -20,6 +20,7 @@
 
 #include <cassert>
 
+#include <limits>
 #include <set>
 #include <vector>
 
@@ -410,15 +411,26 @@ private:
       Solver solver;
       solver.compute( D.transpose() * W * D, C );
 
-      auto eigenvalues = solver.eigenvalues();
-      Vector u         = Vector::Zero( 1, d+2 );
+      auto eigenvalues  = solver.eigenvalues();
+      auto eigenvectors = solver.eigenvectors();
+      Vector u          = Vector::Zero( 1, d+2 );
+      T minEigenvalue   = std::numeric_limits<T>::max();
 
+      // The best fit minimizes the weighted distances among all vectors
+      // that satisfy the constraint, so it belongs to the *smallest* of
+      // all eigenvalues whose eigenvector is admissible. The eigenvalue
+      // itself may be zero because the points may be part of a sphere.
       for( Index i = 0; i < d+2; i++ )
       {
-        if( eigenvalues(i).real() > 0 && eigenvalues(i).imag() == 0 )
+        if( eigenvalues(i).imag() != 0 )
+          continue;
+
+        Vector v = eigenvectors.col(i).real().transpose();
+
+        if( eigenvalues(i).real() < minEigenvalue && v * C * v.transpose() > T() )
         {
-          u = solver.eigenvectors().real().col(i);
-          break;
+          u             = v;
+          minEigenvalue = eigenvalues(i).real();
         }
       }
 
-- 
2.43.0


From 0d439ff738dd19bb4cdfb921df96b26f95c2ac4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:26:59 +0000
Subject: [PATCH 110/112] fix: Handle degenerate neighbourhoods when estimating
 curvature

---
 include/aleph/geometry/TangentSpace.hh | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/aleph/geometry/TangentSpace.hh b/include/aleph/geometry/TangentSpace.hh
index 67b5425..bb10ea3 100644
--- a/include/aleph/geometry/TangentSpace.hh
+++ b/include/aleph/geometry/TangentSpace.hh
@@ -377,6 +377,16 @@ private:
       auto d         = Index( container.dimension() );
       auto k         = Index( indices.size() );
 
+      // Gracefully handle degenerate neighbourhoods that only consist of
+      // a single position, for which there is no unique sphere.
+      if( lts.localFeatureSize <= T() )
+      {
+        Vector u = Vector::Zero( 1, d+2 );
+
+        spheres.emplace_back( Sphere( u.data(), u.data() + u.size() ) );
+        continue;
+      }
+
       Matrix W = Matrix::Zero(k,k  );
       Matrix D = Matrix::Zero(k,d+2);
       Matrix C = Matrix::Identity(d+2,d+2);
-- 
2.43.0


From 48a5c3407dc807ab3895756d8945e82ce6244331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:42:49 +0000
Subject: [PATCH 111/112] fix: process_image_patches normalizes all remaining
 patches, and only those

---
 src/tools/process_image_patches.cc | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/tools/process_image_patches.cc b/src/tools/process_image_patches.cc
index 7f99eb1..7e97e20 100644
--- a/src/tools/process_image_patches.cc
+++ b/src/tools/process_image_patches.cc
@@ -145,7 +145,8 @@ int main( int argc, char** argv )
     std::sort( contrastNorms_.begin(),
                contrastNorms_.end() );
 
-    auto threshold = contrastNorms_.at( std::size_t( std::ceil( (1.0 - contrastNormThreshold) * double( contrastNorms.size() ) ) ) );
+    auto thresholdIndex = std::size_t( std::ceil( (1.0 - contrastNormThreshold) * double( contrastNorms.size() ) ) );
+    auto threshold      = contrastNorms_.at( std::min( thresholdIndex, contrastNorms_.size() - 1 ) );
 
     auto numRemainingPatches
       = std::count_if( contrastNorms.begin(), contrastNorms.end(),
@@ -181,7 +182,7 @@ int main( int argc, char** argv )
 
   std::cerr << "* Final processing and normalization...";
 
-  for( IndexType i = 0; i < pointCloud.size(); i++ )
+  for( IndexType i = 0; i < processedPointCloud.size(); i++ )
   {
     auto p     = processedPointCloud[i];
     auto mean  = aleph::math::accumulate_kahan_sorted( p.begin(), p.end(), DataType() );
@@ -193,13 +194,16 @@ int main( int argc, char** argv )
                       return x - mean;
                     } );
 
-    auto norm = std::sqrt( std::inner_product( p.begin(), p.end(), p.begin(), 0 ) );
+    auto norm = std::sqrt( std::inner_product( p.begin(), p.end(), p.begin(), DataType() ) );
 
-    std::transform( p.begin(), p.end(), p.begin(),
-                    [&norm] ( DataType x )
-                    {
-                      return x / norm;
-                    } );
+    if( norm > DataType() )
+    {
+      std::transform( p.begin(), p.end(), p.begin(),
+                      [&norm] ( DataType x )
+                      {
+                        return x / norm;
+                      } );
+    }
 
     processedPointCloud.set( i, p.begin(), p.end() );
   }
-- 
2.43.0


From 2fd8f36d906cc0217c3fcd51a5fad16dab5b212f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:49:48 +0000
Subject: [PATCH 112/112] Restore example programs

---
 examples/network_analysis.cc           | 14 ++------------
 examples/ply.cc                        |  3 +--
 examples/vietoris_rips.cc              | 10 +---------
 examples/vietoris_rips_eccentricity.cc | 22 ++++++++--------------
 examples/witness_complex.cc            |  4 ++--
 5 files changed, 14 insertions(+), 39 deletions(-)

diff --git a/examples/network_analysis.cc b/examples/network_analysis.cc
index 29073b4..274b921 100644
--- a/examples/network_analysis.cc
+++ b/examples/network_analysis.cc
@@ -56,7 +56,6 @@
 #include <fstream>
 #include <limits>
 #include <sstream>
-#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -216,9 +215,6 @@ int main( int argc, char** argv )
   {
     std::ifstream in( nodeWeightsFile );
 
-    if( !in )
-      throw std::runtime_error( "Unable to read node weights" );
-
     std::vector<DataType> nodeWeights;
 
     aleph::geometry::RipsExpander<SimplicialComplex> ripsExpander;
@@ -248,9 +244,7 @@ int main( int argc, char** argv )
 
     for (auto it = K.begin(); it != K.end(); ++it )
     {
-      // Vertices do not have a weight of their own unless it has been
-      // specified by the user.
-      if( it->dimension() == 0 && nodeWeightsFile.empty() )
+      if( it->dimension() == 0 )
         continue;
 
       auto s = *it;
@@ -356,10 +350,6 @@ int main( int argc, char** argv )
     // clutter up the diagram.
     D.removeDiagonal();
 
-    // The Betti number has to be determined before the unpaired points
-    // are being transformed.
-    auto betti = D.betti();
-
     if( std::isfinite( infinity ) && infinity != std::numeric_limits<DataType>::max() )
     {
       std::cerr << "* Transforming unpaired points in persistence diagram with a factor of " << infinity << "...\n";
@@ -391,7 +381,7 @@ int main( int argc, char** argv )
            << "#\n"
            << "# Dimension   : " << D.dimension() << "\n"
            << "# Entries     : " << D.size() << "\n"
-           << "# Betti number: " << betti << "\n"
+           << "# Betti number: " << D.betti() << "\n"
            << D;
 
     // Use the separator for all but the last persistence diagram. Else,
diff --git a/examples/ply.cc b/examples/ply.cc
index 257ee7b..11a8854 100644
--- a/examples/ply.cc
+++ b/examples/ply.cc
@@ -39,7 +39,6 @@
 
 #include <aleph/utilities/Timer.hh>
 
-#include <functional>
 #include <iostream>
 #include <vector>
 
@@ -157,7 +156,7 @@ int main( int argc, char** argv )
   if( useSuperlevelSets )
   {
     K.recalculateWeights( false );
-    K.sort( aleph::topology::filtrations::Data<Simplex, std::greater<DataType> >() );
+    K.sort( aleph::topology::filtrations::Data<Simplex>() );
   }
 
   // This small utility class permits measuring the time of certain
diff --git a/examples/vietoris_rips.cc b/examples/vietoris_rips.cc
index 03a1489..bbedee1 100644
--- a/examples/vietoris_rips.cc
+++ b/examples/vietoris_rips.cc
@@ -39,7 +39,6 @@
 #include <aleph/persistentHomology/Calculation.hh>
 
 #include <iostream>
-#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -97,7 +96,7 @@ int main( int argc, char** argv )
 
   // Insufficient number of parameters available. Just show the help and
   // stop everything else.
-  if( argc - optind < 2 )
+  if( argc - optind <= 0 )
   {
     usage();
     return -1;
@@ -129,9 +128,6 @@ int main( int argc, char** argv )
     pointCloud = aleph::containers::load<DataType>( input );
   }
 
-  if( pointCloud.empty() )
-    throw std::runtime_error( "Unable to read point cloud" );
-
   auto dimension = pointCloud.dimension() + 1;
 
   // This converts the string supplied by the user to the corresponding
@@ -218,10 +214,6 @@ int main( int argc, char** argv )
         maxDistance = std::max( maxDistance, Distance()( p.begin(), q.begin(), pointCloud.dimension() ) );
       }
     }
-
-    // The functor calculates squared distances, whereas the persistence
-    // diagrams contain regular ones.
-    maxDistance = aleph::geometry::distances::Traits<Distance>().from( maxDistance );
   }
 
   using PersistenceDiagram = aleph::PersistenceDiagram<DataType>;
diff --git a/examples/vietoris_rips_eccentricity.cc b/examples/vietoris_rips_eccentricity.cc
index 658ba4d..ac61647 100644
--- a/examples/vietoris_rips_eccentricity.cc
+++ b/examples/vietoris_rips_eccentricity.cc
@@ -154,20 +154,14 @@ int main( int argc, char** argv )
     // traversal.
 
     auto minmax = std::minmax_element( eccentricity.begin(), eccentricity.end() );
-
-    // There is nothing to transform if the point cloud is empty or if all
-    // points are equally central.
-    if( minmax.first != eccentricity.end() && *minmax.first != *minmax.second )
-    {
-      auto min = *minmax.first;
-      auto max = *minmax.second;
-
-      std::transform( eccentricity.begin(), eccentricity.end(), eccentricity.begin(),
-                      [&min, &max] ( double v )
-                      {
-                        return ( max - v ) / ( max - min );
-                      } );
-    }
+    auto min    = *minmax.first;
+    auto max    = *minmax.second;
+
+    std::transform( eccentricity.begin(), eccentricity.end(), eccentricity.begin(),
+                    [&min, &max] ( double v )
+                    {
+                      return ( max - v ) / ( max - min );
+                    } );
   }
 
   std::cerr << "finished\n";
diff --git a/examples/witness_complex.cc b/examples/witness_complex.cc
index d74919e..6156f18 100644
--- a/examples/witness_complex.cc
+++ b/examples/witness_complex.cc
@@ -106,7 +106,7 @@ int main( int argc, char** argv )
     }
   }
 
-  if( ( argc - optind ) < 1 )
+  if( ( argc - optind ) <= 1 )
   {
     usage();
     return -1;
@@ -121,7 +121,7 @@ int main( int argc, char** argv )
   auto dimension    = static_cast<unsigned>( pointCloud.dimension() + 1 );
   auto numLandmarks = static_cast<std::size_t>( static_cast<double>( pointCloud.size() ) * landmarksFraction );
 
-  if( ( argc - optind ) >= 1 )
+  if( ( argc - optind ) >= 2 )
     dimension = static_cast<unsigned>( std::stoul( argv[optind++] ) );
 
   std::vector<std::size_t> landmarks;
-- 
2.43.0

