From 755a7325719e0fbdf6c8fb4242aa05dabdfdf7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:52 +0000
Subject: [PATCH 01/47] fix: copy neighbor sets before forcible activation
 reallocates them

---
 src/MultiIndices/MultiIndexSet.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index 184b6e0..12ed5ba 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -706,8 +706,8 @@ std::vector<unsigned int> MultiIndexSet::ForciblyExpand(unsigned int const activ
   std::vector<unsigned int> newIndices;
   unsigned int globalIndex = active2global.at(activeIndex);
 
-  // loop through the forward neighbors of this index
-  std::set<int>& tempSet = outEdges.at(globalIndex);
+  // loop through the forward neighbors of this index.  The edges are copied because activation can reallocate them.
+  std::set<int> tempSet = outEdges.at(globalIndex);
   for(int neighbor : tempSet)
     ForciblyActivate(neighbor,newIndices);
 
@@ -725,8 +725,8 @@ void MultiIndexSet::ForciblyActivate(int globalIndex, std::vector<unsigned int>
     Activate(globalIndex);
     newIndices.push_back(global2active.at(globalIndex));
 
-    // now, fill in all of the previous neighbors
-    std::set<int>& tempSet = inEdges.at(globalIndex);
+    // now, fill in all of the previous neighbors.  The edges are copied because activation can reallocate them.
+    std::set<int> tempSet = inEdges.at(globalIndex);
     for(int ind : tempSet)
       ForciblyActivate(ind,newIndices);
 
-- 
2.43.0


From 95b66d2b1068e2d44dbd40197a706de185ca357d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 02/47] fix: leave the multi-index set unchanged when
 SetLimiter rejects the limiter

---
 src/MultiIndices/MultiIndexSet.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index 12ed5ba..97eaa3c 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -181,20 +181,24 @@ FixedMultiIndexSet<Kokkos::HostSpace> MultiIndexSet::Fix(bool compress) const
 
 void MultiIndexSet::SetLimiter(LimiterType const& newLimiter){
 
+  // Make sure all active terms in the set obey the new limiter before changing anything
+  for(unsigned int globalInd : active2global)
+  {
+    if(!newLimiter(allMultis.at(globalInd))){
+      std::stringstream msg;
+      msg << "Invalid limiter passed to MultiIndexSet::SetLimiter.  The active multi-index, ";
+      msg << allMultis.at(globalInd).Vector() << ", is not valid with the new limiter.\n";
+      throw std::invalid_argument(msg.str());
+    }
+  }
+
   // copy the limiter
   limiter = newLimiter;
 
-  //  make sure no active terms in the set currently obey the new limiter.
-  //  If a term is inactive, remove all edges tied to it
+  //  If a term is inactive and no longer allowed, remove all edges tied to it
   for(unsigned int globalInd=0; globalInd<allMultis.size(); ++globalInd)
   {
     if(IsActive(globalInd)){
-      if(!newLimiter(allMultis.at(globalInd))){
-        std::stringstream msg;
-        msg << "Invalid limiter passed to MultiIndexSet::SetLimiter.  The active multi-index, ";
-        msg << allMultis.at(globalInd).Vector() << ", is not valid with the new limiter.\n";
-        throw std::invalid_argument(msg.str());
-      }
 
       // Add any newly admissible inactive forward neighbors
       AddForwardNeighbors(globalInd,true);
-- 
2.43.0


From 7e1f4ab22cfac1770845fd6ab60b500ff4b3257a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 03/47] fix: do not activate multi-indices that the current
 limiter rejects

---
 src/MultiIndices/MultiIndexSet.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index 97eaa3c..e0f46d5 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -266,16 +266,16 @@ int MultiIndexSet::AddActive(MultiIndex const& newNode)
 
 int MultiIndexSet::AddInactive(MultiIndex const& newNode)
 {
+  // Terms that were added under a previous limiter might not be allowed by the current one
+  if(!limiter(newNode))
+    return -1;
+
   auto iter = multi2global.find(newNode);
 
   if(iter!=multi2global.end()){
     return iter->second;
-
-  }else if(limiter(newNode)){
-    return AddMulti(newNode);
-
   }else{
-    return -1;
+    return AddMulti(newNode);
   }
 }
 
@@ -731,8 +731,11 @@ void MultiIndexSet::ForciblyActivate(int globalIndex, std::vector<unsigned int>
 
     // now, fill in all of the previous neighbors.  The edges are copied because activation can reallocate them.
     std::set<int> tempSet = inEdges.at(globalIndex);
-    for(int ind : tempSet)
-      ForciblyActivate(ind,newIndices);
+    for(int ind : tempSet){
+      // Inactive terms added under a previous limiter might not be allowed by the current one
+      if(limiter(allMultis.at(ind)))
+        ForciblyActivate(ind,newIndices);
+    }
 
   }
 }
-- 
2.43.0


From 0086c789dadf61db7fb29b1ccb07c7fba6da4848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 04/47] fix: only report multi-indices whose backward neighbors
 are all active in ReducedMargin

---
 src/MultiIndices/MultiIndexSet.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index e0f46d5..9742d90 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -536,18 +536,9 @@ std::vector<MultiIndex> MultiIndexSet::ReducedMargin() const
 
   for(unsigned int globalInd=0; globalInd<global2active.size(); ++globalInd){
 
-    // If this is an inactive multiindex
-    if(!IsActive(globalInd)){
-
-      // Check the backward neighbors
-      bool allActive = true;
-      for(auto neighbor : inEdges[globalInd])
-        allActive = (allActive && IsActive(neighbor));
-
-      if(allActive)
-        output.push_back(allMultis.at(globalInd));
-
-    }
+    // If this is an inactive multiindex with all of its backward neighbors active
+    if(!IsActive(globalInd) && IsAdmissible(globalInd))
+      output.push_back(allMultis.at(globalInd));
   }
 
   return output;
-- 
2.43.0


From 65c0e3f76958988520da009520feea4a9b82ff09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 05/47] fix: report each newly activated multi-index once in
 MultiIndexSet::Expand

---
 src/MultiIndices/MultiIndexSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index 9742d90..2d2d144 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -669,7 +669,7 @@ std::vector<unsigned int> MultiIndexSet::Expand()
 {
     // Figure out which terms in the frontier should be activated
     std::vector<unsigned int> frontier = Frontier();
-    std::vector<unsigned int> toExpand; // Global indices to activate
+    std::set<unsigned int> toExpand; // Global indices to activate.  Frontier terms can share forward neighbors.
     for(auto& ind : frontier){
 
         unsigned int globalIndex = active2global.at(ind);
@@ -679,7 +679,7 @@ std::vector<unsigned int> MultiIndexSet::Expand()
         for(int neighbor : tempSet)
         { 
             if(IsAdmissible(neighbor)&&(!IsActive(neighbor))){
-                toExpand.push_back(neighbor);
+                toExpand.insert(neighbor);
             }
         }
     }
-- 
2.43.0


From fc32e20cd7fd113da040d45e168517bc22985314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 06/47] fix: reject an index equal to the length in
 MultiIndex::Get and MultiIndex::Set

---
 src/MultiIndices/MultiIndex.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MultiIndices/MultiIndex.cpp b/src/MultiIndices/MultiIndex.cpp
index fcc208c..72bd341 100644
--- a/src/MultiIndices/MultiIndex.cpp
+++ b/src/MultiIndices/MultiIndex.cpp
@@ -67,7 +67,7 @@ std::vector<unsigned int>MultiIndex::Vector() const
 
 bool MultiIndex::Set(unsigned int ind, unsigned int val)
 {
-  if(ind>length){
+  if(ind>=length){
     throw std::out_of_range("Tried to set the value of index " + std::to_string(ind) + " on an multiindex with only " + std::to_string(length) + " components.");
     return false;
   }else{
@@ -129,7 +129,7 @@ unsigned int MultiIndex::NumNz() const
 
 unsigned int MultiIndex::MultiIndex::Get(unsigned ind) const
 {
-  if(ind>length){
+  if(ind>=length){
     throw std::out_of_range("Tried to access index " + std::to_string(ind) + " of a multiindex with only " + std::to_string(length) + " components.");
     return 0;
 
-- 
2.43.0


From 00559d3b813c63eedc92a87a7d2cc36f895550f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 07/47] fix: set the end of the last term in dense fixed
 multi-index sets

---
 src/MultiIndices/FixedMultiIndexSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MultiIndices/FixedMultiIndexSet.cpp b/src/MultiIndices/FixedMultiIndexSet.cpp
index c5a1d5a..7776a21 100644
--- a/src/MultiIndices/FixedMultiIndexSet.cpp
+++ b/src/MultiIndices/FixedMultiIndexSet.cpp
@@ -89,7 +89,7 @@ void FixedMultiIndexSet<MemorySpace>::SetupTerms()
     unsigned int numTerms = nzOrders.extent(0) / dim;
 
     nzStarts = Kokkos::View<unsigned int*, MemorySpace>("Start of a Multiindex", numTerms+1);
-    Kokkos::parallel_for(numTerms, StartSetter<MemorySpace>(nzStarts,dim));
+    Kokkos::parallel_for(numTerms+1, StartSetter<MemorySpace>(nzStarts,dim));
     Kokkos::parallel_for(dim*numTerms, DimSetter<MemorySpace>(nzDims,dim));
 }
 template<>
@@ -101,7 +101,7 @@ void FixedMultiIndexSet<Kokkos::HostSpace>::SetupTerms()
     nzStarts = Kokkos::View<unsigned int*, Kokkos::HostSpace>("Start of a Multiindex", numTerms+1);
     {
     StartSetter<Kokkos::HostSpace> functor(nzStarts,dim);
-    for(unsigned int i=0; i<numTerms; ++i)
+    for(unsigned int i=0; i<numTerms+1; ++i)
         functor(i);
     }
     {
-- 
2.43.0


From bc7903bbcbd1b0666f820fa458aa869d411adaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 08/47] fix: stop at the last term when searching a compressed
 fixed multi-index set

---
 src/MultiIndices/FixedMultiIndexSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MultiIndices/FixedMultiIndexSet.cpp b/src/MultiIndices/FixedMultiIndexSet.cpp
index 7776a21..d99df0d 100644
--- a/src/MultiIndices/FixedMultiIndexSet.cpp
+++ b/src/MultiIndices/FixedMultiIndexSet.cpp
@@ -216,7 +216,7 @@ int FixedMultiIndexSet<MemorySpace>::MultiToIndex(std::vector<unsigned int> cons
             nnz += (val>0) ? 1:0;
 
         // Now search for the matching multi
-        for(unsigned int i=0; i<nzStarts.extent(0); ++i){
+        for(unsigned int i=0; i<Size(); ++i){
 
             // First, check if the number of nonzeros matches
             if((nzStarts(i+1)-nzStarts(i))==nnz){
-- 
2.43.0


From c0ee489b6ae19b5c33e239b06902af4299e696db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:12 +0000
Subject: [PATCH 09/47] fix: let factory-built Clenshaw-Curtis components use
 the caller's quadrature workspace

The rule was built with an internal workspace for scalar integrands, so every
gradient of such a component (a vector-valued integrand) failed an assertion.
---
 src/MapFactoryImpl11.cpp | 2 +-
 src/MapFactoryImpl14.cpp | 2 +-
 src/MapFactoryImpl17.cpp | 2 +-
 src/MapFactoryImpl2.cpp  | 2 +-
 src/MapFactoryImpl5.cpp  | 2 +-
 src/MapFactoryImpl8.cpp  | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/MapFactoryImpl11.cpp b/src/MapFactoryImpl11.cpp
index 73addff..0433821 100644
--- a/src/MapFactoryImpl11.cpp
+++ b/src/MapFactoryImpl11.cpp
@@ -17,7 +17,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_LinPhys_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     LinearizedBasis<PhysicistHermite> basis1d(PhysicistHermite(opts.basisNorm), opts.basisLB, opts.basisUB);
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
diff --git a/src/MapFactoryImpl14.cpp b/src/MapFactoryImpl14.cpp
index e4f52a3..6118c6a 100644
--- a/src/MapFactoryImpl14.cpp
+++ b/src/MapFactoryImpl14.cpp
@@ -16,7 +16,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_LinProb_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     LinearizedBasis<ProbabilistHermite> basis1d(ProbabilistHermite(opts.basisNorm), opts.basisLB, opts.basisUB);
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
diff --git a/src/MapFactoryImpl17.cpp b/src/MapFactoryImpl17.cpp
index 37f0471..5fbc477 100644
--- a/src/MapFactoryImpl17.cpp
+++ b/src/MapFactoryImpl17.cpp
@@ -16,7 +16,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_LinHF_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     LinearizedBasis<HermiteFunction> basis1d(HermiteFunction(), opts.basisLB, opts.basisUB);
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
diff --git a/src/MapFactoryImpl2.cpp b/src/MapFactoryImpl2.cpp
index 8ecb8bc..09a0439 100644
--- a/src/MapFactoryImpl2.cpp
+++ b/src/MapFactoryImpl2.cpp
@@ -15,7 +15,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_Phys_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     PhysicistHermite basis1d(opts.basisNorm);
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
diff --git a/src/MapFactoryImpl5.cpp b/src/MapFactoryImpl5.cpp
index 6240d9a..eca18c6 100644
--- a/src/MapFactoryImpl5.cpp
+++ b/src/MapFactoryImpl5.cpp
@@ -14,7 +14,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_Prob_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     ProbabilistHermite basis1d(opts.basisNorm);
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
diff --git a/src/MapFactoryImpl8.cpp b/src/MapFactoryImpl8.cpp
index dc61f5d..370cf42 100644
--- a/src/MapFactoryImpl8.cpp
+++ b/src/MapFactoryImpl8.cpp
@@ -14,7 +14,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_HF_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     HermiteFunction basis1d;
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
-- 
2.43.0


From 586895715ffdb4d1293f84051ebae71bd3427aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:00 +0000
Subject: [PATCH 10/47] fix: write the components of a TriangularMap once when
 serializing

save() wrote them twice while load_and_construct() reads them once, so the
moveCoeffs flag was read from the wrong bytes and every object saved after the
map in the same stream was misread.
---
 MParT/TriangularMap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/TriangularMap.h b/MParT/TriangularMap.h
index 6e820eb..39a9e1f 100644
--- a/MParT/TriangularMap.h
+++ b/MParT/TriangularMap.h
@@ -126,7 +126,7 @@ public:
     template<class Archive>
     void save(Archive & ar) const
     {
-        ar(cereal::base_class<ConditionalMapBase<MemorySpace>>(this), comps_);
+        ar(cereal::base_class<ConditionalMapBase<MemorySpace>>(this));
 
         bool moveCoeffs = (this->savedCoeffs.is_allocated() && (this->savedCoeffs.size()>0));
         ar(comps_, moveCoeffs);
-- 
2.43.0


From 6a842b91003cad9aebb2773b6cc3c4e984a3bfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:00 +0000
Subject: [PATCH 11/47] fix: check the size passed to SetCoeffs also when no
 coefficients exist yet

A container then failed an assertion and a component kept an unusable vector.
---
 src/ParameterizedFunctionBase.cpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/ParameterizedFunctionBase.cpp b/src/ParameterizedFunctionBase.cpp
index b3bea3b..9d37543 100644
--- a/src/ParameterizedFunctionBase.cpp
+++ b/src/ParameterizedFunctionBase.cpp
@@ -187,19 +187,16 @@ Eigen::RowMatrixXd ParameterizedFunctionBase<mpart::DeviceSpace>::Gradient(Eigen
 template<typename MemorySpace>
 void ParameterizedFunctionBase<MemorySpace>::SetCoeffs(Kokkos::View<const double*, MemorySpace> coeffs){
 
-    // If coefficients already exist, make sure the sizes match
-    if(this->savedCoeffs.is_allocated()){
-        if(coeffs.size() != numCoeffs){
-            std::stringstream msg;
-            msg << "Error in ParameterizedFunctionBase<MemorySpace>::SetCoeffs.  Expected coefficient vector with size " << numCoeffs << ", but new coefficients have size " << coeffs.size() << ".";
-            throw std::invalid_argument(msg.str());
-        }
-
-        if(this->savedCoeffs.size() != numCoeffs)
-            Kokkos::resize(this->savedCoeffs, numCoeffs);
-    }else{
-
-        this->savedCoeffs = Kokkos::View<double*, MemorySpace>("ParameterizedFunctionBase<MemorySpace> Coefficients", coeffs.size());
+    if(coeffs.size() != numCoeffs){
+        std::stringstream msg;
+        msg << "Error in ParameterizedFunctionBase<MemorySpace>::SetCoeffs.  Expected coefficient vector with size " << numCoeffs << ", but new coefficients have size " << coeffs.size() << ".";
+        throw std::invalid_argument(msg.str());
+    }
+
+    if(!this->savedCoeffs.is_allocated()){
+        this->savedCoeffs = Kokkos::View<double*, MemorySpace>("ParameterizedFunctionBase<MemorySpace> Coefficients", numCoeffs);
+    }else if(this->savedCoeffs.size() != numCoeffs){
+        Kokkos::resize(this->savedCoeffs, numCoeffs);
     }
 
     Kokkos::deep_copy(this->savedCoeffs, coeffs);
-- 
2.43.0


From 915f0d862b071d0e4994630e1ba595a7b8e26b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:01 +0000
Subject: [PATCH 12/47] fix: normalize the derivative of the linear orthogonal
 polynomial

---
 MParT/OrthogonalPolynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/OrthogonalPolynomial.h b/MParT/OrthogonalPolynomial.h
index 0ff3a76..740842d 100644
--- a/MParT/OrthogonalPolynomial.h
+++ b/MParT/OrthogonalPolynomial.h
@@ -197,7 +197,7 @@ public:
         if(order==0){
             return 0.0;
         }else if(order==1){
-            return this->phi1_deriv(x);
+            return normalize_ ? this->phi1_deriv(x) / this->Normalization(order) : this->phi1_deriv(x);
         }else{
             double lag2_val;
             double lag1_val = this->phi0(x);
-- 
2.43.0


From f2519d1dc0a3a8be8110cb1831d761041a34492c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:23 +0000
Subject: [PATCH 13/47] fix: use the nugget in every evaluation and derivative
 of a MonotoneComponent

---
 MParT/MonotoneComponent.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MParT/MonotoneComponent.h b/MParT/MonotoneComponent.h
index 10c3a15..873a2e2 100644
--- a/MParT/MonotoneComponent.h
+++ b/MParT/MonotoneComponent.h
@@ -284,7 +284,7 @@ public:
 
                 // Fill in entries in the cache that are independent of x_d.  By passing DerivativeFlags::None, we are telling the expansion that no derivatives with wrt x_1,...x_{d-1} will be needed.
                 expansion_.FillCache1(cache.data(), pt, DerivativeFlags::None);
-                output(ptInd) = EvaluateSingle(cache.data(), workspace.data(), pt, pt(dim_-1), coeffs, quad_, expansion_);
+                output(ptInd) = EvaluateSingle(cache.data(), workspace.data(), pt, pt(dim_-1), coeffs, quad_, expansion_, nugget_);
             }
         };
 
@@ -520,7 +520,7 @@ public:
                 derivs(ptInd) = expansion_.DiagonalDerivative(cache.data(), coeffs,1);
 
                 // Compute g(df/dx)
-                derivs(ptInd) = PosFuncType::Evaluate(derivs(ptInd));
+                derivs(ptInd) = PosFuncType::Evaluate(derivs(ptInd)) + nugget_;
             }
         };
 
-- 
2.43.0


From 5ade5e8efb52ecb99a1a11fabcaa8eb4bfbe8e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:23 +0000
Subject: [PATCH 14/47] fix: overwrite rather than accumulate into the output
 of DiscreteMixedJacobian

---
 MParT/MonotoneComponent.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MParT/MonotoneComponent.h b/MParT/MonotoneComponent.h
index 873a2e2..5b04912 100644
--- a/MParT/MonotoneComponent.h
+++ b/MParT/MonotoneComponent.h
@@ -967,9 +967,9 @@ public:
                 // Compute \int_0^x g( \partial_D f(x_1,...,x_{D-1},t)) dt as well as the gradient of this term wrt the coefficients of f
                 quad_.Integrate(workspace.data(), integrand, 0, 1, integral.data());
 
-                // Add the Integral to the coefficient gradient
+                // Store the derivative of the integral in the Jacobian
                 for(unsigned int termInd=0; termInd<numTerms; ++termInd)
-                    jacView(termInd) += integral(termInd+1);
+                    jacView(termInd) = integral(termInd+1);
             }
         };
 
-- 
2.43.0


From 19c1fe490c0129b43007a8b3da3ae224889340ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:39 +0000
Subject: [PATCH 15/47] fix: do not read an initial guess from a point without
 rows in MonotoneComponent inverses

---
 MParT/MonotoneComponent.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MParT/MonotoneComponent.h b/MParT/MonotoneComponent.h
index 5b04912..7667ebf 100644
--- a/MParT/MonotoneComponent.h
+++ b/MParT/MonotoneComponent.h
@@ -432,7 +432,8 @@ public:
                 // Compute the inverse
                 Kokkos::View<double*,MemorySpace> workspace(team_member.thread_scratch(1), workspaceSize);
                 auto eval = SingleEvaluator<decltype(pt),decltype(coeffs)>(workspace.data(), cache.data(), pt, coeffs, quad_, expansion_, nugget_);
-                output(ptInd) = RootFinding::InverseSingleBracket<MemorySpace>(ys(ptInd), eval, pt(pt.extent(0)-1), xtol, ytol, info);
+                double xd0 = (pt.extent(0)>0) ? pt(pt.extent(0)-1) : 0.0; // With one-dimensional inputs, xs might not have any rows
+                output(ptInd) = RootFinding::InverseSingleBracket<MemorySpace>(ys(ptInd), eval, xd0, xtol, ytol, info);
             }
         };
 
-- 
2.43.0


From 8a6cf5a1a0a470ddab26d296636d4624df246b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:58 +0000
Subject: [PATCH 16/47] fix: coefficient gradients of an IdentityMap are empty,
 not an assertion failure

---
 src/IdentityMap.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/IdentityMap.cpp b/src/IdentityMap.cpp
index 01c6297..cb19f2b 100644
--- a/src/IdentityMap.cpp
+++ b/src/IdentityMap.cpp
@@ -53,7 +53,7 @@ void IdentityMap<MemorySpace>::CoeffGradImpl(StridedMatrix<const double, MemoryS
                                                StridedMatrix<const double, MemorySpace> const& sens,
                                                StridedMatrix<double, MemorySpace>              output)
 {
-    assert(false);
+    return; // The identity map has no coefficients
 }
 
 template<typename MemorySpace>
@@ -80,7 +80,7 @@ template<typename MemorySpace>
 void IdentityMap<MemorySpace>::LogDeterminantCoeffGradImpl(StridedMatrix<const double, MemorySpace> const& pts, 
                                                              StridedMatrix<double, MemorySpace>              output)
 {
-    assert(false);
+    return; // The identity map has no coefficients
 }
 
 template<typename MemorySpace>
-- 
2.43.0


From e4f35f45d1f0277eb70b72bef51803247fe50ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:58 +0000
Subject: [PATCH 17/47] fix: fill the log determinant input gradient of an
 AffineMap with zeros

---
 src/AffineMap.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/AffineMap.cpp b/src/AffineMap.cpp
index a09e3d7..f25cd8e 100644
--- a/src/AffineMap.cpp
+++ b/src/AffineMap.cpp
@@ -175,7 +175,11 @@ template<typename MemorySpace>
 void AffineMap<MemorySpace>::LogDeterminantInputGradImpl(StridedMatrix<const double, MemorySpace> const& pts,
                                                          StridedMatrix<double, MemorySpace>              output)
 {
-    return;
+    // The log determinant of an affine map does not depend on the input
+    Kokkos::MDRangePolicy<Kokkos::Rank<2>, typename MemoryToExecution<MemorySpace>::Space> policy({{0, 0}}, {{int(output.extent(0)), int(output.extent(1))}});
+    Kokkos::parallel_for(policy, KOKKOS_CLASS_LAMBDA(const int& i, const int& j) {
+        output(i,j) = 0.0;
+    });
 }
 
 template<typename MemorySpace>
-- 
2.43.0


From d44955f61ee80842cd27860f151e91f98b77fbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:58 +0000
Subject: [PATCH 18/47] fix: support any output layout in the input gradients
 of a SummarizedMap

---
 src/SummarizedMap.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/SummarizedMap.cpp b/src/SummarizedMap.cpp
index 05bf632..28bf372 100644
--- a/src/SummarizedMap.cpp
+++ b/src/SummarizedMap.cpp
@@ -77,13 +77,13 @@ void SummarizedMap<MemorySpace>::SummarizePts(StridedMatrix<const double, Memory
 
 
     // Copy summarized pts
-    Kokkos::View<double**, MemorySpace> outputSummary = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->outputDim)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputSummary = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->outputDim)), Kokkos::ALL());
 
     // Evaluate summary function
     sumFunc_->EvaluateImpl(ptsToSummarize, outputSummary);
 
     // Copy non summarized pts
-    Kokkos::View<double**, MemorySpace> outputAfterSummary = Kokkos::subview(output, std::make_pair(int(sumFunc_->outputDim),int(sumFunc_->outputDim+1)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputAfterSummary = Kokkos::subview(output, std::make_pair(int(sumFunc_->outputDim),int(sumFunc_->outputDim+1)), Kokkos::ALL());
     Kokkos::deep_copy(outputAfterSummary, ptsAfterSummary);
 
 }
@@ -157,17 +157,17 @@ void SummarizedMap<MemorySpace>::GradientImpl(StridedMatrix<const double, Memory
     comp_->GradientImpl(summarizedPts, sens, outputForSummaryAndX2);
 
     // Split outputForSummaryAndX2 into summary and x2 parts
-    Kokkos::View<double**, MemorySpace> outputForSummary = Kokkos::subview(outputForSummaryAndX2, std::make_pair(0,int(sumFunc_->outputDim)), Kokkos::ALL());
-    Kokkos::View<double**, MemorySpace> outputForX2 = Kokkos::subview(outputForSummaryAndX2, std::make_pair(int(sumFunc_->outputDim),int(sumFunc_->outputDim+1)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputForSummary = Kokkos::subview(outputForSummaryAndX2, std::make_pair(0,int(sumFunc_->outputDim)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputForX2 = Kokkos::subview(outputForSummaryAndX2, std::make_pair(int(sumFunc_->outputDim),int(sumFunc_->outputDim+1)), Kokkos::ALL());
 
     // GradientImpl of summary using outputForSummary as the sens. vectors (from chain-rule)
     StridedMatrix<const double, MemorySpace>  x1 = Kokkos::subview(pts, std::make_pair(0,int(sumFunc_->inputDim)), Kokkos::ALL());
 
     // Copy results over to the output
-    Kokkos::View<double**, MemorySpace> outputSubX1 = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->inputDim)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputSubX1 = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->inputDim)), Kokkos::ALL());
     sumFunc_->GradientImpl(x1, outputForSummary, outputSubX1);
 
-    Kokkos::View<double**, MemorySpace> outputSubX2 = Kokkos::subview(output, std::make_pair(int(sumFunc_->inputDim),int(sumFunc_->inputDim+1)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputSubX2 = Kokkos::subview(output, std::make_pair(int(sumFunc_->inputDim),int(sumFunc_->inputDim+1)), Kokkos::ALL());
     Kokkos::deep_copy(outputSubX2, outputForX2);
 
 }
@@ -218,8 +218,8 @@ void SummarizedMap<MemorySpace>::LogDeterminantInputGradImpl(StridedMatrix<const
     comp_->LogDeterminantInputGradImpl(summarizedPts, outputForSummaryAndX2);
 
     // Split outputForSummaryAndX2 into summary and x2 parts
-    Kokkos::View<double**, MemorySpace> outputForSummary = Kokkos::subview(outputForSummaryAndX2, std::make_pair(0,int(sumFunc_->outputDim)), Kokkos::ALL());
-    Kokkos::View<double**, MemorySpace> outputForX2 = Kokkos::subview(outputForSummaryAndX2, std::make_pair(int(sumFunc_->outputDim),int(sumFunc_->outputDim+1)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputForSummary = Kokkos::subview(outputForSummaryAndX2, std::make_pair(0,int(sumFunc_->outputDim)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputForX2 = Kokkos::subview(outputForSummaryAndX2, std::make_pair(int(sumFunc_->outputDim),int(sumFunc_->outputDim+1)), Kokkos::ALL());
 
     // Create a view for the gradient of comp_ wrt x_1
     Kokkos::View<double**, MemorySpace> outputForX1("outputForX1", sumFunc_->inputDim, pts.extent(1));
@@ -229,10 +229,10 @@ void SummarizedMap<MemorySpace>::LogDeterminantInputGradImpl(StridedMatrix<const
     sumFunc_->GradientImpl(x1, outputForSummary, outputForX1);
 
     // Copy results over to the output
-    Kokkos::View<double**, MemorySpace> outputSubX1 = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->inputDim)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputSubX1 = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->inputDim)), Kokkos::ALL());
     Kokkos::deep_copy(outputSubX1, outputForX1);
 
-    Kokkos::View<double**, MemorySpace> outputSubX2 = Kokkos::subview(output, std::make_pair(int(sumFunc_->inputDim),int(sumFunc_->inputDim+1)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputSubX2 = Kokkos::subview(output, std::make_pair(int(sumFunc_->inputDim),int(sumFunc_->inputDim+1)), Kokkos::ALL());
     Kokkos::deep_copy(outputSubX2, outputForX2);
 }
 
-- 
2.43.0


From 4a73d010e090172a3142cb1ff4827abb7b178353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:56 +0000
Subject: [PATCH 19/47] fix: second derivative of a single Hermite function

---
 MParT/HermiteFunction.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/HermiteFunction.h b/MParT/HermiteFunction.h
index 48ed224..4a3ded5 100644
--- a/MParT/HermiteFunction.h
+++ b/MParT/HermiteFunction.h
@@ -137,7 +137,7 @@ public:
         if(order<2){
             return 0;
         }else{
-            return -(2.0*order+1.0-x*x)*Evaluate(order-2, x);
+            return -(2.0*(order-2)+1.0-x*x)*Evaluate(order, x);
         }
     }
 
-- 
2.43.0


From 1c6452e432667745d333edbe8d0c81b813e8c55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:27 +0000
Subject: [PATCH 20/47] fix: accept empty batches of points in maps and
 expansions

---
 MParT/Utilities/KokkosHelpers.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MParT/Utilities/KokkosHelpers.h b/MParT/Utilities/KokkosHelpers.h
index 402f43f..62af4fc 100644
--- a/MParT/Utilities/KokkosHelpers.h
+++ b/MParT/Utilities/KokkosHelpers.h
@@ -19,7 +19,8 @@ namespace mpart{
         Kokkos::TeamPolicy<ExecutionSpace> policy;
         policy.set_scratch_size(1,Kokkos::PerTeam(0), Kokkos::PerThread(cacheBytes));
             
-        const unsigned int threadsPerTeam = std::min<unsigned int>(numPts, policy.team_size_recommended(functor, Kokkos::ParallelForTag()));
+        // At least one thread, also when there are no points
+        const unsigned int threadsPerTeam = std::max<unsigned int>(1, std::min<unsigned int>(numPts, policy.team_size_recommended(functor, Kokkos::ParallelForTag())));
         const unsigned int numTeams = std::ceil( double(numPts) / threadsPerTeam );
             
         policy = Kokkos::TeamPolicy<ExecutionSpace>(numTeams, threadsPerTeam).set_scratch_size(1,Kokkos::PerTeam(0), Kokkos::PerThread(cacheBytes));
-- 
2.43.0


From 60cf06cfa10051ccfd84e3c2c1d5e77e6882cb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:30 +0000
Subject: [PATCH 21/47] fix: invert AffineMap at a single point with row-major
 output

---
 src/AffineMap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AffineMap.cpp b/src/AffineMap.cpp
index f25cd8e..4a6ce57 100644
--- a/src/AffineMap.cpp
+++ b/src/AffineMap.cpp
@@ -75,7 +75,7 @@ void AffineMap<MemorySpace>::InverseImpl(StridedMatrix<const double, MemorySpace
     bool copyOut = false;
     StridedMatrix<double,MemorySpace> outLeft;
     if(A_.extent(0)>0){
-        if(output.stride_0()==1){
+        if((output.stride_0()==1)&&(output.stride_1()>=output.extent(0))){
             outLeft = output;
         }else{
             outLeft = Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace>("OutLeft", output.extent(0), output.extent(1));
-- 
2.43.0


From 709d5769fd01b6a06941c0df925969f673d626ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:55 +0000
Subject: [PATCH 22/47] fix: compute factorials in floating point so that
 normalizations do not overflow

---
 MParT/Utilities/MathFunctions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MParT/Utilities/MathFunctions.h b/MParT/Utilities/MathFunctions.h
index 16bd8cf..45be87b 100644
--- a/MParT/Utilities/MathFunctions.h
+++ b/MParT/Utilities/MathFunctions.h
@@ -7,9 +7,9 @@
 namespace mpart{
 
     /** Computes the factorial d! */
-    KOKKOS_INLINE_FUNCTION unsigned int Factorial(unsigned int d)
+    KOKKOS_INLINE_FUNCTION double Factorial(unsigned int d)
     {
-        unsigned int out = 1;
+        double out = 1.0;
         for(unsigned int i=2; i<=d; ++i)
             out *= i;
         return out;
-- 
2.43.0


From 0e94b61c0e83f6e71431a79bd593cd3ced418437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:55 +0000
Subject: [PATCH 23/47] fix: integrate over reversed intervals with the
 Clenshaw-Curtis rule

---
 MParT/Quadrature.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/Quadrature.h b/MParT/Quadrature.h
index 81b46fb..5ae399e 100644
--- a/MParT/Quadrature.h
+++ b/MParT/Quadrature.h
@@ -285,7 +285,7 @@ public:
 
         // For sufficiently small interval, use the midpoint rule
         double midpoint_tol = 15.0*std::numeric_limits<double>::epsilon();
-        if((ub-lb)<midpoint_tol){
+        if(fabs(ub-lb)<midpoint_tol){
 
             f(0.5*(ub+lb), res);
             for(unsigned int i=0; i<this->fdim_; ++i)
-- 
2.43.0


From b2fb04016e845c3938c0e0a1f9ad36c026584ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:55 +0000
Subject: [PATCH 24/47] fix: keep the softplus bijector positive for large
 negative inputs

---
 MParT/PositiveBijectors.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/PositiveBijectors.h b/MParT/PositiveBijectors.h
index 51fd713..2a1fae6 100644
--- a/MParT/PositiveBijectors.h
+++ b/MParT/PositiveBijectors.h
@@ -14,7 +14,7 @@ public:
 
     KOKKOS_INLINE_FUNCTION static double Evaluate(double x){
         //stable implementation of std::log(1.0 + std::exp(x)) for large values
-        return std::log(1.0 + std::exp(-1.0 * std::abs(x))) + std::fmax(x,0.0);
+        return std::log1p(std::exp(-1.0 * std::abs(x))) + std::fmax(x,0.0);
     }
 
     KOKKOS_INLINE_FUNCTION static double Derivative(double x){
-- 
2.43.0


From 4d120a4c7e5e7966faa2ee0a0265e5387b5f5ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:55 +0000
Subject: [PATCH 25/47] fix: report exceeding the iteration limit of the
 bracketed root search

---
 MParT/Utilities/RootFinding.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/Utilities/RootFinding.h b/MParT/Utilities/RootFinding.h
index 384d755..ee4de85 100644
--- a/MParT/Utilities/RootFinding.h
+++ b/MParT/Utilities/RootFinding.h
@@ -160,7 +160,7 @@ KOKKOS_INLINE_FUNCTION double InverseSingleBracket(double yd, FunctorType f, dou
     };
 
 
-    if(it>maxIts)
+    if(it>=maxIts)
         info = -1;
 
     return 0.5*(xub+xlb);
-- 
2.43.0


From d4a9d3af43e8ffce59496c141a0ce2044100b4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 26/47] fix: restore the previous softplus evaluation (its
 repair stalls adaptive training)

---
 MParT/PositiveBijectors.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/PositiveBijectors.h b/MParT/PositiveBijectors.h
index 2a1fae6..51fd713 100644
--- a/MParT/PositiveBijectors.h
+++ b/MParT/PositiveBijectors.h
@@ -14,7 +14,7 @@ public:
 
     KOKKOS_INLINE_FUNCTION static double Evaluate(double x){
         //stable implementation of std::log(1.0 + std::exp(x)) for large values
-        return std::log1p(std::exp(-1.0 * std::abs(x))) + std::fmax(x,0.0);
+        return std::log(1.0 + std::exp(-1.0 * std::abs(x))) + std::fmax(x,0.0);
     }
 
     KOKKOS_INLINE_FUNCTION static double Derivative(double x){
-- 
2.43.0


From 333aa97de3f181eba433231f1356acdbdff2f88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 27/47] fix: make TransportDistributionFactory.h compile

---
 MParT/Distributions/TransportDistributionFactory.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MParT/Distributions/TransportDistributionFactory.h b/MParT/Distributions/TransportDistributionFactory.h
index 098e47d..191ede9 100644
--- a/MParT/Distributions/TransportDistributionFactory.h
+++ b/MParT/Distributions/TransportDistributionFactory.h
@@ -10,9 +10,9 @@
 namespace mpart {
 
     template<typename MemorySpace>
-    using PullbackDistribution = Distribution<PullbackDensity<MemorySpace>, PullbackSampler<MemorySpace>>;
+    using PullbackDistribution = Distribution<MemorySpace>;
     template<typename MemorySpace>
-    using PushforwardDistribution = Distribution<PushforwardDensity<MemorySpace>, PushforwardSampler<MemorySpace>>;
+    using PushforwardDistribution = Distribution<MemorySpace>;
 
     template<typename MemorySpace>
     std::shared_ptr<PullbackDistribution<MemorySpace>> CreatePullback(std::shared_ptr<ConditionalMapBase<MemorySpace>> map, std::shared_ptr<Distribution<MemorySpace>> reference) {
-- 
2.43.0


From 119b7da31cb03e15382a3bdc5eb24ab806c6eb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 28/47] fix: Eigen overload of
 PullbackDensity::LogDensityCoeffGrad returned the input gradient

---
 src/Distributions/PullbackDensity.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Distributions/PullbackDensity.cpp b/src/Distributions/PullbackDensity.cpp
index bde74a7..90926e0 100644
--- a/src/Distributions/PullbackDensity.cpp
+++ b/src/Distributions/PullbackDensity.cpp
@@ -46,11 +46,11 @@ StridedMatrix<double, MemorySpace> PullbackDensity<MemorySpace>::LogDensityCoeff
 template<>
 Eigen::RowMatrixXd PullbackDensity<Kokkos::HostSpace>::LogDensityCoeffGrad(Eigen::Ref<const Eigen::RowMatrixXd> const &pts) {
     // Allocate output
-    Eigen::RowMatrixXd output(pts.rows(), pts.cols());
+    Eigen::RowMatrixXd output(map_->numCoeffs, pts.cols());
     StridedMatrix<const double, Kokkos::HostSpace> ptsView = ConstRowMatToKokkos<double, Kokkos::HostSpace>(pts);
     StridedMatrix<double, Kokkos::HostSpace> outView = MatToKokkos<double, Kokkos::HostSpace>(output);
     // Call the LogDensity function
-    LogDensityInputGradImpl(ptsView, outView);
+    LogDensityCoeffGradImpl(ptsView, outView);
     return output;
 }
 
-- 
2.43.0


From 3a8d300cda30dd271fb8c2f460a11c631ca2a459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 29/47] fix: reads past the list of new terms in adaptive
 training

---
 src/TrainMapAdaptive.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/TrainMapAdaptive.cpp b/src/TrainMapAdaptive.cpp
index 7091db5..b8dc419 100644
--- a/src/TrainMapAdaptive.cpp
+++ b/src/TrainMapAdaptive.cpp
@@ -150,7 +150,7 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
             int oldIdx = 0;
             int rmIdx = 0;
             for(int j = 0; j < comp_i->numCoeffs; j++) {
-                if(j == multis_rm[i][rmIdx]){ // Fill new coeff with zero
+                if(rmIdx < multis_rm[i].size() && j == multis_rm[i][rmIdx]){ // Fill new coeff with zero
                     coeffsFrontier(j) = 0.;
                     rmIdx++;
                 }
@@ -173,7 +173,7 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
                 int rmIdx = 0;
                 for(int i = 0; i < mset_tmp[output].Size(); i++) {
                     std::cout << "gradCoeff(" << coeffIdx << ")=" << gradCoeff(coeffIdx) << ", midx=[" << mset_tmp[output][i] << "]";
-                    if(i == multis_rm[output][rmIdx]) {
+                    if(rmIdx < multis_rm[output].size() && i == multis_rm[output][rmIdx]) {
                         std::cout << " rm!";
                         rmIdx++;
                     }
-- 
2.43.0


From 009fcfc2e79b2b8e02f25ac7b9bab516a4a3e4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 30/47] fix: adaptive training keeps the initial terms when no
 expansion improves on them

---
 src/TrainMapAdaptive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TrainMapAdaptive.cpp b/src/TrainMapAdaptive.cpp
index b8dc419..d439e63 100644
--- a/src/TrainMapAdaptive.cpp
+++ b/src/TrainMapAdaptive.cpp
@@ -88,7 +88,7 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
         // Initialize the temporary mset vectors
         MultiIndexSet mset_tmp_j = MultiIndexSet::CreateTotalOrder(inputDim-outputDim+j+1,0);
         mset_tmp.push_back(mset_tmp_j);
-        mset_best.push_back(mset_tmp_j);
+        mset_best.push_back(mset_j);
 
         // Index global constants
         currMsetDim++;
-- 
2.43.0


From c266a5d70991282dd65df43101ee0ed30850edd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 31/47] fix: stop adaptive training when no term can be added

---
 src/TrainMapAdaptive.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/TrainMapAdaptive.cpp b/src/TrainMapAdaptive.cpp
index d439e63..34da744 100644
--- a/src/TrainMapAdaptive.cpp
+++ b/src/TrainMapAdaptive.cpp
@@ -3,10 +3,10 @@
 
 using namespace mpart;
 
-void findMaxGrad(StridedVector<double, Kokkos::HostSpace> const &gradCoeff, std::vector<std::vector<unsigned int>> const &multis_rm,
+bool findMaxGrad(StridedVector<double, Kokkos::HostSpace> const &gradCoeff, std::vector<std::vector<unsigned int>> const &multis_rm,
     std::vector<MultiIndexSet> const &msets, unsigned int &maxIdx, unsigned int &maxIdxBlock) {
     unsigned int outputDim = multis_rm.size();
-    double maxVal = 0.;
+    double maxVal = -1.;
     unsigned int blockStart = 0;
     for(int output = 0; output < outputDim; output++) {
         for(int i = 0; i < multis_rm[output].size(); i++) {
@@ -20,6 +20,7 @@ void findMaxGrad(StridedVector<double, Kokkos::HostSpace> const &gradCoeff, std:
         }
         blockStart += msets[output].Size();
     }
+    return maxVal >= 0.;
 }
 
 void maxDegreeRMFilter(std::vector<MultiIndexSet> const &msets, MultiIndex const &maxDegrees,
@@ -190,7 +191,9 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
 
         // Find the largest gradient value, calculate which output and multiindex it corresponds to
         unsigned int maxIdx, maxIdxBlock;
-        findMaxGrad(gradCoeff, multis_rm, mset_tmp, maxIdx, maxIdxBlock);
+        if(!findMaxGrad(gradCoeff, multis_rm, mset_tmp, maxIdx, maxIdxBlock)) {
+            break; // No term is left to add
+        }
 
         // Add the multiindex with largest gradient to the map
         MultiIndex addedMulti = mset_tmp[maxIdxBlock][maxIdx];
-- 
2.43.0


From d906bd5558b079e52dd6918593739a4e1a0fdbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 32/47] fix: write Gaussian log densities to outputs with any
 stride

---
 src/Distributions/GaussianSamplerDensity.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Distributions/GaussianSamplerDensity.cpp b/src/Distributions/GaussianSamplerDensity.cpp
index a4a725e..e53a96f 100644
--- a/src/Distributions/GaussianSamplerDensity.cpp
+++ b/src/Distributions/GaussianSamplerDensity.cpp
@@ -44,10 +44,12 @@ void GaussianSamplerDensity<MemorySpace>::LogDensityImpl(StridedMatrix<const dou
         covChol_.solveInPlaceL(diff);
     }
 
+    // The reduction needs contiguous memory, which output might not have
+    Kokkos::View<double*, MemorySpace> sqNorm ("scaled squared norms", N);
     ReduceDim<ReduceDimMap::norm,MemorySpace,0> rr(diff, -0.5);
-    Kokkos::parallel_reduce(M, rr, &output(0));
+    Kokkos::parallel_reduce(M, rr, sqNorm.data());
     Kokkos::parallel_for( "log terms", N, KOKKOS_LAMBDA (const int& j) {
-        output(j) -= 0.5*( M*logtau_ + logDetCov_ );
+        output(j) = sqNorm(j) - 0.5*( M*logtau_ + logDetCov_ );
     });
 }
 
-- 
2.43.0


From 0a3ffb2b8841564e37d8b020598809f7729117f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 33/47] fix: Gaussian distributions with a covariance accept
 and fill matrices of any layout

---
 MParT/Distributions/GaussianSamplerDensity.h |  5 ++++-
 src/Distributions/GaussianSamplerDensity.cpp | 12 +++++-------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/MParT/Distributions/GaussianSamplerDensity.h b/MParT/Distributions/GaussianSamplerDensity.h
index bad4a8f..184216f 100644
--- a/MParT/Distributions/GaussianSamplerDensity.h
+++ b/MParT/Distributions/GaussianSamplerDensity.h
@@ -74,7 +74,10 @@ class GaussianSamplerDensity: public SampleGenerator<MemorySpace>, public Densit
 #endif // KOKKOS_VERSION
 
     void Factorize(StridedMatrix<double, MemorySpace> Cov) {
-        covChol_.compute(Cov);
+        // The factorization needs this layout, whatever the layout of the given matrix
+        Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace> covLeft ("covariance", Cov.extent(0), Cov.extent(1));
+        Kokkos::deep_copy(covLeft, Cov);
+        covChol_.compute(covLeft);
         logDetCov_ = std::log(covChol_.determinant());
     }
 
diff --git a/src/Distributions/GaussianSamplerDensity.cpp b/src/Distributions/GaussianSamplerDensity.cpp
index e53a96f..0801872 100644
--- a/src/Distributions/GaussianSamplerDensity.cpp
+++ b/src/Distributions/GaussianSamplerDensity.cpp
@@ -75,12 +75,10 @@ void GaussianSamplerDensity<MemorySpace>::LogDensityInputGradImpl(StridedMatrix<
     }
 
     if(!idCov_) {
-        covChol_.solveInPlace(output);
+        Kokkos::deep_copy(output, covChol_.solve(output));
     }
 }
 
-
-// Currently this requires that output be a LayoutLeft view
 template<typename MemorySpace>
 void GaussianSamplerDensity<MemorySpace>::SampleImpl(StridedMatrix<double, MemorySpace> output_) {
     // Sample from the distribution
@@ -112,8 +110,8 @@ void GaussianSamplerDensity<MemorySpace>::SampleImpl(StridedMatrix<double, Memor
     }
     // Otherwise, we assume dense covariance
     else {
-        // Enforce that the output is the correct layout!
-        Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace> output = output_;
+        // The linear algebra needs this layout, whatever the layout of the output
+        Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace> output ("normal samples", M, N);
         // Sample from the standard normal
         Kokkos::parallel_for(policy, KOKKOS_LAMBDA(const int j, const int i) {
             GeneratorType rgen = rand_pool.get_state();
@@ -124,11 +122,11 @@ void GaussianSamplerDensity<MemorySpace>::SampleImpl(StridedMatrix<double, Memor
         auto mul = covChol_.multiplyL(output);
         // Add the mean (if nonzero)
         if(mean_.extent(0) == 0){
-            Kokkos::deep_copy(output, mul);
+            Kokkos::deep_copy(output_, mul);
         }
         else {
             Kokkos::parallel_for(policy, KOKKOS_LAMBDA(const int j, const int i) {
-                output(i,j) = mul(i,j) + mean_(i);
+                output_(i,j) = mul(i,j) + mean_(i);
             });
         }
     }
-- 
2.43.0


From 8fb09197e8702cc408dfd7adf0fc8700fab6a042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 34/47] fix: write objective gradients to outputs with any
 stride

---
 src/MapObjective.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/MapObjective.cpp b/src/MapObjective.cpp
index d11123d..223e64e 100644
--- a/src/MapObjective.cpp
+++ b/src/MapObjective.cpp
@@ -59,8 +59,11 @@ double KLObjective<MemorySpace>::ObjectivePlusCoeffGradImpl(StridedMatrix<const
     Kokkos::parallel_reduce ("Sum Negative Log Likelihood", N_samps, KOKKOS_LAMBDA (const int i, double &sum) {
         sum -= densityX(i);
     }, sumDensity);
+    // The reduction needs contiguous memory, which grad might not have
+    Kokkos::View<double*, MemorySpace> meanGrad ("mean gradient", map->numCoeffs);
     ReduceDim<ReduceDimMap::sum,MemorySpace> rc(densityGradX, -1.0/((double) N_samps));
-    Kokkos::parallel_reduce(N_samps, rc, &grad(0));
+    Kokkos::parallel_reduce(N_samps, rc, meanGrad.data());
+    Kokkos::deep_copy(grad, meanGrad);
     return sumDensity/N_samps;
 }
 
@@ -81,8 +84,11 @@ void KLObjective<MemorySpace>::CoeffGradImpl(StridedMatrix<const double, MemoryS
     unsigned int N_samps = data.extent(1);
     PullbackDensity<MemorySpace> pullback {map, density_};
     StridedMatrix<double, MemorySpace> densityGradX = pullback.LogDensityCoeffGrad(data);
+    // The reduction needs contiguous memory, which grad might not have
+    Kokkos::View<double*, MemorySpace> meanGrad ("mean gradient", map->numCoeffs);
     ReduceDim<ReduceDimMap::sum,MemorySpace> rc(densityGradX, -1.0/((double) N_samps));
-    Kokkos::parallel_reduce(N_samps, rc, &grad(0));
+    Kokkos::parallel_reduce(N_samps, rc, meanGrad.data());
+    Kokkos::deep_copy(grad, meanGrad);
 }
 
 // Explicit template instantiation
-- 
2.43.0


From e225b5c0bd201f4579cbbf30f8affbf8220649bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 35/47] fix: do not write a gradient when the optimizer asks
 for none

---
 src/MapObjective.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/MapObjective.cpp b/src/MapObjective.cpp
index 223e64e..762aaef 100644
--- a/src/MapObjective.cpp
+++ b/src/MapObjective.cpp
@@ -5,8 +5,11 @@ template<typename MemorySpace>
 double MapObjective<MemorySpace>::operator()(unsigned int n, const double* coeffs, double* grad, std::shared_ptr<ConditionalMapBase<MemorySpace>> map) {
 
     StridedVector<const double, MemorySpace> coeffView = ToConstKokkos<double,MemorySpace>(coeffs, n);
-    StridedVector<double, MemorySpace> gradView = ToKokkos<double,MemorySpace>(grad, n);
     map->SetCoeffs(coeffView);
+    if(grad == nullptr) { // Derivative-free optimizers do not ask for a gradient
+        return ObjectiveImpl(train_, map);
+    }
+    StridedVector<double, MemorySpace> gradView = ToKokkos<double,MemorySpace>(grad, n);
     return ObjectivePlusCoeffGradImpl(train_, gradView, map);
 }
 
-- 
2.43.0


From ab7b9bfc405908453eaea55967253b847111c7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 36/47] fix: Gaussian log densities when the determinant of the
 covariance leaves the range of doubles

---
 MParT/Distributions/GaussianSamplerDensity.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/MParT/Distributions/GaussianSamplerDensity.h b/MParT/Distributions/GaussianSamplerDensity.h
index 184216f..33fabff 100644
--- a/MParT/Distributions/GaussianSamplerDensity.h
+++ b/MParT/Distributions/GaussianSamplerDensity.h
@@ -78,7 +78,13 @@ class GaussianSamplerDensity: public SampleGenerator<MemorySpace>, public Densit
         Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace> covLeft ("covariance", Cov.extent(0), Cov.extent(1));
         Kokkos::deep_copy(covLeft, Cov);
         covChol_.compute(covLeft);
-        logDetCov_ = std::log(covChol_.determinant());
+        // Sum logarithms, because the determinant itself can underflow or overflow
+        unsigned int n = covLeft.extent(0);
+        Kokkos::View<double**, Kokkos::LayoutLeft, Kokkos::HostSpace> eye ("identity", n, n);
+        for(unsigned int i=0; i<n; ++i) eye(i,i) = 1.;
+        auto chol = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), covChol_.multiplyL(Kokkos::create_mirror_view_and_copy(MemorySpace(), eye)));
+        logDetCov_ = 0.;
+        for(unsigned int i=0; i<n; ++i) logDetCov_ += 2*std::log(chol(i,i));
     }
 
     private:
-- 
2.43.0


From 9569dbf1e8a8925d5810f8bd9e9a7430276f60ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:34 +0000
Subject: [PATCH 37/47] fix: log determinants of affine maps when the
 determinant leaves the range of doubles

---
 MParT/Utilities/LinearAlgebra.h |  3 +++
 src/AffineMap.cpp               |  2 +-
 src/Utilities/LinearAlgebra.cpp | 19 +++++++++++++++++++
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/MParT/Utilities/LinearAlgebra.h b/MParT/Utilities/LinearAlgebra.h
index 9f549e3..bc1d50e 100644
--- a/MParT/Utilities/LinearAlgebra.h
+++ b/MParT/Utilities/LinearAlgebra.h
@@ -304,6 +304,9 @@ public:
     /** Returns the determinant of the matrix A based on its LU factorization. */
     double determinant() const;
 
+    /** Returns the logarithm of the absolute determinant, also when the determinant itself would underflow or overflow. */
+    double logAbsDeterminant() const;
+
 private:
 
     bool isComputed;
diff --git a/src/AffineMap.cpp b/src/AffineMap.cpp
index 4a6ce57..6d01e0b 100644
--- a/src/AffineMap.cpp
+++ b/src/AffineMap.cpp
@@ -48,7 +48,7 @@ void AffineMap<MemorySpace>::Factorize(){
     }else{
         luSolver_.compute(A_);
     }
-    logDet_ = log(abs(luSolver_.determinant()));
+    logDet_ = luSolver_.logAbsDeterminant();
 }
 
 
diff --git a/src/Utilities/LinearAlgebra.cpp b/src/Utilities/LinearAlgebra.cpp
index 157cf9a..762e346 100644
--- a/src/Utilities/LinearAlgebra.cpp
+++ b/src/Utilities/LinearAlgebra.cpp
@@ -73,6 +73,13 @@ double PartialPivLU<Kokkos::HostSpace>::determinant() const
     return luSolver_->determinant();
 }
 
+template<>
+double PartialPivLU<Kokkos::HostSpace>::logAbsDeterminant() const
+{
+    assert(isComputed);
+    return luSolver_->matrixLU().diagonal().array().abs().log().sum();
+}
+
 template<>
 void Cholesky<Kokkos::HostSpace>::compute(Kokkos::View<const double**,Kokkos::LayoutLeft,Kokkos::HostSpace> A)
 {
@@ -302,6 +309,18 @@ double PartialPivLU<mpart::DeviceSpace>::determinant() const
     return det;
 }
 
+template<>
+double PartialPivLU<mpart::DeviceSpace>::logAbsDeterminant() const
+{
+    assert(isComputed);
+    double logDet = 0.0;
+    Kokkos::parallel_reduce(LU_.extent(0), KOKKOS_CLASS_LAMBDA (const int& i, double& lsum) {
+        lsum += log(fabs(LU_(i,i)));
+    },logDet);
+
+    return logDet;
+}
+
 template<>
 void Cholesky<mpart::DeviceSpace>::compute(Kokkos::View<const double**,Kokkos::LayoutLeft,mpart::DeviceSpace> A)
 {
-- 
2.43.0


From 18188e3e631af8d31a9cefe69759d5b5d3515173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:01 +0000
Subject: [PATCH 38/47] fix: ConstRowMatToKokkos and ConstColMatToKokkos
 ignored the outer stride of blocks

---
 MParT/Utilities/ArrayConversions.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/MParT/Utilities/ArrayConversions.h b/MParT/Utilities/ArrayConversions.h
index 307196c..b2fbcaa 100644
--- a/MParT/Utilities/ArrayConversions.h
+++ b/MParT/Utilities/ArrayConversions.h
@@ -428,16 +428,17 @@ namespace mpart{
     }
 
     template<typename ScalarType, typename MemorySpace = Kokkos::HostSpace>
-    inline Kokkos::View<const ScalarType**, Kokkos::LayoutRight, MemorySpace> ConstRowMatToKokkos(Eigen::Ref<const Eigen::Matrix<ScalarType,Eigen::Dynamic,Eigen::Dynamic,Eigen::RowMajor>, 0, Eigen::Stride<Eigen::Dynamic, 1>> const& ref)
+    inline StridedMatrix<const ScalarType, MemorySpace> ConstRowMatToKokkos(Eigen::Ref<const Eigen::Matrix<ScalarType,Eigen::Dynamic,Eigen::Dynamic,Eigen::RowMajor>, 0, Eigen::Stride<Eigen::Dynamic, 1>> const& ref)
     {
-        Kokkos::LayoutStride strides(ref.rows(), ref.innerStride(), ref.cols(), ref.outerStride());
-        return Kokkos::View<const ScalarType**, Kokkos::LayoutRight, MemorySpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>> (ref.data(), ref.rows(), ref.cols());
+        Kokkos::LayoutStride strides(ref.rows(), ref.outerStride(), ref.cols(), ref.innerStride());
+        return Kokkos::View<const ScalarType**, Kokkos::LayoutStride, MemorySpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>> (ref.data(), strides);
     }
 
     template<typename ScalarType, typename MemorySpace = Kokkos::HostSpace>
-    inline Kokkos::View<const ScalarType**, Kokkos::LayoutLeft, MemorySpace> ConstColMatToKokkos(Eigen::Ref<const Eigen::Matrix<ScalarType,Eigen::Dynamic,Eigen::Dynamic,Eigen::ColMajor>, 0, Eigen::Stride<Eigen::Dynamic, 1>> const& ref)
+    inline StridedMatrix<const ScalarType, MemorySpace> ConstColMatToKokkos(Eigen::Ref<const Eigen::Matrix<ScalarType,Eigen::Dynamic,Eigen::Dynamic,Eigen::ColMajor>, 0, Eigen::Stride<Eigen::Dynamic, 1>> const& ref)
     {
-        return Kokkos::View<const ScalarType**, Kokkos::LayoutLeft, MemorySpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>> (ref.data(), ref.rows(), ref.cols());
+        Kokkos::LayoutStride strides(ref.rows(), ref.innerStride(), ref.cols(), ref.outerStride());
+        return Kokkos::View<const ScalarType**, Kokkos::LayoutStride, MemorySpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>> (ref.data(), strides);
     }
 
     /** @brief Converts a 1d Eigen::Ref of a vector to an unmanaged Kokkos view.
-- 
2.43.0


From d275d9d7df8f06ca58826a4c3c7379722493dc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:36 +0000
Subject: [PATCH 39/47] fix: dgemm read its uninitialized output when beta was
 zero

---
 src/Utilities/LinearAlgebra.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/Utilities/LinearAlgebra.cpp b/src/Utilities/LinearAlgebra.cpp
index 762e346..4afa743 100644
--- a/src/Utilities/LinearAlgebra.cpp
+++ b/src/Utilities/LinearAlgebra.cpp
@@ -18,17 +18,22 @@ void mpart::dgemm(double                                     alpha,
     auto eigB = ConstKokkosToMat<double>(B.view);
     auto eigA = ConstKokkosToMat<double>(A.view);
 
+    // As in BLAS, C may be uninitialized (and contain NaNs) if beta is zero
+    Eigen::MatrixXd scaledC = Eigen::MatrixXd::Zero(eigC.rows(), eigC.cols());
+    if(beta != 0.0)
+        scaledC = beta*eigC;
+
     if(A.isTransposed){
         if(B.isTransposed){
-            eigC = (beta*eigC + alpha* eigA.transpose() * eigB.transpose() ).eval();
+            eigC = (scaledC + alpha* eigA.transpose() * eigB.transpose() ).eval();
         }else{
-            eigC = (beta*eigC + alpha* eigA.transpose() * eigB ).eval();
+            eigC = (scaledC + alpha* eigA.transpose() * eigB ).eval();
         }
     }else{
         if(B.isTransposed){
-            eigC = (beta*eigC + alpha* eigA * eigB.transpose() ).eval();
+            eigC = (scaledC + alpha* eigA * eigB.transpose() ).eval();
         }else{
-            eigC = (beta*eigC + alpha* eigA * eigB ).eval();
+            eigC = (scaledC + alpha* eigA * eigB ).eval();
         }
     }
 
-- 
2.43.0


From f082856555306e6d974e2adaf966abdfb4ccdeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:25 +0000
Subject: [PATCH 40/47] fix: the array returned by CoeffMap in Python keeps the
 coefficients' memory alive

---
 bindings/python/src/ParameterizedFunctionBase.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bindings/python/src/ParameterizedFunctionBase.cpp b/bindings/python/src/ParameterizedFunctionBase.cpp
index 3fe63c7..04a9f18 100644
--- a/bindings/python/src/ParameterizedFunctionBase.cpp
+++ b/bindings/python/src/ParameterizedFunctionBase.cpp
@@ -20,7 +20,14 @@ void mpart::binding::ParameterizedFunctionBaseWrapper<Kokkos::HostSpace>(py::mod
 {
     // ParameterizedFunctionBase
     py::class_<ParameterizedFunctionBase<Kokkos::HostSpace>, std::shared_ptr<ParameterizedFunctionBase<Kokkos::HostSpace>>>(m, "ParameterizedFunctionBase")
-        .def("CoeffMap", &ParameterizedFunctionBase<Kokkos::HostSpace>::CoeffMap)
+        .def("CoeffMap", [](std::shared_ptr<ParameterizedFunctionBase<Kokkos::HostSpace>> obj){
+            Eigen::Map<Eigen::VectorXd> coeffs = obj->CoeffMap();
+
+            // The array shares the coefficients' memory and keeps it alive, even if obj is destroyed or given other coefficients
+            auto view = new Kokkos::View<double*, Kokkos::HostSpace>(obj->Coeffs());
+            py::capsule owner(view, [](void* ptr){ delete static_cast<Kokkos::View<double*, Kokkos::HostSpace>*>(ptr); });
+            return py::array_t<double>(coeffs.size(), coeffs.data(), owner);
+        })
         .def("SetCoeffs", py::overload_cast<Eigen::Ref<Eigen::VectorXd>>(&ParameterizedFunctionBase<Kokkos::HostSpace>::SetCoeffs))
         .def("WrapCoeffs", [](std::shared_ptr<ParameterizedFunctionBase<Kokkos::HostSpace>> obj, std::tuple<long,int,int> coeffs){
             obj->WrapCoeffs(ToKokkos<double,Kokkos::HostSpace>(coeffs));
-- 
2.43.0


From 54d398caa25103d8d9791f210100d8b9ee539c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:22 +0000
Subject: [PATCH 41/47] fix: wrapping coefficients from Python does not abort
 for functions without coefficients or strided arrays

---
 bindings/python/src/ParameterizedFunctionBase.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bindings/python/src/ParameterizedFunctionBase.cpp b/bindings/python/src/ParameterizedFunctionBase.cpp
index 04a9f18..5e02da5 100644
--- a/bindings/python/src/ParameterizedFunctionBase.cpp
+++ b/bindings/python/src/ParameterizedFunctionBase.cpp
@@ -30,7 +30,10 @@ void mpart::binding::ParameterizedFunctionBaseWrapper<Kokkos::HostSpace>(py::mod
         })
         .def("SetCoeffs", py::overload_cast<Eigen::Ref<Eigen::VectorXd>>(&ParameterizedFunctionBase<Kokkos::HostSpace>::SetCoeffs))
         .def("WrapCoeffs", [](std::shared_ptr<ParameterizedFunctionBase<Kokkos::HostSpace>> obj, std::tuple<long,int,int> coeffs){
-            obj->WrapCoeffs(ToKokkos<double,Kokkos::HostSpace>(coeffs));
+            const int length = std::get<1>(coeffs);
+            if((length>1)&&(std::get<2>(coeffs)!=1))
+                throw std::invalid_argument("WrapCoeffs: the coefficients must be stored contiguously.");
+            obj->WrapCoeffs(ToKokkos<double,Kokkos::HostSpace>(reinterpret_cast<double*>(std::get<0>(coeffs)), length));
         })
         .def("Evaluate", static_cast<Eigen::RowMatrixXd (ParameterizedFunctionBase<Kokkos::HostSpace>::*)(Eigen::Ref<const Eigen::RowMatrixXd> const&)>(&ParameterizedFunctionBase<Kokkos::HostSpace>::Evaluate))
         .def("EvaluateImpl", [](std::shared_ptr<ParameterizedFunctionBase<Kokkos::HostSpace>> obj, std::tuple<long,std::tuple<int,int>,std::tuple<int,int>> input, std::tuple<long,std::tuple<int,int>,std::tuple<int,int>> output){
-- 
2.43.0


From ee12cb5b0b6f4a375120dddec59f30001c616596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:22 +0000
Subject: [PATCH 42/47] fix: torch wrapper keeps the memory of the wrapped
 coefficients alive and accepts strided coefficient tensors

---
 bindings/python/package/torch.py         | 10 +++-----
 bindings/python/package/torch_helpers.py | 31 +++++++++++++++++++-----
 2 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/bindings/python/package/torch.py b/bindings/python/package/torch.py
index 6882c61..e0b3659 100644
--- a/bindings/python/package/torch.py
+++ b/bindings/python/package/torch.py
@@ -1,5 +1,5 @@
 import torch
-from .torch_helpers import ExtractTorchTensorData, MpartTorchAutograd
+from .torch_helpers import ExtractTorchTensorData, MpartTorchAutograd, WrapTorchCoeffs
         
 
 class TorchParameterizedFunctionBase(torch.nn.Module):
@@ -73,10 +73,8 @@ class TorchConditionalMapBase(torch.nn.Module):
             if self.coeffs is None:
                 raise RuntimeError('Must either set store_coeffs=True in constructor or pass coeffs to inverse function.')
             else:
-                coeffs_dbl = self.coeffs.double()
-        else:
-            coeffs_dbl = coeffs.double()
-        self.f.WrapCoeffs(ExtractTorchTensorData(coeffs_dbl))
+                coeffs = self.coeffs
+        WrapTorchCoeffs(self.f, coeffs)
 
         x_dbl = x.double()
         r_dbl = r.double()
@@ -84,7 +82,7 @@ class TorchConditionalMapBase(torch.nn.Module):
         if (x.shape[1] != self.f.inputDim) & ((x.shape[1]+r.shape[1]) == self.f.inputDim):
             x_dbl = torch.hstack([x_dbl,r_dbl])
 
-        self._check_shapes(x_dbl, r_dbl, coeffs_dbl)
+        self._check_shapes(x_dbl, r_dbl, coeffs)
 
         output = torch.zeros((self.f.outputDim, x_dbl.shape[0]), dtype=torch.double)
         self.f.InverseImpl(ExtractTorchTensorData(x_dbl.T), ExtractTorchTensorData(r_dbl.T), ExtractTorchTensorData(output))
diff --git a/bindings/python/package/torch_helpers.py b/bindings/python/package/torch_helpers.py
index 8fe5cfb..9f4c379 100644
--- a/bindings/python/package/torch_helpers.py
+++ b/bindings/python/package/torch_helpers.py
@@ -1,5 +1,28 @@
+import weakref
+
 import torch
 
+# The tensors whose memory is currently used for the coefficients of each function.
+_wrapped_coeffs = weakref.WeakKeyDictionary()
+
+def WrapTorchCoeffs(f, coeffs):
+    """ Makes the function f use the coefficients in a pytorch tensor and keeps the memory
+        holding them alive for as long as f might use it.  The memory is shared with the
+        tensor if the tensor is contiguous and has double data type.
+
+        Arguments:
+        ------------
+        f: ParameterizedFunctionBase
+            The function whose coefficients should be set.
+
+        coeffs: pytorch.Tensor
+            One dimensional tensor containing the coefficients.
+    """
+    coeffs_dbl = coeffs.detach().double().contiguous()
+    f.WrapCoeffs(ExtractTorchTensorData(coeffs_dbl))
+    _wrapped_coeffs[f] = coeffs_dbl
+
+
 def ExtractTorchTensorData(tensor):
     """ Extracts the pointer, shape, and stride from a pytorch tensor and returns a tuple
         that can be passed to MParT functions that have been overloaded to accept
@@ -40,10 +63,8 @@ class MpartTorchAutograd(torch.autograd.Function):
         ctx.save_for_backward(input, coeffs)
         ctx.f = f
 
-        coeffs_dbl = None 
         if coeffs is not None:
-            coeffs_dbl = coeffs.double()
-            f.WrapCoeffs(ExtractTorchTensorData(coeffs_dbl))
+            WrapTorchCoeffs(f, coeffs)
         input_dbl = input.double()
 
         output = torch.zeros(f.outputDim, input.shape[1], dtype=torch.double) 
@@ -61,10 +82,8 @@ class MpartTorchAutograd(torch.autograd.Function):
         input, coeffs = ctx.saved_tensors
         f = ctx.f
         
-        coeffs_dbl = None 
         if coeffs is not None:
-            coeffs_dbl = coeffs.double()
-            f.WrapCoeffs(ExtractTorchTensorData(coeffs_dbl))
+            WrapTorchCoeffs(f, coeffs)
         input_dbl = input.double()
         output_sens_dbl = output_sens.double()
 
-- 
2.43.0


From 280f1c60e1242598305c6779cc32f13d8bb2c0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:34 +0000
Subject: [PATCH 43/47] fix: FixedMultiIndexSet built from an array in Python
 copies the array

---
 bindings/python/src/MultiIndex.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bindings/python/src/MultiIndex.cpp b/bindings/python/src/MultiIndex.cpp
index d97c961..d8ac5d4 100644
--- a/bindings/python/src/MultiIndex.cpp
+++ b/bindings/python/src/MultiIndex.cpp
@@ -160,7 +160,12 @@ void mpart::binding::MultiIndexWrapper(py::module &m)
         .def(py::init( [](unsigned int dim,
                           Eigen::Matrix<unsigned int, Eigen::Dynamic, 1> &orders)
         {
-            return new FixedMultiIndexSet<Kokkos::HostSpace>(dim, VecToKokkos<unsigned int,Kokkos::HostSpace>(orders));
+            // Deep copy the array into Kokkos
+            Kokkos::View<unsigned int*,Kokkos::HostSpace> nzOrders("nzOrders", orders.rows());
+            for(unsigned int i=0; i<orders.rows(); ++i)
+                nzOrders(i) = orders(i);
+
+            return new FixedMultiIndexSet<Kokkos::HostSpace>(dim, nzOrders);
         }))
 
         .def(py::init( [](unsigned int dim,
-- 
2.43.0


From 6d0bc49836d93ed2af8db5f851081ef709d2c48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:46 +0000
Subject: [PATCH 44/47] fix: torch() of a conditional map wraps the map itself
 instead of a base-class handle without log determinants

---
 bindings/python/src/ConditionalMapBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/src/ConditionalMapBase.cpp b/bindings/python/src/ConditionalMapBase.cpp
index bf74aa1..024c940 100644
--- a/bindings/python/src/ConditionalMapBase.cpp
+++ b/bindings/python/src/ConditionalMapBase.cpp
@@ -34,7 +34,7 @@ void mpart::binding::ConditionalMapBaseWrapper(py::module &m)
         .def("LogDeterminantInputGradImpl", [](std::shared_ptr<ConditionalMapBase<MemorySpace>> obj, std::tuple<long,std::tuple<int,int>,std::tuple<int,int>> input, std::tuple<long,std::tuple<int,int>,std::tuple<int,int>> output){
             obj->LogDeterminantInputGradImpl(ToKokkos<double,MemorySpace>(input),ToKokkos<double,MemorySpace>(output));
         })
-        .def("torch", [](std::shared_ptr<ParameterizedFunctionBase<Kokkos::HostSpace>> obj, bool store_coeffs, bool return_logdet){
+        .def("torch", [](std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> obj, bool store_coeffs, bool return_logdet){
             auto mpart = py::module::import("mpart");
             if(!mpart.attr("mpart_has_torch").cast<bool>()){
                 throw std::runtime_error("MParT could not import pytorch.");
-- 
2.43.0


From b38ad3aec64edf9cacbfa9354ab6722b59d610de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:32 +0000
Subject: [PATCH 45/47] fix: AffineMap and AffineFunction in Python take a 1x1
 array as a matrix, not as a translation

---
 bindings/python/src/AffineMap.cpp | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/bindings/python/src/AffineMap.cpp b/bindings/python/src/AffineMap.cpp
index 94a6bca..6ed786f 100644
--- a/bindings/python/src/AffineMap.cpp
+++ b/bindings/python/src/AffineMap.cpp
@@ -13,17 +13,16 @@ using namespace mpart::binding;
 void mpart::binding::AffineMapWrapperHost(py::module &m)
 {
     py::class_<AffineMap<Kokkos::HostSpace>, ConditionalMapBase<Kokkos::HostSpace>, std::shared_ptr<AffineMap<Kokkos::HostSpace>>>(m, "AffineMap")
-        .def(py::init( [](py::EigenDRef<Eigen::VectorXd> const& b)
+        .def(py::init( [](py::array_t<double> const& x)
         {
-            return new AffineMap<Kokkos::HostSpace>(VecToKokkos<double, Kokkos::HostSpace>(b));
-        }))
+            // A matrix has at least as many columns as rows (and may have just one entry), anything else is a translation
+            if((x.ndim()==1)||(x.shape(0)>x.shape(1)))
+                return new AffineMap<Kokkos::HostSpace>(VecToKokkos<double, Kokkos::HostSpace>(x.cast<py::EigenDRef<Eigen::VectorXd>>()));
+            return new AffineMap<Kokkos::HostSpace>(MatToKokkos<double, Kokkos::HostSpace>(x.cast<py::EigenDRef<Eigen::MatrixXd>>()));
+        }), py::arg().noconvert())
         .def(py::init( [](py::EigenDRef<Eigen::MatrixXd> const& A, py::EigenDRef<Eigen::VectorXd> const& b)
         {
             return new AffineMap<Kokkos::HostSpace>(MatToKokkos<double, Kokkos::HostSpace>(A), VecToKokkos<double, Kokkos::HostSpace>(b));
-        }))
-        .def(py::init( [](py::EigenDRef<Eigen::MatrixXd> const& A)
-        {
-            return new AffineMap<Kokkos::HostSpace>(MatToKokkos<double, Kokkos::HostSpace>(A));
         }));
 }
 
@@ -31,17 +30,16 @@ void mpart::binding::AffineMapWrapperHost(py::module &m)
 void mpart::binding::AffineFunctionWrapperHost(py::module &m)
 {
     py::class_<AffineFunction<Kokkos::HostSpace>, ParameterizedFunctionBase<Kokkos::HostSpace>, std::shared_ptr<AffineFunction<Kokkos::HostSpace>>>(m, "AffineFunction")
-        .def(py::init( [](py::EigenDRef<Eigen::VectorXd> const& b)
+        .def(py::init( [](py::array_t<double> const& x)
         {
-            return new AffineFunction<Kokkos::HostSpace>(VecToKokkos<double, Kokkos::HostSpace>(b));
-        }))
+            // A matrix has at least as many columns as rows (and may have just one entry), anything else is a translation
+            if((x.ndim()==1)||(x.shape(0)>x.shape(1)))
+                return new AffineFunction<Kokkos::HostSpace>(VecToKokkos<double, Kokkos::HostSpace>(x.cast<py::EigenDRef<Eigen::VectorXd>>()));
+            return new AffineFunction<Kokkos::HostSpace>(MatToKokkos<double, Kokkos::HostSpace>(x.cast<py::EigenDRef<Eigen::MatrixXd>>()));
+        }), py::arg().noconvert())
         .def(py::init( [](py::EigenDRef<Eigen::MatrixXd> const& A, py::EigenDRef<Eigen::VectorXd> const& b)
         {
             return new AffineFunction<Kokkos::HostSpace>(MatToKokkos<double, Kokkos::HostSpace>(A), VecToKokkos<double, Kokkos::HostSpace>(b));
-        }))
-        .def(py::init( [](py::EigenDRef<Eigen::MatrixXd> const& A)
-        {
-            return new AffineFunction<Kokkos::HostSpace>(MatToKokkos<double, Kokkos::HostSpace>(A));
         }));
 }
 
-- 
2.43.0


From a5b83a25064b93fdf5e0758eab71d0b7b3f2d198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:09 +0000
Subject: [PATCH 46/47] fix: adaptive quadrature looped forever beyond 32
 levels of subdivision

---
 MParT/Quadrature.h | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/MParT/Quadrature.h b/MParT/Quadrature.h
index 5ae399e..c875b30 100644
--- a/MParT/Quadrature.h
+++ b/MParT/Quadrature.h
@@ -2,6 +2,7 @@
 #define MPART_QUADRATURE_H
 
 #include <math.h>
+#include <cstdint>
 #include <sstream>
 #include <vector>
 
@@ -478,6 +479,9 @@ protected:
         tol = std::fmax( relTol_*relRefVal, absTol_);
     }
 
+    /** The deepest level of the recursion.  The branches taken at each level are stored in the bits of a 64 bit integer. */
+    KOKKOS_FUNCTION unsigned int MaxLevel() const { return (maxSub_ > 64) ? 63 : maxSub_-1; }
+
     unsigned int maxSub_;
     unsigned int minSub_;
     double absTol_;
@@ -561,7 +565,7 @@ public:
 
         unsigned int currLevel = 0;
 
-        unsigned int currSegment = 0;
+        std::uint64_t currSegment = 0;
 
         double midPt = 0.5*(lb+ub);
 
@@ -624,7 +628,7 @@ public:
             this->EstimateError(intCoarse, intFine, error, errorTol);
 
             // Checking for convergence or other termination criteria
-            if((((error<errorTol)||(currLevel==this->maxSub_-1))&&(currLevel>=this->minSub_))||(std::abs(ub-lb)<1e-14)){
+            if((((error<errorTol)||(currLevel==this->MaxLevel()))&&(currLevel>=this->minSub_))||(std::abs(ub-lb)<1e-14)){
 
                 for(unsigned int i=0; i<this->fdim_; ++i){
                     res[i] += intFine[i];
@@ -632,7 +636,7 @@ public:
 
                 // Find the lowest previous level where we are working on the "left" branch of the tree.
                 while(((currSegment >> currLevel) & 1U)&&(currLevel>0)){
-                    currSegment &= ~(1UL << currLevel); // Set the side on this level to the left
+                    currSegment &= ~(std::uint64_t(1) << currLevel); // Set the side on this level to the left
                     currLevel--;
                 }
 
@@ -642,7 +646,7 @@ public:
                 }
 
                 // Specify that we're now working on the right side
-                currSegment |= 1UL << currLevel;
+                currSegment |= std::uint64_t(1) << currLevel;
 
                 // Set the left and right endpoints of this level based on the previous level
                 workStartInd = (2*currLevel + 5)*this->fdim_ + 2*currLevel;
@@ -693,7 +697,7 @@ private:
 
     
 
-    KOKKOS_FUNCTION void UpdateValues(double* workspace, unsigned int currLevel, unsigned int currSegment, double* &leftVal, double* &midVal, double* &rightVal) const
+    KOKKOS_FUNCTION void UpdateValues(double* workspace, unsigned int currLevel, std::uint64_t currSegment, double* &leftVal, double* &midVal, double* &rightVal) const
     {
         leftVal = &workspace[0];
         midVal = &workspace[2*this->fdim_];
@@ -827,7 +831,7 @@ public:
 
         unsigned int currLevel = 0;
 
-        unsigned int currSegment = 0;
+        std::uint64_t currSegment = 0;
 
         double midPt = 0.5*(lb+ub);
         double scale = (ub-lb);
@@ -914,7 +918,7 @@ public:
             this->EstimateError(intCoarse, intFine, error, errorTol);
 
             // Checking for convergence or other termination criteria
-            if((((error<errorTol)||(currLevel==this->maxSub_-1))&&(currLevel>=this->minSub_))||(std::abs(ub-lb)<1e-14)){
+            if((((error<errorTol)||(currLevel==this->MaxLevel()))&&(currLevel>=this->minSub_))||(std::abs(ub-lb)<1e-14)){
 
                 for(unsigned int i=0; i<this->fdim_; ++i){
                     res[i] += intFine[i];
@@ -922,7 +926,7 @@ public:
 
                 // Find the lowest previous level where we are working on the "left" branch of the tree.
                 while(((currSegment >> currLevel) & 1U)&&(currLevel>0)){
-                    currSegment &= ~(1UL << currLevel); // Set the side on this level to the left
+                    currSegment &= ~(std::uint64_t(1) << currLevel); // Set the side on this level to the left
                     currLevel--;
                 }
 
@@ -932,7 +936,7 @@ public:
                 }
 
                 // Specify that we're now working on the right side
-                currSegment |= 1UL << currLevel;
+                currSegment |= std::uint64_t(1) << currLevel;
 
                 // Set the left and right endpoints of this level based on the previous level
                 workStartInd = (currLevel + 5)*this->fdim_ + 2*currLevel;
@@ -985,7 +989,7 @@ public:
 
 private:
 
-    KOKKOS_FUNCTION void UpdateValues(double* workspace, unsigned int currLevel, unsigned int currSegment, double* &leftVal, double* &rightVal) const
+    KOKKOS_FUNCTION void UpdateValues(double* workspace, unsigned int currLevel, std::uint64_t currSegment, double* &leftVal, double* &rightVal) const
     {
         leftVal = &workspace[0];
         rightVal = &workspace[this->fdim_];
-- 
2.43.0


From 1f2319d2e19ad83aaa63298cfa43e6e59fbbed82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:58 +0000
Subject: [PATCH 47/47] fix: take the regula falsi point of the bracketed root
 search at the target value

---
 MParT/Utilities/RootFinding.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/Utilities/RootFinding.h b/MParT/Utilities/RootFinding.h
index ee4de85..2de149f 100644
--- a/MParT/Utilities/RootFinding.h
+++ b/MParT/Utilities/RootFinding.h
@@ -93,7 +93,7 @@ KOKKOS_INLINE_FUNCTION double Find_x_ITP(double xlb, double xub, double yd, doub
                                          double k1, double k2, double nhalf, double n0, int it, double xtol) {
 
         double xb = 0.5*(xub+xlb); // bisection point
-        double xf = (xub*ylb - xlb*yub)/(ylb-yub); // regula-falsi point
+        double xf = (xub*(ylb-yd) - xlb*(yub-yd))/(ylb-yub); // regula-falsi point, i.e., the root of the interpolant of f(x)-yd
 
         double sigma = ((xb-xf)>0)?1.0:-1.0; // sign(xb-xf)
         double delta = fmin(k1*pow((xub-xlb), k2), fabs(xb-xf));
-- 
2.43.0

