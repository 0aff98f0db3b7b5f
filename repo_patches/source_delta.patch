From 351fc4b3309750a8161659d44b1520f6da26a2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:34 +0000
Subject: [PATCH 01/35] fix: use the global maximum horizon when exchanging
 points for the neighbor search

---
 src/io/pdneigh/NeighborhoodList.cxx | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/io/pdneigh/NeighborhoodList.cxx b/src/io/pdneigh/NeighborhoodList.cxx
index 0ebf8aa..0b05695 100644
--- a/src/io/pdneigh/NeighborhoodList.cxx
+++ b/src/io/pdneigh/NeighborhoodList.cxx
@@ -378,12 +378,15 @@ void NeighborhoodList::createAndAddNeighborhood(){
 
   enum {COMM_CREATE=9,COMM_DO=10};
 
-  // Find the maximum horizon and use this to create the frame set
-  double maxHorizon = 0.0;
+  // Find the maximum horizon over all processors and use this to create the frame set
+  // A point must be sent to every processor that may own a point with this point in its horizon
+  double localMaxHorizon = 0.0;
   for(int i=0 ; i<horizons->MyLength() ; ++i){
-    if((*horizons)[i] > maxHorizon)
-      maxHorizon = (*horizons)[i];
+    if((*horizons)[i] > localMaxHorizon)
+      localMaxHorizon = (*horizons)[i];
   }
+  double maxHorizon = 0.0;
+  epetraComm->MaxAll(&localMaxHorizon, &maxHorizon, 1);
 
 //  shared_ptr< std::set<int> > frameSet = constructParallelDecompositionFrameSet();
   shared_ptr< std::set<int> > frameSet = UTILITIES::constructFrameSet(num_owned_points,owned_x,maxHorizon);
@@ -428,8 +431,6 @@ void NeighborhoodList::createAndAddNeighborhood(){
     int numProcsPoint;
     std::set<int>::iterator myPointsIter = frameSet->begin();
     double *x = owned_x.get();
-    double *horizon;
-    horizons->ExtractView(&horizon);
 
     for(;myPointsIter!=frameSet->end();myPointsIter++){
 
@@ -438,8 +439,7 @@ void NeighborhoodList::createAndAddNeighborhood(){
        */
       int id = *myPointsIter;
       const double *xP = x+dimension*id;
-            const double *horizonP = horizon+id;
-      PointCenteredBoundingBox bb(xP,*horizonP);
+      PointCenteredBoundingBox bb(xP,maxHorizon);
 //      if(1==rank){
 //        std::cout << "localId, x,y,z = " << id << ", " << *xP << ", " << *(xP+1) << ", " << *(xP+2) << std::endl;
 //        std::cout << "xMin, xMax " << bb.get_xMin() << ", " << bb.get_xMax() << std::endl;
-- 
2.43.0


From 3f8668481ffffd52bf91d2454ca28406fbcfcaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:50 +0000
Subject: [PATCH 02/35] fix: omit bonds between blocks correctly when block ids
 are not consecutive

---
 src/io/discretization/Peridigm_TextFileDiscretization.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/io/discretization/Peridigm_TextFileDiscretization.cpp b/src/io/discretization/Peridigm_TextFileDiscretization.cpp
index 6089c12..7fc6fc4 100644
--- a/src/io/discretization/Peridigm_TextFileDiscretization.cpp
+++ b/src/io/discretization/Peridigm_TextFileDiscretization.cpp
@@ -359,6 +359,12 @@ PeridigmNS::TextFileDiscretization::filterBonds(Teuchos::RCP<PeridigmNS::Neighbo
     blockBondingMatrix[i].resize(numBlocks, true);
   }
 
+  // Block ids are not necessarily consecutive; associate each one with a row in the block bonding matrix
+  map<int, int> blockIndex;
+  vector<string> blockNames = getBlockNames();
+  for(int i=0 ; i<numBlocks ; ++i)
+    blockIndex[blockNameToBlockId(blockNames[i])] = i;
+
   if(bondFilterCommand == "None"){
     // All blocks are bonded, the blockBondingMatrix is unchanged
     return unfilteredNeighborhoodData;
@@ -407,7 +413,7 @@ PeridigmNS::TextFileDiscretization::filterBonds(Teuchos::RCP<PeridigmNS::Neighbo
     for(int iNID=0 ; iNID<numUnfilteredNeighbors ; ++iNID){
       int unfilteredNeighborID = unfilteredNeighborhoodList[unfilteredNeighborhoodListIndex++];
       int unfilteredNeighborBlockID = static_cast<int>(blockIDs[unfilteredNeighborID]);
-      if(blockBondingMatrix[blockID-1][unfilteredNeighborBlockID-1] == true){
+      if(blockBondingMatrix[blockIndex[blockID]][blockIndex[unfilteredNeighborBlockID]] == true){
         neighborhoodListVec.push_back(unfilteredNeighborID);
         numNeighbors += 1;
       }
-- 
2.43.0


From 111972e8f0a60201ab2a89095b19923bd4309c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:53 +0000
Subject: [PATCH 03/35] fix: correct the sign of the quadratic term in the
 rotation update of correspondence models

The incremental rotation is I + sin(a)/w W + (1-cos(a))/w^2 W^2. With the
opposite sign the rotation tensor stops being orthogonal as soon as the body
spins, so a rigid rotation changed the stress response to later loading.
---
 src/materials/correspondence.cxx | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/materials/correspondence.cxx b/src/materials/correspondence.cxx
index 2588ba0..f845b7f 100644
--- a/src/materials/correspondence.cxx
+++ b/src/materials/correspondence.cxx
@@ -1134,10 +1134,10 @@ int computeUnrotatedRateOfDeformationAndRotationTensor
     // Avoid a potential divide-by-zero
     if( OmegaSq > 1.e-30){
 
-      // Compute Q = I + sin( dt * Omega ) * OmegaTensor / Omega - (1. - cos(dt * Omega)) * omegaTensor^2 / OmegaSq
+      // Compute Q = I + sin( dt * Omega ) * OmegaTensor / Omega + (1. - cos(dt * Omega)) * omegaTensor^2 / OmegaSq
       //           = I + scaleFactor1 * OmegaTensor + scaleFactor2 * OmegaTensorSq
       scaleFactor1 = sin(dt*Omega) / Omega;
-      scaleFactor2 = -(1.0 - cos(dt*Omega)) / OmegaSq;
+      scaleFactor2 = (1.0 - cos(dt*Omega)) / OmegaSq;
       MatrixMultiply(false, false, 1.0, OmegaTensor, OmegaTensor, OmegaTensorSq);
       *(QMatrix)   = 1.0 + scaleFactor1 * *(OmegaTensor)   + scaleFactor2 * *(OmegaTensorSq)   ;
       *(QMatrix+1) =       scaleFactor1 * *(OmegaTensor+1) + scaleFactor2 * *(OmegaTensorSq+1) ;
@@ -2318,10 +2318,10 @@ int computeNodeLevelUnrotatedRateOfDeformationAndRotationTensor
       // Avoid a potential divide-by-zero
       if(OmegaSq > 1.e-30){
 
-        // Compute Q = I + sin( dt * Omega ) * OmegaTensor / Omega - (1. - cos(dt * Omega)) * omegaTensor^2 / OmegaSq
+        // Compute Q = I + sin( dt * Omega ) * OmegaTensor / Omega + (1. - cos(dt * Omega)) * omegaTensor^2 / OmegaSq
         //           = I + scaleFactor1 * OmegaTensor + scaleFactor2 * OmegaTensorSq
         scaleFactor1 = sin(dt*Omega) / Omega;
-        scaleFactor2 = -(1.0 - cos(dt*Omega)) / OmegaSq;
+        scaleFactor2 = (1.0 - cos(dt*Omega)) / OmegaSq;
         MatrixMultiply(false, false, 1.0, OmegaTensor, OmegaTensor, OmegaTensorSq);
         *(QMatrix)   = 1.0 + scaleFactor1 * *(OmegaTensor)   + scaleFactor2 * *(OmegaTensorSq)   ;
         *(QMatrix+1) =       scaleFactor1 * *(OmegaTensor+1) + scaleFactor2 * *(OmegaTensorSq+1) ;
@@ -2661,10 +2661,10 @@ int computeBondLevelUnrotatedRateOfDeformationAndRotationTensor
         // Avoid a potential divide-by-zero
         if(OmegaSq > 1.e-30){
 
-          // Compute Q = I + sin( dt * Omega ) * OmegaTensor / Omega - (1. - cos(dt * Omega)) * omegaTensor^2 / OmegaSq
+          // Compute Q = I + sin( dt * Omega ) * OmegaTensor / Omega + (1. - cos(dt * Omega)) * omegaTensor^2 / OmegaSq
           //           = I + scaleFactor1 * OmegaTensor + scaleFactor2 * OmegaTensorSq
           scaleFactor1 = sin(dt*Omega) / Omega;
-          scaleFactor2 = -(1.0 - cos(dt*Omega)) / OmegaSq;
+          scaleFactor2 = (1.0 - cos(dt*Omega)) / OmegaSq;
           MatrixMultiply(false, false, 1.0, OmegaTensor, OmegaTensor, OmegaTensorSq);
           *(QMatrix)   = 1.0 + scaleFactor1 * *(OmegaTensor)   + scaleFactor2 * *(OmegaTensorSq)   ;
           *(QMatrix+1) =       scaleFactor1 * *(OmegaTensor+1) + scaleFactor2 * *(OmegaTensorSq+1) ;
@@ -3562,10 +3562,10 @@ int computeNodeLevelUnrotatedRateOfDeformationAndRotationTensor
     // Avoid a potential divide-by-zero
     if( OmegaSq > 1.e-30){
 
-      // Compute Q = I + sin( dt * Omega ) * OmegaTensor / Omega - (1. - cos(dt * Omega)) * omegaTensor^2 / OmegaSq
+      // Compute Q = I + sin( dt * Omega ) * OmegaTensor / Omega + (1. - cos(dt * Omega)) * omegaTensor^2 / OmegaSq
       //           = I + scaleFactor1 * OmegaTensor + scaleFactor2 * OmegaTensorSq
       scaleFactor1 = sin(dt*Omega) / Omega;
-      scaleFactor2 = -(1.0 - cos(dt*Omega)) / OmegaSq;
+      scaleFactor2 = (1.0 - cos(dt*Omega)) / OmegaSq;
       MatrixMultiply(false, false, 1.0, OmegaTensor, OmegaTensor, OmegaTensorSq);
       *(QMatrix)   = 1.0 + scaleFactor1 * *(OmegaTensor)   + scaleFactor2 * *(OmegaTensorSq)   ;
       *(QMatrix+1) =       scaleFactor1 * *(OmegaTensor+1) + scaleFactor2 * *(OmegaTensorSq+1) ;
@@ -4017,10 +4017,10 @@ int computeBondLevelUnrotatedRateOfDeformationAndRotationTensor
         // Avoid a potential divide-by-zero
         if(OmegaSq > 1.e-30){
 
-          // Compute Q = I + sin( dt * Omega ) * OmegaTensor / Omega - (1. - cos(dt * Omega)) * omegaTensor^2 / OmegaSq
+          // Compute Q = I + sin( dt * Omega ) * OmegaTensor / Omega + (1. - cos(dt * Omega)) * omegaTensor^2 / OmegaSq
           //           = I + scaleFactor1 * OmegaTensor + scaleFactor2 * OmegaTensorSq
           scaleFactor1 = sin(dt*Omega) / Omega;
-          scaleFactor2 = -(1.0 - cos(dt*Omega)) / OmegaSq;
+          scaleFactor2 = (1.0 - cos(dt*Omega)) / OmegaSq;
           MatrixMultiply(false, false, 1.0, OmegaTensor, OmegaTensor, OmegaTensorSq);
           *(QMatrix)   = 1.0 + scaleFactor1 * *(OmegaTensor)   + scaleFactor2 * *(OmegaTensorSq)   ;
           *(QMatrix+1) =       scaleFactor1 * *(OmegaTensor+1) + scaleFactor2 * *(OmegaTensorSq+1) ;
-- 
2.43.0


From 75f09e31d0a0157084e3cfec4a2e98ece2a465a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:03 +0000
Subject: [PATCH 04/35] fix: report zero stored energy for points without bonds

Dividing by the weighted volume of such a point made its stored elastic
energy, and with it the energy of the whole model, not a number.
---
 src/materials/Peridigm_ElasticMaterial.cpp             | 2 +-
 src/materials/Peridigm_MultiphysicsElasticMaterial.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/materials/Peridigm_ElasticMaterial.cpp b/src/materials/Peridigm_ElasticMaterial.cpp
index 121fdd8..e600063 100644
--- a/src/materials/Peridigm_ElasticMaterial.cpp
+++ b/src/materials/Peridigm_ElasticMaterial.cpp
@@ -211,7 +211,7 @@ PeridigmNS::ElasticMaterial::computeStoredElasticEnergyDensity(const double dt,
     nodeCurrentX[1] = y[nodeId*3+1];
     nodeCurrentX[2] = y[nodeId*3+2];
     nodeDilatation = dilatation[nodeId];
-    alpha = 15.0*m_shearModulus/weightedVolume[nodeId];
+    alpha = weightedVolume[nodeId] > 0.0 ? 15.0*m_shearModulus/weightedVolume[nodeId] : 0.0;
 
     temp = 0.0;
 
diff --git a/src/materials/Peridigm_MultiphysicsElasticMaterial.cpp b/src/materials/Peridigm_MultiphysicsElasticMaterial.cpp
index bd0529f..a22b008 100644
--- a/src/materials/Peridigm_MultiphysicsElasticMaterial.cpp
+++ b/src/materials/Peridigm_MultiphysicsElasticMaterial.cpp
@@ -302,7 +302,7 @@ PeridigmNS::MultiphysicsElasticMaterial::computeStoredElasticEnergyDensity(const
     nodeCurrentX[1] = y[nodeId*3+1];
     nodeCurrentX[2] = y[nodeId*3+2];
     nodeDilatation = dilatation[nodeId];
-    alpha = 15.0*m_shearModulus/weightedVolume[nodeId];
+    alpha = weightedVolume[nodeId] > 0.0 ? 15.0*m_shearModulus/weightedVolume[nodeId] : 0.0;
     alpha *= surfaceCorrectionFactor[nodeId];
 
     temp = 0.0;
-- 
2.43.0


From ad2ce88f18f474296996246e80892d376c32eae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:00 +0000
Subject: [PATCH 05/35] fix: compute the tangent of points without bonds

Building the tangent stiffness stopped with an uncaught exception when a
point had no neighbors, because an empty bond list cannot be described by
one block of length zero. Use an empty map for such a point.
---
 src/materials/Peridigm_ElasticMaterial.cpp                 | 2 +-
 src/materials/Peridigm_ElasticPlasticHardeningMaterial.cpp | 2 +-
 src/materials/Peridigm_ElasticPlasticMaterial.cpp          | 2 +-
 src/materials/Peridigm_Material.cpp                        | 2 +-
 src/materials/Peridigm_MultiphysicsElasticMaterial.cpp     | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/materials/Peridigm_ElasticMaterial.cpp b/src/materials/Peridigm_ElasticMaterial.cpp
index e600063..9c21d4e 100644
--- a/src/materials/Peridigm_ElasticMaterial.cpp
+++ b/src/materials/Peridigm_ElasticMaterial.cpp
@@ -292,7 +292,7 @@ PeridigmNS::ElasticMaterial::computeAutomaticDifferentiationJacobian(const doubl
     Epetra_SerialComm serialComm;
     Teuchos::RCP<Epetra_BlockMap> tempOneDimensionalMap = Teuchos::rcp(new Epetra_BlockMap(numEntries, numEntries, &tempMyGlobalIDs[0], 1, 0, serialComm));
     Teuchos::RCP<Epetra_BlockMap> tempThreeDimensionalMap = Teuchos::rcp(new Epetra_BlockMap(numEntries, numEntries, &tempMyGlobalIDs[0], 3, 0, serialComm));
-    Teuchos::RCP<Epetra_BlockMap> tempBondMap = Teuchos::rcp(new Epetra_BlockMap(1, 1, &tempMyGlobalIDs[0], numNeighbors, 0, serialComm));
+    Teuchos::RCP<Epetra_BlockMap> tempBondMap = Teuchos::rcp(new Epetra_BlockMap(-1, (numNeighbors > 0 ? 1 : 0), &tempMyGlobalIDs[0], (numNeighbors > 0 ? numNeighbors : 1), 0, serialComm));
 
     // Create a temporary DataManager containing data for this point and its neighborhood.
     PeridigmNS::DataManager tempDataManager;
diff --git a/src/materials/Peridigm_ElasticPlasticHardeningMaterial.cpp b/src/materials/Peridigm_ElasticPlasticHardeningMaterial.cpp
index 1b83c67..83246ec 100644
--- a/src/materials/Peridigm_ElasticPlasticHardeningMaterial.cpp
+++ b/src/materials/Peridigm_ElasticPlasticHardeningMaterial.cpp
@@ -246,7 +246,7 @@ PeridigmNS::ElasticPlasticHardeningMaterial::computeAutomaticDifferentiationJaco
     Epetra_SerialComm serialComm;
     Teuchos::RCP<Epetra_BlockMap> tempOneDimensionalMap = Teuchos::rcp(new Epetra_BlockMap(numEntries, numEntries, &tempMyGlobalIDs[0], 1, 0, serialComm));
     Teuchos::RCP<Epetra_BlockMap> tempThreeDimensionalMap = Teuchos::rcp(new Epetra_BlockMap(numEntries, numEntries, &tempMyGlobalIDs[0], 3, 0, serialComm));
-    Teuchos::RCP<Epetra_BlockMap> tempBondMap = Teuchos::rcp(new Epetra_BlockMap(1, 1, &tempMyGlobalIDs[0], numNeighbors, 0, serialComm));
+    Teuchos::RCP<Epetra_BlockMap> tempBondMap = Teuchos::rcp(new Epetra_BlockMap(-1, (numNeighbors > 0 ? 1 : 0), &tempMyGlobalIDs[0], (numNeighbors > 0 ? numNeighbors : 1), 0, serialComm));
 
     // Create a temporary DataManager containing data for this point and its neighborhood.
     PeridigmNS::DataManager tempDataManager;
diff --git a/src/materials/Peridigm_ElasticPlasticMaterial.cpp b/src/materials/Peridigm_ElasticPlasticMaterial.cpp
index dc014ae..5753cdb 100644
--- a/src/materials/Peridigm_ElasticPlasticMaterial.cpp
+++ b/src/materials/Peridigm_ElasticPlasticMaterial.cpp
@@ -234,7 +234,7 @@ PeridigmNS::ElasticPlasticMaterial::computeAutomaticDifferentiationJacobian(cons
     Epetra_SerialComm serialComm;
     Teuchos::RCP<Epetra_BlockMap> tempOneDimensionalMap = Teuchos::rcp(new Epetra_BlockMap(numEntries, numEntries, &tempMyGlobalIDs[0], 1, 0, serialComm));
     Teuchos::RCP<Epetra_BlockMap> tempThreeDimensionalMap = Teuchos::rcp(new Epetra_BlockMap(numEntries, numEntries, &tempMyGlobalIDs[0], 3, 0, serialComm));
-    Teuchos::RCP<Epetra_BlockMap> tempBondMap = Teuchos::rcp(new Epetra_BlockMap(1, 1, &tempMyGlobalIDs[0], numNeighbors, 0, serialComm));
+    Teuchos::RCP<Epetra_BlockMap> tempBondMap = Teuchos::rcp(new Epetra_BlockMap(-1, (numNeighbors > 0 ? 1 : 0), &tempMyGlobalIDs[0], (numNeighbors > 0 ? numNeighbors : 1), 0, serialComm));
 
     // Create a temporary DataManager containing data for this point and its neighborhood.
     PeridigmNS::DataManager tempDataManager;
diff --git a/src/materials/Peridigm_Material.cpp b/src/materials/Peridigm_Material.cpp
index 69084bd..cbc686e 100644
--- a/src/materials/Peridigm_Material.cpp
+++ b/src/materials/Peridigm_Material.cpp
@@ -144,7 +144,7 @@ void PeridigmNS::Material::computeFiniteDifferenceJacobian(const double dt,
     Epetra_SerialComm serialComm;
     Teuchos::RCP<Epetra_BlockMap> tempOneDimensionalMap = Teuchos::rcp(new Epetra_BlockMap(numNeighbors+1, numNeighbors+1, &tempMyGlobalIDs[0], 1, 0, serialComm));
     Teuchos::RCP<Epetra_BlockMap> tempThreeDimensionalMap = Teuchos::rcp(new Epetra_BlockMap(numNeighbors+1, numNeighbors+1, &tempMyGlobalIDs[0], 3, 0, serialComm));
-    Teuchos::RCP<Epetra_BlockMap> tempBondMap = Teuchos::rcp(new Epetra_BlockMap(1, 1, &tempMyGlobalIDs[0], numNeighbors, 0, serialComm));
+    Teuchos::RCP<Epetra_BlockMap> tempBondMap = Teuchos::rcp(new Epetra_BlockMap(-1, (numNeighbors > 0 ? 1 : 0), &tempMyGlobalIDs[0], (numNeighbors > 0 ? numNeighbors : 1), 0, serialComm));
 
     // Create a temporary DataManager containing data for this point and its neighborhood.
     PeridigmNS::DataManager tempDataManager;
diff --git a/src/materials/Peridigm_MultiphysicsElasticMaterial.cpp b/src/materials/Peridigm_MultiphysicsElasticMaterial.cpp
index a22b008..a31c90b 100644
--- a/src/materials/Peridigm_MultiphysicsElasticMaterial.cpp
+++ b/src/materials/Peridigm_MultiphysicsElasticMaterial.cpp
@@ -389,7 +389,7 @@ PeridigmNS::MultiphysicsElasticMaterial::computeAutomaticDifferentiationJacobian
     Teuchos::RCP<Epetra_BlockMap> tempOneDimensionalMap = Teuchos::rcp(new Epetra_BlockMap(numEntries, numEntries, &tempMyGlobalIDs[0], 1, 0, serialComm));
     // This is not a mistake, the material is indeed defined in terms of one dimensional and three dimensional variables.
     Teuchos::RCP<Epetra_BlockMap> tempThreeDimensionalMap = Teuchos::rcp(new Epetra_BlockMap(numEntries, numEntries, &tempMyGlobalIDs[0], 3, 0, serialComm));
-    Teuchos::RCP<Epetra_BlockMap> tempBondMap = Teuchos::rcp(new Epetra_BlockMap(1, 1, &tempMyGlobalIDs[0], numNeighbors, 0, serialComm));
+    Teuchos::RCP<Epetra_BlockMap> tempBondMap = Teuchos::rcp(new Epetra_BlockMap(-1, (numNeighbors > 0 ? 1 : 0), &tempMyGlobalIDs[0], (numNeighbors > 0 ? numNeighbors : 1), 0, serialComm));
 
     // Create a temporary DataManager containing data for this point and its neighborhood.
     PeridigmNS::DataManager tempDataManager;
-- 
2.43.0


From e7c8ce65bda39062174711f5f4a4d7ef7a065190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:20 +0000
Subject: [PATCH 06/35] fix: honour the block-diagonal option in the tangents
 of plastic materials

The elastic-plastic models ignored the requested tangent type and always
summed the full tangent, which stops the program when the matrix only has
room for the diagonal blocks.
---
 .../Peridigm_ElasticPlasticHardeningMaterial.cpp      | 11 ++++++++---
 src/materials/Peridigm_ElasticPlasticMaterial.cpp     | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/materials/Peridigm_ElasticPlasticHardeningMaterial.cpp b/src/materials/Peridigm_ElasticPlasticHardeningMaterial.cpp
index 83246ec..b409631 100644
--- a/src/materials/Peridigm_ElasticPlasticHardeningMaterial.cpp
+++ b/src/materials/Peridigm_ElasticPlasticHardeningMaterial.cpp
@@ -201,11 +201,11 @@ PeridigmNS::ElasticPlasticHardeningMaterial::computeJacobian(const double dt,
 {
   if(m_applyAutomaticDifferentiationJacobian){
     // Compute the Jacobian via automatic differentiation
-    computeAutomaticDifferentiationJacobian(dt, numOwnedPoints, ownedIDs, neighborhoodList, dataManager, jacobian);  
+    computeAutomaticDifferentiationJacobian(dt, numOwnedPoints, ownedIDs, neighborhoodList, dataManager, jacobian, jacobianType);  
   }
   else{
     // Call the base class function, which computes the Jacobian by finite difference
-    PeridigmNS::Material::computeJacobian(dt, numOwnedPoints, ownedIDs, neighborhoodList, dataManager, jacobian);
+    PeridigmNS::Material::computeJacobian(dt, numOwnedPoints, ownedIDs, neighborhoodList, dataManager, jacobian, jacobianType);
   }
 }
 
@@ -338,7 +338,12 @@ PeridigmNS::ElasticPlasticHardeningMaterial::computeAutomaticDifferentiationJaco
     }
 
     // Sum the values into the global tangent matrix (this is expensive).
-    jacobian.addValues((int)globalIndices.size(), &globalIndices[0], scratchMatrix.Data());
+    if (jacobianType == PeridigmNS::Material::FULL_MATRIX)
+      jacobian.addValues((int)globalIndices.size(), &globalIndices[0], scratchMatrix.Data());
+    else if (jacobianType == PeridigmNS::Material::BLOCK_DIAGONAL)
+      jacobian.addBlockDiagonalValues((int)globalIndices.size(), &globalIndices[0], scratchMatrix.Data());
+    else // unknown jacobian type
+      TEUCHOS_TEST_FOR_EXCEPT_MSG(true, "**** Unknown Jacobian Type\n");
   }
 }
 
diff --git a/src/materials/Peridigm_ElasticPlasticMaterial.cpp b/src/materials/Peridigm_ElasticPlasticMaterial.cpp
index 5753cdb..e0c3400 100644
--- a/src/materials/Peridigm_ElasticPlasticMaterial.cpp
+++ b/src/materials/Peridigm_ElasticPlasticMaterial.cpp
@@ -190,11 +190,11 @@ PeridigmNS::ElasticPlasticMaterial::computeJacobian(const double dt,
 {
   if(m_applyAutomaticDifferentiationJacobian){
     // Compute the Jacobian via automatic differentiation
-    computeAutomaticDifferentiationJacobian(dt, numOwnedPoints, ownedIDs, neighborhoodList, dataManager, jacobian);  
+    computeAutomaticDifferentiationJacobian(dt, numOwnedPoints, ownedIDs, neighborhoodList, dataManager, jacobian, jacobianType);  
   }
   else{
     // Call the base class function, which computes the Jacobian by finite difference
-    PeridigmNS::Material::computeJacobian(dt, numOwnedPoints, ownedIDs, neighborhoodList, dataManager, jacobian);
+    PeridigmNS::Material::computeJacobian(dt, numOwnedPoints, ownedIDs, neighborhoodList, dataManager, jacobian, jacobianType);
   }
 }
 
@@ -327,7 +327,12 @@ PeridigmNS::ElasticPlasticMaterial::computeAutomaticDifferentiationJacobian(cons
     }
 
     // Sum the values into the global tangent matrix (this is expensive).
-    jacobian.addValues((int)globalIndices.size(), &globalIndices[0], scratchMatrix.Data());
+    if (jacobianType == PeridigmNS::Material::FULL_MATRIX)
+      jacobian.addValues((int)globalIndices.size(), &globalIndices[0], scratchMatrix.Data());
+    else if (jacobianType == PeridigmNS::Material::BLOCK_DIAGONAL)
+      jacobian.addBlockDiagonalValues((int)globalIndices.size(), &globalIndices[0], scratchMatrix.Data());
+    else // unknown jacobian type
+      TEUCHOS_TEST_FOR_EXCEPT_MSG(true, "**** Unknown Jacobian Type\n");
   }
 }
 
-- 
2.43.0


From 0a155088ddc572bb60e8f15ae31c8592c2e4375e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:30 +0000
Subject: [PATCH 07/35] fix: do not scale bond stresses up to the yield surface

In the hypoelastic model with power-law hardening, a bond whose trial stress
lies below the hardened yield surface was scaled up to that surface. Treat
the step as elastic, as the point level update already does.
---
 src/materials/isotropic_hardening_correspondence.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/materials/isotropic_hardening_correspondence.cxx b/src/materials/isotropic_hardening_correspondence.cxx
index fd28185..aa41c46 100644
--- a/src/materials/isotropic_hardening_correspondence.cxx
+++ b/src/materials/isotropic_hardening_correspondence.cxx
@@ -979,6 +979,13 @@ void updateBondLevelElasticIsotropicPowerlawHardeningPlasticCauchyStress
           //Evaluate the extent of the yield surface
           yieldFunctionVal = yieldStress * pow(1.0 + *eqpsNP1 / hardeningCharacteristicStrain, hardeningExponent);
 
+          if(*vmStress <= yieldFunctionVal){
+            // hardening over the step has overtaken the trial stress, so the step is elastic
+            *eqpsNP1 = *eqpsN;
+            *triaxiality = (*stressXXNP1 + *stressYYNP1 + *stressZZNP1) / (3.0 * std::max(1.0e-20,*vmStress));
+            continue;
+          }
+
           // Now return the stress to the yield surface
 
           //multiply the trial deviatoric stress
-- 
2.43.0


From 5bc4a5b7985a15e66ea40ffee6de34781081e040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:15:42 +0000
Subject: [PATCH 08/35] fix: compute the stress triaxiality from the current
 stress

The hardening models reported the triaxiality of an earlier stress: at bond
level with saturation hardening it was computed before the stress was stored,
and at point level with power-law hardening it was skipped in elastic steps.
---
 src/materials/isotropic_hardening_correspondence.cxx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/materials/isotropic_hardening_correspondence.cxx b/src/materials/isotropic_hardening_correspondence.cxx
index aa41c46..beacaa6 100644
--- a/src/materials/isotropic_hardening_correspondence.cxx
+++ b/src/materials/isotropic_hardening_correspondence.cxx
@@ -606,9 +606,10 @@ void updateElasticIsotropicPowerlawHardeningPlasticCauchyStress
           *eqpsNP1 = *eqpsN;
         }
 
+      }
+
       // compute stress triaxiality
       *triaxiality = (*(stressNP1+0) + *(stressNP1+4) + *(stressNP1+8)) / (3.0 * std::max(1.0e-20,*vmStress));
-      }
     }
   }
 }
@@ -1365,12 +1366,12 @@ void updateBondLevelElasticIsotropicSaturationExponentialHardeningPlasticCauchyS
                                         linearConstant, 
                                         dt);
 
-      // compute stress triaxiality
-      *triaxiality = (*stressXXNP1 + *stressYYNP1 + *stressZZNP1) / (3.0 * std::max(1.0e-20,*vmStress));
-
       *stressXXNP1 = *(stressNP1+0); *stressXYNP1 = *(stressNP1+1); *stressXZNP1 = *(stressNP1+2); 
       *stressYXNP1 = *(stressNP1+3); *stressYYNP1 = *(stressNP1+4); *stressYZNP1 = *(stressNP1+5); 
       *stressZXNP1 = *(stressNP1+6); *stressZYNP1 = *(stressNP1+7); *stressZZNP1 = *(stressNP1+8); 
+
+      // compute stress triaxiality
+      *triaxiality = (*stressXXNP1 + *stressYYNP1 + *stressZZNP1) / (3.0 * std::max(1.0e-20,*vmStress));
     }
   }
 }
-- 
2.43.0


From 1cd2603bee82b6dbb6b588ba51561e45348bd702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:21 +0000
Subject: [PATCH 09/35] fix: keep time dependent bond damage across steps

---
 ...igm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp b/src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp
index c705cee..8eac61d 100644
--- a/src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp
+++ b/src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp
@@ -184,8 +184,8 @@ PeridigmNS::UserDefinedTimeDependentCriticalStretchDamageModel::computeDamage(co
   double nodeInitialX[3], nodeCurrentX[3], initialDistance, currentDistance, relativeExtension, totalDamage;
 
   // Set the bond damage to the previous value
-  dataManager.getData(m_bondDamageFieldId, PeridigmField::STEP_NP1) =
-    dataManager.getData(m_bondDamageFieldId, PeridigmField::STEP_N);
+  *(dataManager.getData(m_bondDamageFieldId, PeridigmField::STEP_NP1)) =
+    *(dataManager.getData(m_bondDamageFieldId, PeridigmField::STEP_N));
 
   // Update the bond damage
   // Break bonds if the extension is greater than the critical extension
-- 
2.43.0


From fbf1d521cb53c12c5df04ebe796b9ddf053674f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:12 +0000
Subject: [PATCH 10/35] fix: keep interface aware bond damage across steps

---
 src/damage/Peridigm_InterfaceAwareDamageModel.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/damage/Peridigm_InterfaceAwareDamageModel.cpp b/src/damage/Peridigm_InterfaceAwareDamageModel.cpp
index 7672cf1..f58df8e 100644
--- a/src/damage/Peridigm_InterfaceAwareDamageModel.cpp
+++ b/src/damage/Peridigm_InterfaceAwareDamageModel.cpp
@@ -135,6 +135,9 @@ PeridigmNS::InterfaceAwareDamageModel::computeDamage(const double dt,
   int nodeId, numNeighbors, neighborID, iID, iNID;
   double nodeInitialX[3], nodeCurrentX[3], initialDistance, currentDistance, relativeExtension, totalDamage;
 
+  // Set the bond damage to the previous value
+  *(dataManager.getData(m_bondDamageFieldId, PeridigmField::STEP_NP1)) = *(dataManager.getData(m_bondDamageFieldId, PeridigmField::STEP_N));
+
   // Update the bond damage
   // Break bonds if the extension is greater than the critical extension
   for(iID=0 ; iID<numOwnedPoints ; ++iID){
@@ -206,14 +209,14 @@ PeridigmNS::InterfaceAwareDamageModel::computeDamage(const double dt,
         cout << "Warning: Potentially rank deficient node detected (Node with 2 or less bonds). " << endl
              << "Node " << nodeId + 1 << " will be removed from the linear system." << endl;
         deficientSet->push_back(nodeId);
+      }
 
-        // if the node is removed from the linear system break all its bonds
-        bondIndex -= numNeighbors;
-        for(iNID=0 ; iNID<numNeighbors ; ++iNID){
-          bondDamage[bondIndex++] = 1.0;
-        }
-        totalDamage = numNeighbors;
+      // if the node is removed from the linear system break all its bonds
+      bondIndex -= numNeighbors;
+      for(iNID=0 ; iNID<numNeighbors ; ++iNID){
+        bondDamage[bondIndex++] = 1.0;
       }
+      totalDamage = numNeighbors;
     }
 
 
-- 
2.43.0


From a791b47ceb7bf4689477237a23fc2ebd7a0a8d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:32 +0000
Subject: [PATCH 11/35] fix: report the magnitude of the total momentum when
 there are several blocks

The global momenta were the sum of the magnitudes of each block.
---
 src/compute/Peridigm_Compute_Angular_Momentum.cpp | 5 ++++-
 src/compute/Peridigm_Compute_Linear_Momentum.cpp  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/compute/Peridigm_Compute_Angular_Momentum.cpp b/src/compute/Peridigm_Compute_Angular_Momentum.cpp
index 34b2549..93e86c5 100644
--- a/src/compute/Peridigm_Compute_Angular_Momentum.cpp
+++ b/src/compute/Peridigm_Compute_Angular_Momentum.cpp
@@ -85,6 +85,7 @@ int PeridigmNS::Compute_Angular_Momentum::computeAngularMomentum( Teuchos::RCP<
   int retval;
 
   double globalAM = 0.0;
+  std::vector<double> totalAngularMomentum(3, 0.0);
   Teuchos::RCP<Epetra_Vector> velocity,  arm, volume, angular_momentum;
   std::vector<Block>::iterator blockIt;
   for(blockIt = blocks->begin() ; blockIt != blocks->end() ; blockIt++)
@@ -152,7 +153,9 @@ int PeridigmNS::Compute_Angular_Momentum::computeAngularMomentum( Teuchos::RCP<
 
       epetraComm->SumAll(&localAngularMomentum[0], &globalAngularMomentum[0], 3);
 
-      globalAM += sqrt(globalAngularMomentum[0]*globalAngularMomentum[0] + globalAngularMomentum[1]*globalAngularMomentum[1] + globalAngularMomentum[2]*globalAngularMomentum[2]);
+      for (int i=0;i<3;i++)
+        totalAngularMomentum[i] += globalAngularMomentum[i];
+      globalAM = sqrt(totalAngularMomentum[0]*totalAngularMomentum[0] + totalAngularMomentum[1]*totalAngularMomentum[1] + totalAngularMomentum[2]*totalAngularMomentum[2]);
     }
   }
 
diff --git a/src/compute/Peridigm_Compute_Linear_Momentum.cpp b/src/compute/Peridigm_Compute_Linear_Momentum.cpp
index ac45d86..f710b1f 100644
--- a/src/compute/Peridigm_Compute_Linear_Momentum.cpp
+++ b/src/compute/Peridigm_Compute_Linear_Momentum.cpp
@@ -83,6 +83,7 @@ int PeridigmNS::Compute_Linear_Momentum::computeLinearMomentum( Teuchos::RCP< st
   int retval;
 
   double globalLM = 0.0;
+  std::vector<double> totalLinearMomentum(3, 0.0);
   Teuchos::RCP<Epetra_Vector> velocity, volume, linear_momentum;
   std::vector<Block>::iterator blockIt;
   for(blockIt = blocks->begin() ; blockIt != blocks->end() ; blockIt++)
@@ -145,7 +146,9 @@ int PeridigmNS::Compute_Linear_Momentum::computeLinearMomentum( Teuchos::RCP< st
 
       epetraComm->SumAll(&localLinearMomentum[0], &globalLinearMomentum[0], 3);
 
-      globalLM += sqrt(globalLinearMomentum[0]*globalLinearMomentum[0] + globalLinearMomentum[1]*globalLinearMomentum[1] + globalLinearMomentum[2]*globalLinearMomentum[2]);
+      for (int i=0;i<3;i++)
+        totalLinearMomentum[i] += globalLinearMomentum[i];
+      globalLM = sqrt(totalLinearMomentum[0]*totalLinearMomentum[0] + totalLinearMomentum[1]*totalLinearMomentum[1] + totalLinearMomentum[2]*totalLinearMomentum[2]);
     }
   }
 
-- 
2.43.0


From 4365379581d9f42c42ed555d818a2d69a1a8a8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:32 +0000
Subject: [PATCH 12/35] fix: report the maximum of block and node set data when
 all values are negative

---
 src/compute/Peridigm_Compute_Block_Data.cpp    | 2 +-
 src/compute/Peridigm_Compute_Node_Set_Data.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compute/Peridigm_Compute_Block_Data.cpp b/src/compute/Peridigm_Compute_Block_Data.cpp
index 4eb3fa0..18c1608 100644
--- a/src/compute/Peridigm_Compute_Block_Data.cpp
+++ b/src/compute/Peridigm_Compute_Block_Data.cpp
@@ -132,7 +132,7 @@ int PeridigmNS::Compute_Block_Data::compute( Teuchos::RCP< std::vector<PeridigmN
   }
   else if(m_calculationType == MAXIMUM){
     for(int i=0 ; i<3 ; ++i)
-      localData[i] = DBL_MIN;
+      localData[i] = -DBL_MAX;
   }
   else if(m_calculationType == SUM){
     for(int i=0 ; i<3 ; ++i)
diff --git a/src/compute/Peridigm_Compute_Node_Set_Data.cpp b/src/compute/Peridigm_Compute_Node_Set_Data.cpp
index 8a2f155..c5f05d3 100644
--- a/src/compute/Peridigm_Compute_Node_Set_Data.cpp
+++ b/src/compute/Peridigm_Compute_Node_Set_Data.cpp
@@ -149,7 +149,7 @@ int PeridigmNS::Compute_Node_Set_Data::compute( Teuchos::RCP< std::vector<Peridi
   }
   else if(m_calculationType == MAXIMUM){
     for(int i=0 ; i<3 ; ++i)
-      localData[i] = DBL_MIN;
+      localData[i] = -DBL_MAX;
   }
   else if(m_calculationType == SUM){
     for(int i=0 ; i<3 ; ++i)
-- 
2.43.0


From 98283953e1f653f920e93d460e3a629161123c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:48 +0000
Subject: [PATCH 13/35] fix: do not drop the last time step to round-off

The number of steps was the floor of the quotient of the simulated time and
the step, so for example 0.3/0.1 gave two steps.
---
 src/core/Peridigm.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index e1c7884..95f3c23 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -1319,10 +1319,12 @@ void PeridigmNS::Peridigm::executeExplicit(Teuchos::RCP<Teuchos::ParameterList>
   double timePrevious = timeCurrent;
   workset->timeStep = dt;
   double dt2 = dt/2.0;
-  int nsteps = static_cast<int>( floor((timeFinal-timeInitial)/dt) );
+  // The tolerance keeps round-off in the quotient from dropping the last time step
+  double numberOfSteps = floor((timeFinal-timeInitial)/dt*(1.0+1.0e-12));
+  int nsteps = static_cast<int>( numberOfSteps );
 
   // Check to make sure the number of time steps is sane
-  if(floor((timeFinal-timeInitial)/dt) > static_cast<double>(INT_MAX)){
+  if(numberOfSteps > static_cast<double>(INT_MAX)){
     if(peridigmComm->MyPID() == 0){
       cout << "WARNING:  The number of time steps exceed the maximum allowable value for an integer." << endl;
       cout << "          The number of steps will be reduced to " << INT_MAX << "." << endl;
@@ -3649,7 +3651,8 @@ void PeridigmNS::Peridigm::executeImplicit(Teuchos::RCP<Teuchos::ParameterList>
   double gamma                   = implicitParams->get("Gamma", 0.50);
   workset->timeStep = dt;
   double dt2 = dt*dt;
-  int nsteps = (int)floor((timeFinal-timeInitial)/dt);
+  // The tolerance keeps round-off in the quotient from dropping the last time step
+  int nsteps = (int)floor((timeFinal-timeInitial)/dt*(1.0+1.0e-12));
 
   // Pointer index into sub-vectors for use with BLAS
   double *xPtr, *uPtr, *yPtr, *vPtr, *aPtr;
-- 
2.43.0


From 089326d3ab7c4795654cd8e8b4624a01fe22d0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:05 +0000
Subject: [PATCH 14/35] fix: keep all digits of boundary condition values given
 as numbers

---
 src/core/Peridigm_BoundaryCondition.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/Peridigm_BoundaryCondition.cpp b/src/core/Peridigm_BoundaryCondition.cpp
index d1129f5..628e56e 100644
--- a/src/core/Peridigm_BoundaryCondition.cpp
+++ b/src/core/Peridigm_BoundaryCondition.cpp
@@ -71,6 +71,7 @@ PeridigmNS::BoundaryCondition::BoundaryCondition(const string & name_,
   coord = to_index(to_spatial_coordinate(bcParams));
   if(bcParams.isType<double>("Value")){
     std::stringstream ss;
+    ss.precision(17);
     ss << bcParams.get<double>("Value");
     bcParams.set("Value", ss.str());
   }
-- 
2.43.0


From 55ded43b24a5047ed81e3d9539d521dd90c4a7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:38 +0000
Subject: [PATCH 15/35] fix: reset the value of a boundary condition function
 before each evaluation

---
 src/core/Peridigm_BoundaryCondition.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/Peridigm_BoundaryCondition.cpp b/src/core/Peridigm_BoundaryCondition.cpp
index 628e56e..8ea6d3f 100644
--- a/src/core/Peridigm_BoundaryCondition.cpp
+++ b/src/core/Peridigm_BoundaryCondition.cpp
@@ -119,6 +119,8 @@ void PeridigmNS::BoundaryCondition::evaluateParser(const int & localNodeID, doub
   if(success)
     previousValue = rtcFunction->getValueOfVar("value");
   // evaluate at current time
+  if(success)
+    success = rtcFunction->varValueFill(4, 0.0);
   if(success)
     success = rtcFunction->varValueFill(3, timeCurrent);
   if(success)
-- 
2.43.0


From fce581afcfe092b666fc823410b98f7730963352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:39 +0000
Subject: [PATCH 16/35] fix: compute the deformation gradient of every block
 even if an earlier block has too few bonds

---
 src/compute/Peridigm_Compute_Deformation_Gradient.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compute/Peridigm_Compute_Deformation_Gradient.cpp b/src/compute/Peridigm_Compute_Deformation_Gradient.cpp
index 7c75889..36a3f5b 100644
--- a/src/compute/Peridigm_Compute_Deformation_Gradient.cpp
+++ b/src/compute/Peridigm_Compute_Deformation_Gradient.cpp
@@ -100,14 +100,14 @@ int PeridigmNS::Compute_Deformation_Gradient::compute( Teuchos::RCP< std::vector
     dataManager->getData(m_shapeTensorInverseFId, PeridigmField::STEP_NONE)->ExtractView(&shapeTensorInverse);
     dataManager->getData(m_deformationGradientFId, PeridigmField::STEP_NONE)->ExtractView(&deformationGradient);
 
-    retval = retval || CORRESPONDENCE::computeShapeTensorInverseAndApproximateDeformationGradient(volume,
+    retval = CORRESPONDENCE::computeShapeTensorInverseAndApproximateDeformationGradient(volume,
                                                                                                   horizon,
                                                                                                   modelCoordinates,
                                                                                                   coordinates,
                                                                                                   shapeTensorInverse,
                                                                                                   deformationGradient,
                                                                                                   neighborhoodList,
-                                                                                                  numOwnedPoints);
+                                                                                                  numOwnedPoints) || retval;
   }
 
   // Warn if retval not zero
-- 
2.43.0


From d7b5d65800c82e92574b122d4a278c642eae3a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:54 +0000
Subject: [PATCH 17/35] fix: account for initial displacements in the first
 contact search

---
 src/core/Peridigm.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index 95f3c23..e0a9b10 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -734,8 +734,11 @@ PeridigmNS::Peridigm::Peridigm(const MPI_Comm& comm,
 
   // Call rebalance function if analysis has contact
   // this is required to set up proper contact neighbor list
-  if(analysisHasContact)
+  // the current positions, including initial displacements, must be made available to the contact manager first
+  if(analysisHasContact){
+    contactManager->importData(volume, y, v);
     contactManager->rebalance(0);
+  }
 
   // Create service manager
   serviceManager = Teuchos::rcp(new PeridigmNS::ServiceManager());
-- 
2.43.0


From 4242fb7a3d6b2e40784195bc8ccfd9798ac21300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:40 +0000
Subject: [PATCH 18/35] fix: give interface aware damage models their boundary
 condition manager in explicit runs

The damage models are created anew in every explicit time step, but the new
interface aware model was not told of the boundary condition manager, so every
explicit run with this damage model was aborted in the first time step.
---
 src/core/Peridigm.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index e0a9b10..61476f4 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -1461,7 +1461,11 @@ void PeridigmNS::Peridigm::executeExplicit(Teuchos::RCP<Teuchos::ParameterList>
          Teuchos::ParameterList damageParams = damageModelParams.sublist(damageModelName, true);
          Teuchos::RCP<PeridigmNS::DamageModel> damageModel = damageModelFactory.create(damageParams);
          blockIt->setDamageModel(damageModel);
-         if(damageModel->Name() == "Time Dependent Critical Stretch"){
+         if(damageModel->Name() == "Interface Aware"){
+           Teuchos::RCP< PeridigmNS::InterfaceAwareDamageModel > IADamageModel = Teuchos::rcp_dynamic_cast< PeridigmNS::InterfaceAwareDamageModel >(damageModel);
+           IADamageModel->setBCManager(boundaryAndInitialConditionManager);
+         }
+         else if(damageModel->Name() == "Time Dependent Critical Stretch"){
            CSDamageModel = Teuchos::rcp_dynamic_cast< PeridigmNS::UserDefinedTimeDependentCriticalStretchDamageModel >(damageModel);
            CSDamageModel->evaluateParserDmg(currentValue, previousValue, timeCurrent, timePrevious);
          }
-- 
2.43.0


From def28083718e9e5f5be017fe603f727323ca9544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:10:28 +0000
Subject: [PATCH 19/35] fix: end adaptive load steps at the final time

With "Reduce all remaining load steps" the last load step could go beyond the
final time when the remaining time is no multiple of the reduced load step.
---
 src/core/Peridigm.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index 61476f4..2807695 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -2937,7 +2937,11 @@ void PeridigmNS::Peridigm::executeQuasiStatic(Teuchos::RCP<Teuchos::ParameterLis
       timeSteps.erase(timeSteps.begin()+step+1, timeSteps.end());
       int i=0;
       while(timeSteps[step+i]<timeFinal){
-        timeSteps.push_back(timeCurrent + (i+1)*timeIncrement);
+        double nextTime = timeCurrent + (i+1)*timeIncrement;
+        // End at the final time, without an additional load step of the size of the round-off
+        if(nextTime > timeFinal - 1.0e-6*timeIncrement)
+          nextTime = timeFinal;
+        timeSteps.push_back(nextTime);
         i++;
       }
     }
-- 
2.43.0


From d633c56bae55182b9cbe76aa7a2f2fc63c23754d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:40 +0000
Subject: [PATCH 20/35] fix: accept the user defined preconditioner in all load
 steps of matrix-free solves

The parameter is replaced internally in the first load step, and the replaced
value was then refused in the second one.
---
 src/core/Peridigm.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index 2807695..7d41a72 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -2317,7 +2317,8 @@ void PeridigmNS::Peridigm::executeNOXQuasiStatic(Teuchos::RCP<Teuchos::Parameter
       // are "None" and "User Defined"
       if(linearSystemParams->isParameter("Preconditioner")){
         std::string linSysPreconditioner = linearSystemParams->get<std::string>("Preconditioner");
-        TEUCHOS_TEST_FOR_EXCEPT_MSG(linSysPreconditioner != "User Defined" && linSysPreconditioner != "None",
+        // The value is changed to "AztecOO" below, which must be accepted in the load steps that follow the first one
+        TEUCHOS_TEST_FOR_EXCEPT_MSG(linSysPreconditioner != "User Defined" && linSysPreconditioner != "None" && !(step > 1 && linSysPreconditioner == "AztecOO"),
                                   "\n****Error:  Peridigm only supports \"Preconditioner = User Defined\" and \"Preconditioner = None\" for NOX with Jacobian Free Newton Krylov and the Peridigm Block 3x3 preconditioner.\n");
         // THIS IS A HACK TO GET AROUND APPARENT NOX LINEAR SYSTEM PARAMETER GLITCH
         // We are providing a preconditioner via the LinearSystemAztecOO constructor
-- 
2.43.0


From 0d54ae4f79752718f5ea5d0beafd4d63386ca3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:08:01 +0000
Subject: [PATCH 21/35] fix: evaluate body forces at the end of implicit time
 steps

The implicit time integration solves for the accelerations at the end of a time
step, but evaluated the external forces at its start.
---
 src/core/Peridigm.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index 7d41a72..5e51396 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -3730,6 +3730,9 @@ void PeridigmNS::Peridigm::executeImplicit(Teuchos::RCP<Teuchos::ParameterList>
     if(peridigmComm->MyPID() == 0)
       cout << "Load step " << step << ", initial time = " << step*dt << ", final time = " << (step+1)*dt << endl;
 
+    timePrevious = timeCurrent;
+    timeCurrent = timeInitial + (step+1)*dt;
+
     *un = *u;
     *vn = *v;
     *an = *a;
@@ -4015,9 +4018,6 @@ void PeridigmNS::Peridigm::executeImplicit(Teuchos::RCP<Teuchos::ParameterList>
     if(peridigmComm->MyPID() == 0)
       cout << "  iteration " << NLSolverIteration << ": residual = " << residualNorm << "\n" << endl;
 
-    timePrevious = timeCurrent;
-    timeCurrent = timeInitial + (step+1)*dt;
-
     // Write output for completed time step
     PeridigmNS::Timer::self().startTimer("Output");
     synchDataManagers();
-- 
2.43.0


From 2d3344aa6db8f8d87afaa0fe4873b888c9bebd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:12:39 +0000
Subject: [PATCH 22/35] fix: apply moving boundary conditions in implicit time
 integration

Prescribed displacements and temperatures were applied at the initial time only,
so points with a prescribed motion stayed where they were.
---
 src/core/Peridigm.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index 5e51396..504c623 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -3767,6 +3767,17 @@ void PeridigmNS::Peridigm::executeImplicit(Teuchos::RCP<Teuchos::ParameterList>
     // Fill the owned vectors with probe data
     // Assign predictor (use u2)
     u->Update(1.0, *u2, 0.0);
+    // Prescribed displacements are given by the boundary conditions, the solver does not change them
+    deltaU->PutScalar(0.0);
+    PeridigmNS::Timer::self().startTimer("Apply Kinematic B.C.");
+    boundaryAndInitialConditionManager->applyBoundaryConditions(timeCurrent,timePrevious);
+    PeridigmNS::Timer::self().stopTimer("Apply Kinematic B.C.");
+    residual->PutScalar(1.0);
+    boundaryAndInitialConditionManager->applyKinematicBC_InsertZeros(residual);
+    for(int i=0 ; i<u->MyLength() ; i+=3)
+      for(int j=0 ; j<3 ; ++j)
+        if((*residual)[(3+numMultiphysDoFs)*i/3+j] == 0.0)
+          (*u)[i+j] = (*un)[i+j] + (*deltaU)[i+j];
     // a = (1.0/(beta*dt*dt))*(u_np1 - u2);
     // a will be zero unless a different predictor is used, so do the following computation anyway
     a->Update(1.0, *u, -1.0, *u2, 0.0);
-- 
2.43.0


From 02317583baae44f9a22e2dde400021b8b3ac3b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:13 +0000
Subject: [PATCH 23/35] fix: collect rank deficient nodes by their global ids

The interface aware damage model put local ids into the node set, so the wrong
nodes were removed from the linear system with several blocks or processes.
---
 src/damage/Peridigm_InterfaceAwareDamageModel.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/damage/Peridigm_InterfaceAwareDamageModel.cpp b/src/damage/Peridigm_InterfaceAwareDamageModel.cpp
index f58df8e..b82d59e 100644
--- a/src/damage/Peridigm_InterfaceAwareDamageModel.cpp
+++ b/src/damage/Peridigm_InterfaceAwareDamageModel.cpp
@@ -197,18 +197,20 @@ PeridigmNS::InterfaceAwareDamageModel::computeDamage(const double dt,
 
     if(totalDamage >= numNeighbors-2) // This would imply rank deficiency and would lead to problems in CG
     {
+      // Node sets contain global ids
+      const int globalId = dataManager.getOverlapScalarPointMap()->GID(nodeId);
       const string deficientSetName = "RANK_DEFICIENT_NODES";
       TEUCHOS_TEST_FOR_EXCEPTION(nodeSetMap->find(deficientSetName)==nodeSetMap->end(),std::logic_error,"Error: The placeholder nodeset for rank deficient nodes is missing.");
       bool nodeAlreadyRegistered = false;
       vector<int> * deficientSet = &nodeSetMap->find(deficientSetName)->second;
       for(unsigned i=0;i<deficientSet->size();++i)
-        if((*deficientSet)[i]==nodeId)
+        if((*deficientSet)[i]==globalId)
           nodeAlreadyRegistered = true;
 
       if(!nodeAlreadyRegistered){
         cout << "Warning: Potentially rank deficient node detected (Node with 2 or less bonds). " << endl
-             << "Node " << nodeId + 1 << " will be removed from the linear system." << endl;
-        deficientSet->push_back(nodeId);
+             << "Node " << globalId + 1 << " will be removed from the linear system." << endl;
+        deficientSet->push_back(globalId);
       }
 
       // if the node is removed from the linear system break all its bonds
-- 
2.43.0


From bc0af625713ef65b61d594b1674df765da5fefc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:07 +0000
Subject: [PATCH 24/35] fix: keep all digits of the time in restart data

The time was written with six digits and compared exactly with the initial time
of the run that resumes, so runs that had stopped at a time with more digits
could not be resumed.
---
 src/core/Peridigm.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index 504c623..0f568a1 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -53,6 +53,7 @@
 #include <iostream>
 #include <sstream>
 #include <fstream>
+#include <iomanip>
 #include <vector>
 #include <map>
 #include <string>
@@ -4491,7 +4492,7 @@ void PeridigmNS::Peridigm::writeRestart(Teuchos::RCP<Teuchos::ParameterList> sol
   currentTime += solverParams->get("Final Time", 1.0)-timeInitial;
   ofstream outputFile;
   outputFile.open(restartFiles["currentTime"].c_str());
-  outputFile << "Current time is " << "\n" << currentTime  << "\n";
+  outputFile << "Current time is " << "\n" << std::setprecision(17) << currentTime  << "\n";
   outputFile.close();
   }
   if(analysisHasMultiphysics){
@@ -4574,7 +4575,8 @@ void PeridigmNS::Peridigm::readRestart(Teuchos::RCP<Teuchos::ParameterList> solv
     cout <<"Reading restart. \n"<< endl;
     cout.flush();
     double timeInitial = solverParams->get("Initial Time", 0.0);
-    if (currentTime != timeInitial){
+    // Allow for round-off, and for times rounded to the six digits of former restart files
+    if (std::abs(currentTime - timeInitial) > 1.0e-5*std::max(std::abs(currentTime), std::abs(timeInitial))){
       char timeError[251];
       sprintf(timeError, "Error, Incompatible times:\nPrevious restart final time is %e, while initial time is %e.\n",currentTime,timeInitial);
       TEUCHOS_TEST_FOR_EXCEPT_MSG(true,timeError);
-- 
2.43.0


From 8811e9614fa0e5d213fc1aad954e6426d5ec6094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:02:28 +0000
Subject: [PATCH 25/35] fix: refuse incomplete restart data

A restart file that is missing or cut short was not noticed, and the run went on
with the values of the file read before it.
---
 src/core/Peridigm.cpp       | 36 +++++++++++++++++++++---------------
 src/core/Peridigm_State.cpp |  6 ++++--
 2 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index 0f568a1..702396b 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -4554,6 +4554,12 @@ void PeridigmNS::Peridigm::writeRestart(Teuchos::RCP<Teuchos::ParameterList> sol
   }
 }
 
+// Read a vector from a restart file; incomplete restart data must not be used
+static void readRestartVector(const std::string& fileName, const Epetra_BlockMap& map, Epetra_Vector *& vector){
+  int err = EpetraExt::MatrixMarketFileToVector(fileName.c_str(), map, vector);
+  TEUCHOS_TEST_FOR_TERMINATION(err != 0, "**** Error: Restart file " + fileName + " is missing or incomplete.\n");
+}
+
 void PeridigmNS::Peridigm::readRestart(Teuchos::RCP<Teuchos::ParameterList> solverParams){
   double* UpdatePtr;
   double* oldPtr;
@@ -4592,63 +4598,63 @@ void PeridigmNS::Peridigm::readRestart(Teuchos::RCP<Teuchos::ParameterList> solv
     }
   }else{
     //read block ID
-    EpetraExt::MatrixMarketFileToVector(restartFiles["blockIDs"].c_str(), *oneDimensionalMap, vectorUpdate);
+    readRestartVector(restartFiles["blockIDs"], *oneDimensionalMap, vectorUpdate);
     vectorUpdate->ExtractView(&UpdatePtr);
     blockIDs->ExtractView(&oldPtr);
     blas.COPY(blockIDs->MyLength(), UpdatePtr, oldPtr);
     //read horizon for each point
-    EpetraExt::MatrixMarketFileToVector(restartFiles["horizon"].c_str(), *oneDimensionalMap, vectorUpdate);
+    readRestartVector(restartFiles["horizon"], *oneDimensionalMap, vectorUpdate);
     vectorUpdate->ExtractView(&UpdatePtr);
     horizon->ExtractView(&oldPtr);
     blas.COPY(horizon->MyLength(), UpdatePtr, oldPtr);
     //read cell volume
-    EpetraExt::MatrixMarketFileToVector(restartFiles["volume"].c_str(), *oneDimensionalMap, vectorUpdate);
+    readRestartVector(restartFiles["volume"], *oneDimensionalMap, vectorUpdate);
     vectorUpdate->ExtractView(&UpdatePtr);
     volume->ExtractView(&oldPtr);
     blas.COPY(volume->MyLength(), UpdatePtr, oldPtr);
     //read density
-    EpetraExt::MatrixMarketFileToVector(restartFiles["density"].c_str(), *oneDimensionalMap, vectorUpdate);
+    readRestartVector(restartFiles["density"], *oneDimensionalMap, vectorUpdate);
     vectorUpdate->ExtractView(&UpdatePtr);
     density->ExtractView(&oldPtr);
     blas.COPY(density->MyLength(), UpdatePtr, oldPtr);
     //read change in temperature
-    EpetraExt::MatrixMarketFileToVector(restartFiles["deltaTemperature"].c_str(), *oneDimensionalMap, vectorUpdate);
+    readRestartVector(restartFiles["deltaTemperature"], *oneDimensionalMap, vectorUpdate);
     vectorUpdate->ExtractView(&UpdatePtr);
     deltaTemperature->ExtractView(&oldPtr);
     blas.COPY(deltaTemperature->MyLength(), UpdatePtr, oldPtr);
   }
     //read initial positions
-    EpetraExt::MatrixMarketFileToVector(restartFiles["x"].c_str(), *threeDimensionalMap, vectorUpdate);
+    readRestartVector(restartFiles["x"], *threeDimensionalMap, vectorUpdate);
     vectorUpdate->ExtractView(&UpdatePtr);
     x->ExtractView(&oldPtr);
     blas.COPY(x->MyLength(), UpdatePtr, oldPtr);
     //read displacement
-    EpetraExt::MatrixMarketFileToVector(restartFiles["u"].c_str(), *threeDimensionalMap, vectorUpdate);
+    readRestartVector(restartFiles["u"], *threeDimensionalMap, vectorUpdate);
     vectorUpdate->ExtractView(&UpdatePtr);
     u->ExtractView(&oldPtr);
     blas.COPY(u->MyLength(), UpdatePtr, oldPtr);
     //read current positions
-    EpetraExt::MatrixMarketFileToVector(restartFiles["y"].c_str(), *threeDimensionalMap, vectorUpdate);
+    readRestartVector(restartFiles["y"], *threeDimensionalMap, vectorUpdate);
     vectorUpdate->ExtractView(&UpdatePtr);
     y->ExtractView(&oldPtr);
     blas.COPY(y->MyLength(), UpdatePtr, oldPtr);
     //read velocities
-    EpetraExt::MatrixMarketFileToVector(restartFiles["v"].c_str(), *threeDimensionalMap, vectorUpdate);
+    readRestartVector(restartFiles["v"], *threeDimensionalMap, vectorUpdate);
     vectorUpdate->ExtractView(&UpdatePtr);
     v->ExtractView(&oldPtr);
     blas.COPY(v->MyLength(), UpdatePtr, oldPtr);
     //read accelerations
-    EpetraExt::MatrixMarketFileToVector(restartFiles["a"].c_str(), *threeDimensionalMap, vectorUpdate);
+    readRestartVector(restartFiles["a"], *threeDimensionalMap, vectorUpdate);
     vectorUpdate->ExtractView(&UpdatePtr);
     a->ExtractView(&oldPtr);
     blas.COPY(a->MyLength(), UpdatePtr, oldPtr);
     //read force
-    EpetraExt::MatrixMarketFileToVector(restartFiles["force"].c_str(), *threeDimensionalMap, vectorUpdate);
+    readRestartVector(restartFiles["force"], *threeDimensionalMap, vectorUpdate);
     vectorUpdate->ExtractView(&UpdatePtr);
     force->ExtractView(&oldPtr);
     blas.COPY(force->MyLength(), UpdatePtr, oldPtr);
     //read contact force
-    EpetraExt::MatrixMarketFileToVector(restartFiles["contactForce"].c_str(), *threeDimensionalMap, vectorUpdate);
+    readRestartVector(restartFiles["contactForce"], *threeDimensionalMap, vectorUpdate);
     vectorUpdate->ExtractView(&UpdatePtr);
     contactForce->ExtractView(&oldPtr);
     blas.COPY(contactForce->MyLength(), UpdatePtr, oldPtr);
@@ -4656,17 +4662,17 @@ void PeridigmNS::Peridigm::readRestart(Teuchos::RCP<Teuchos::ParameterList> solv
     UpdatePtr = 0;
     oldPtr = 0;
     //read external force
-    EpetraExt::MatrixMarketFileToVector(restartFiles["externalForce"].c_str(), *threeDimensionalMap, vectorUpdate);
+    readRestartVector(restartFiles["externalForce"], *threeDimensionalMap, vectorUpdate);
     vectorUpdate->ExtractView(&UpdatePtr);
     externalForce->ExtractView(&oldPtr);
     blas.COPY(externalForce->MyLength(), UpdatePtr, oldPtr);
     //read deltaU (increment in displacement)
-    EpetraExt::MatrixMarketFileToVector(restartFiles["deltaU"].c_str(), *threeDimensionalMap, vectorUpdate);
+    readRestartVector(restartFiles["deltaU"], *threeDimensionalMap, vectorUpdate);
     vectorUpdate->ExtractView(&UpdatePtr);
     deltaU->ExtractView(&oldPtr);
     blas.COPY(deltaU->MyLength(), UpdatePtr, oldPtr);
     //read scratch
-    EpetraExt::MatrixMarketFileToVector(restartFiles["scratch"].c_str(), *threeDimensionalMap, vectorUpdate);
+    readRestartVector(restartFiles["scratch"], *threeDimensionalMap, vectorUpdate);
     vectorUpdate->ExtractView(&UpdatePtr);
     scratch->ExtractView(&oldPtr);
     blas.COPY(scratch->MyLength(), UpdatePtr, oldPtr);
diff --git a/src/core/Peridigm_State.cpp b/src/core/Peridigm_State.cpp
index 74d6cc6..e1f0d94 100644
--- a/src/core/Peridigm_State.cpp
+++ b/src/core/Peridigm_State.cpp
@@ -193,14 +193,16 @@ void PeridigmNS::State::readStateData(Teuchos::RCP<PeridigmNS::State> source,  s
   for(unsigned int i=0 ; i<pointData.size() ; ++i){
     if(!pointData[i].is_null()){
       sprintf(VectorName,"%s%s_Element%d",blockName.c_str(),stateName.c_str(),i);
-      EpetraExt::MatrixMarketFileToMultiVector(restartStateFiles[VectorName].c_str(),(source->getPointMultiVector(i))->Map(), MultiVectorUpdate);
+      int err = EpetraExt::MatrixMarketFileToMultiVector(restartStateFiles[VectorName].c_str(),(source->getPointMultiVector(i))->Map(), MultiVectorUpdate);
+      TEUCHOS_TEST_FOR_TERMINATION(err != 0, "**** Error: Restart file " + restartStateFiles[VectorName] + " is missing or incomplete.\n");
       copyLocallyOwnedMultiVectorData( *MultiVectorUpdate, *pointData[i] );
     }
   }
 
   if(!bondData.is_null()){
     sprintf(VectorName,"%s%s",blockName.c_str(),stateName.c_str());
-    EpetraExt::MatrixMarketFileToMultiVector(restartStateFiles[VectorName].c_str(),source->getBondMultiVector()->Map(), MultiVectorUpdate);
+    int err = EpetraExt::MatrixMarketFileToMultiVector(restartStateFiles[VectorName].c_str(),source->getBondMultiVector()->Map(), MultiVectorUpdate);
+    TEUCHOS_TEST_FOR_TERMINATION(err != 0, "**** Error: Restart file " + restartStateFiles[VectorName] + " is missing or incomplete.\n");
     copyLocallyOwnedMultiVectorData( *MultiVectorUpdate, *bondData );
   }
 }
-- 
2.43.0


From a6af50b8c530e82905910acadcfa64d2ef249212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:30:44 +0000
Subject: [PATCH 26/35] fix: stop all processes when restart times do not match

Only the first process stopped, and the others waited for it forever.
---
 src/core/Peridigm.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index 702396b..a0feec7 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -4576,10 +4576,12 @@ void PeridigmNS::Peridigm::readRestart(Teuchos::RCP<Teuchos::ParameterList> solv
       outputFile.close();
     }
     currentTime = atof(data.c_str());
-  }
-  if(peridigmComm->MyPID() == 0){
     cout <<"Reading restart. \n"<< endl;
     cout.flush();
+  }
+  // All processes must stop if the times do not match
+  peridigmComm->Broadcast(&currentTime, 1, 0);
+  {
     double timeInitial = solverParams->get("Initial Time", 0.0);
     // Allow for round-off, and for times rounded to the six digits of former restart files
     if (std::abs(currentTime - timeInitial) > 1.0e-5*std::max(std::abs(currentTime), std::abs(timeInitial))){
-- 
2.43.0


From c5155d84a63ee968eea488d66c36517e5a60abb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:26:33 +0000
Subject: [PATCH 27/35] fix: let a field store hold only stateless or only
 stateful data

---
 src/core/Peridigm_DataManager.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/Peridigm_DataManager.cpp b/src/core/Peridigm_DataManager.cpp
index 9da5bd9..67361e9 100644
--- a/src/core/Peridigm_DataManager.cpp
+++ b/src/core/Peridigm_DataManager.cpp
@@ -298,6 +298,9 @@ void PeridigmNS::DataManager::scatterToGhosts()
     else if(iState == 2)
       state = stateNP1;
 
+    if(state.is_null())
+      continue;
+
     for(int iMultiVector = 0 ; iMultiVector < state->getMaxPointDataElementSize() ; ++iMultiVector){
 
       PeridigmField::Length length;      
@@ -516,13 +519,13 @@ bool PeridigmNS::DataManager::hasData(int fieldId, PeridigmField::Step step)
 
   // Check for data in State objects
   if(step == PeridigmField::STEP_NONE){
-    hasData = stateNONE->hasData(fieldId);
+    hasData = !stateNONE.is_null() && stateNONE->hasData(fieldId);
   }
   else if(step == PeridigmField::STEP_N){
-    hasData = stateN->hasData(fieldId);
+    hasData = !stateN.is_null() && stateN->hasData(fieldId);
   }
   else if(step == PeridigmField::STEP_NP1){
-    hasData = stateNP1->hasData(fieldId);
+    hasData = !stateNP1.is_null() && stateNP1->hasData(fieldId);
   }
   else{
     TEUCHOS_TEST_FOR_EXCEPTION(false, Teuchos::RangeError,
-- 
2.43.0


From a71ba8963f648f7686339cf135107ad825096363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:26:33 +0000
Subject: [PATCH 28/35] fix: keep points unique when load balancing is repeated

---
 src/io/pdneigh/PdZoltan.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/pdneigh/PdZoltan.cxx b/src/io/pdneigh/PdZoltan.cxx
index a334005..3d2aee7 100644
--- a/src/io/pdneigh/PdZoltan.cxx
+++ b/src/io/pdneigh/PdZoltan.cxx
@@ -234,6 +234,9 @@ QuickGridData& getLoadBalancedDiscretization(QuickGridData& pdGridData){
 //  std::cout << "getLoadBalancedDiscretization(QuickGridData& pdGridData) A"  << std::endl; std::cout.flush();
   pdGridData.zoltanPtr = shared_ptr<struct Zoltan_Struct>(zoltan,ZoltanDestroyer());
 
+  // An earlier load balancing may have left this flag cleared
+  pdGridData.unPack = true;
+
   /* Query functions, to provide geometry to Zoltan */
 
 
-- 
2.43.0


From 771b110f39bd462003083107049213c89af59977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:26:33 +0000
Subject: [PATCH 29/35] fix: list every ray of a cylinder only once when the
 horizon wraps around

---
 src/io/mesh_input/quick_grid/QuickGrid.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/mesh_input/quick_grid/QuickGrid.h b/src/io/mesh_input/quick_grid/QuickGrid.h
index acc0848..ec8b5d8 100644
--- a/src/io/mesh_input/quick_grid/QuickGrid.h
+++ b/src/io/mesh_input/quick_grid/QuickGrid.h
@@ -155,7 +155,7 @@ public:
     /*
      * Number of cells in the horizon -- includes "this (ray)" cell
      */
-    size_t numCells() const { return 2*horizon+1; }
+    size_t numCells() const { return 2*horizon+1 < numRays ? 2*horizon+1 : numRays; }
     /*
      * Next cell in the horizon; returns -1 if function was improperly called
      */
-- 
2.43.0


From 7635e87898b5d659b3466fb72acd10dc7e2e62ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:28:25 +0000
Subject: [PATCH 30/35] fix: place cylinder grids at the requested center

---
 src/io/mesh_input/quick_grid/QuickGrid.cxx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/io/mesh_input/quick_grid/QuickGrid.cxx b/src/io/mesh_input/quick_grid/QuickGrid.cxx
index e361074..4b753f4 100644
--- a/src/io/mesh_input/quick_grid/QuickGrid.cxx
+++ b/src/io/mesh_input/quick_grid/QuickGrid.cxx
@@ -1425,6 +1425,7 @@ std::pair<Cell3D,QuickGridData> TensorProductCylinderMeshGenerator::computePdGri
   size_t iStart = cellLocator.i;
 
   size_t cell = 0;
+  const Vector3D center = ringSpec.getCenter();
   double point[3]={0.0,0.0,0.0};
   double pointNeighbor[3] = {0.0,0.0,0.0};
   for(size_t k=kStart;k<nz && cell<myNumCells;k++){
@@ -1446,8 +1447,8 @@ std::pair<Cell3D,QuickGridData> TensorProductCylinderMeshGenerator::computePdGri
         *gidsPtr = i + j * nx + k * nx * ny; gidsPtr++;
 
         double r = x[i];
-        point[0] = r * c;
-        point[1] = r * s;
+        point[0] = r * c + center[0];
+        point[1] = r * s + center[1];
         // copy point data
         for(size_t p=0;p<3;p++,XPtr++)
           *XPtr = point[p];
@@ -1477,8 +1478,8 @@ std::pair<Cell3D,QuickGridData> TensorProductCylinderMeshGenerator::computePdGri
               double theta = y[jj];
               double c = cos(theta);
               double s = sin(theta);
-              pointNeighbor[0] = r * c;
-              pointNeighbor[1] = r * s;
+              pointNeighbor[0] = r * c + center[0];
+              pointNeighbor[1] = r * s + center[1];
               pointNeighbor[2] = z[kk];
 
               if(norm(pointNeighbor,point,horizonRadius)){
-- 
2.43.0


From 3f0dcc14caf7b9faccc812c01415459c0495dc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:28:25 +0000
Subject: [PATCH 31/35] fix: allow coincident points in the k-d tree

---
 src/io/kdtree.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/io/kdtree.h b/src/io/kdtree.h
index 3593512..b52a886 100644
--- a/src/io/kdtree.h
+++ b/src/io/kdtree.h
@@ -485,6 +485,20 @@ find_median
 
   struct span_axis<value_type> a = get_spanning_axis<value_type,ordinal_type>(p,tree_size);
 
+  /*
+   * all points coincide: there is no splitting value, split by number of points
+   */
+  if(*(p[a.axis])==*(p[a.axis]+(tree_size-1))){
+    struct median<value_type,ordinal_type> _median;
+    _median.left_tree_size=tree_size/2;
+    _median.id=*(p[a.axis].map_iterator()+_median.left_tree_size);
+    _median.axis=a.axis;
+    _median.cut=a.cut;
+    for(int i=0;i<3;i++)
+      _median.p[i]=p[i];
+    return _median;
+  }
+
   /*
    * iterator for spanning axis and coordinate data
    */
-- 
2.43.0


From 5db80cc2e9ad1d7977f9b64816e876fda726fc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:28:25 +0000
Subject: [PATCH 32/35] fix: report an element that contains a sphere as
 intersecting it

---
 .../discretization/Peridigm_GeometryUtils.cpp | 36 ++++++++++++++++---
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/io/discretization/Peridigm_GeometryUtils.cpp b/src/io/discretization/Peridigm_GeometryUtils.cpp
index 6024ff4..8098e7e 100644
--- a/src/io/discretization/Peridigm_GeometryUtils.cpp
+++ b/src/io/discretization/Peridigm_GeometryUtils.cpp
@@ -571,6 +571,22 @@ PeridigmNS::SphereIntersection PeridigmNS::triangleSphereIntersection(const std:
   return INTERSECTS_SPHERE;
 }
 
+// Are two points on the same side of the plane of a triangle?
+static bool onSameSide(const std::vector<double*>& triangle,
+                       const double* const a,
+                       const double* const b)
+{
+  double e1[3], e2[3], normal[3], da[3], db[3], sideA, sideB;
+  PeridigmNS::subtract(triangle[1], triangle[0], e1);
+  PeridigmNS::subtract(triangle[2], triangle[0], e2);
+  PeridigmNS::cross(e1, e2, normal);
+  PeridigmNS::subtract(a, triangle[0], da);
+  PeridigmNS::subtract(b, triangle[0], db);
+  PeridigmNS::dot(normal, da, &sideA);
+  PeridigmNS::dot(normal, db, &sideB);
+  return sideA*sideB > 0.0;
+}
+
 PeridigmNS::SphereIntersection PeridigmNS::tetrahedronSphereIntersection(double* const nodeCoordinates,
                                                                         const std::vector<double>& sphereCenter,
                                                                         double sphereRadius)
@@ -596,9 +612,14 @@ PeridigmNS::SphereIntersection PeridigmNS::tetrahedronSphereIntersection(double*
   // If all the nodes are outside the sphere, we need to look carefully at each face
 
   SphereIntersection sphereIntersection;
-  bool allInside(true), allOutside(true);
+  bool allInside(true), allOutside(true), containsCenter(true);
   std::vector<double*> coord(3);
 
+  // Barycenter of the nodes
+  double barycenter[3] = {0.0, 0.0, 0.0};
+  for(int i=0 ; i<12 ; i++)
+    barycenter[i%3] += nodeCoordinates[i]/4.0;
+
   // Pointers to each node
   double* n0 = nodeCoordinates;
   double* n1 = nodeCoordinates + 3;
@@ -629,6 +650,7 @@ PeridigmNS::SphereIntersection PeridigmNS::tetrahedronSphereIntersection(double*
     }
 
     sphereIntersection = triangleSphereIntersection(coord, sphereCenter, sphereRadius);
+    containsCenter = containsCenter && onSameSide(coord, barycenter, &sphereCenter[0]);
     if(sphereIntersection == INTERSECTS_SPHERE)
       return INTERSECTS_SPHERE;
     else if(sphereIntersection == INSIDE_SPHERE)
@@ -641,7 +663,7 @@ PeridigmNS::SphereIntersection PeridigmNS::tetrahedronSphereIntersection(double*
   TEUCHOS_TEST_FOR_TERMINATION(!allInside && !allOutside, "\n**** Error:  Nonsense result in tetrahedronSphereIntersection().\n");
 
   if(allOutside)
-    return OUTSIDE_SPHERE;
+    return containsCenter ? INTERSECTS_SPHERE : OUTSIDE_SPHERE;
   return INSIDE_SPHERE;
 }
 
@@ -673,9 +695,14 @@ PeridigmNS::SphereIntersection PeridigmNS::hexahedronSphereIntersection(double*
   // Check for intersection of triangles and sphere
 
   SphereIntersection sphereIntersection;
-  bool allInside(true), allOutside(true);
+  bool allInside(true), allOutside(true), containsCenter(true);
   std::vector<double*> coord(3);
 
+  // Barycenter of the nodes
+  double barycenter[3] = {0.0, 0.0, 0.0};
+  for(int i=0 ; i<24 ; i++)
+    barycenter[i%3] += nodeCoordinates[i]/8.0;
+
   // Pointers to each node
   double* n0 = nodeCoordinates;
   double* n1 = nodeCoordinates + 3;
@@ -834,6 +861,7 @@ PeridigmNS::SphereIntersection PeridigmNS::hexahedronSphereIntersection(double*
       }
 
       sphereIntersection = triangleSphereIntersection(coord, sphereCenter, sphereRadius);
+      containsCenter = containsCenter && onSameSide(coord, barycenter, &sphereCenter[0]);
       if(sphereIntersection == INTERSECTS_SPHERE)
         return INTERSECTS_SPHERE;
       else if(sphereIntersection == INSIDE_SPHERE)
@@ -847,7 +875,7 @@ PeridigmNS::SphereIntersection PeridigmNS::hexahedronSphereIntersection(double*
   TEUCHOS_TEST_FOR_TERMINATION(!allInside && !allOutside, "\n**** Error:  Nonsense result in hexahedronSphereIntersection().\n");
 
   if(allOutside)
-    return OUTSIDE_SPHERE;
+    return containsCenter ? INTERSECTS_SPHERE : OUTSIDE_SPHERE;
   return INSIDE_SPHERE;
 }
 
-- 
2.43.0


From 8d41ac7757bc35ab8adcd9167bae7ddf3191c920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:30:02 +0000
Subject: [PATCH 33/35] fix: do not accept implicit time steps that have not
 converged

---
 src/core/Peridigm.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index a0feec7..6e6b9c9 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -4030,6 +4030,20 @@ void PeridigmNS::Peridigm::executeImplicit(Teuchos::RCP<Teuchos::ParameterList>
     if(peridigmComm->MyPID() == 0)
       cout << "  iteration " << NLSolverIteration << ": residual = " << residualNorm << "\n" << endl;
 
+    // If the solver did not converge, accept the solution if the residual is within a reasonable tolerance,
+    // otherwise abort the analysis (same rule as for quasi-statics).
+    if( !(residualNorm <= absoluteTolerance) ){
+      if(residualNorm < 100.0*absoluteTolerance){
+        if(peridigmComm->MyPID() == 0)
+          cout << "\nWarning:  Accepting current solution and progressing to next load step.\n" << endl;
+      }
+      else{
+        if(peridigmComm->MyPID() == 0)
+          cout << "\nError:  Aborting analysis.\n" << endl;
+        break;
+      }
+    }
+
     // Write output for completed time step
     PeridigmNS::Timer::self().startTimer("Output");
     synchDataManagers();
-- 
2.43.0


From 4b65d07f2274e0651d71317cb536a268d3f57f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:30:02 +0000
Subject: [PATCH 34/35] fix: use the tangent per unit volume in implicit time
 integration

---
 src/core/Peridigm.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index 6e6b9c9..ac2b893 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -4370,11 +4370,18 @@ void PeridigmNS::Peridigm::computeImplicitJacobian(double beta, double dt) {
   // tangent = M - beta*dt*dt*K
   tangent->Scale(-beta*dt*dt);
 
+  // The residual is per unit volume, whereas the rows of K are multiplied by the nodal volume
+  const int numDof = 3 + numMultiphysDoFs;
+  Epetra_Vector reciprocalVolume(tangent->RowMap());
+  for(int i=0 ; i<reciprocalVolume.MyLength() ; ++i)
+    reciprocalVolume[i] = 1.0/(*volume)[i/numDof];
+  tangent->LeftScale(reciprocalVolume);
+
   //TODO: esp this part
   Epetra_Vector diagonal(tangent->RowMap());
   tangent->ExtractDiagonalCopy(diagonal);
   for(int i=0 ; i<diagonal.MyLength() ; ++i)
-    diagonal[i] += (*density)[i/3];
+    diagonal[i] += (*density)[i/numDof];
   tangent->ReplaceDiagonalValues(diagonal);
 }
 
-- 
2.43.0


From 55e0ba5716ca3b540de3a78ea855ea85150925a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:57:42 +0000
Subject: [PATCH 35/35] fix: use the returned stress as direction of the
 plastic strain increment

---
 src/materials/elastic_plastic_correspondence.cxx        | 5 +++++
 src/materials/isotropic_hardening_correspondence.cxx    | 3 +++
 src/materials/viscoplastic_needleman_correspondence.cxx | 1 +
 3 files changed, 9 insertions(+)

diff --git a/src/materials/elastic_plastic_correspondence.cxx b/src/materials/elastic_plastic_correspondence.cxx
index 43417b9..6350c0f 100644
--- a/src/materials/elastic_plastic_correspondence.cxx
+++ b/src/materials/elastic_plastic_correspondence.cxx
@@ -174,6 +174,7 @@ void updateElasticPerfectlyPlasticCauchyStress
         }
 
         *vmStress = sqrt(3.0/2.0*tempScalar);
+        deviatoricStressMagnitudeNP1 = std::max(1.0e-20,sqrt(tempScalar));
 
         /////////////////////////////////////////////////////////
         //
@@ -367,6 +368,7 @@ void updateElasticPerfectlyPlasticCauchyStress
         }
 
         *vmStress = sqrt(3.0/2.0*tempScalar);
+        deviatoricStressMagnitudeNP1 = std::max(1.0e-20,sqrt(tempScalar));
 
         /////////////////////////////////////////////////////////
         //
@@ -557,6 +559,7 @@ void updateElasticPerfectlyPlasticCauchyStress
       }
 
       *vmStress = sqrt(3.0/2.0*tempScalar);
+      deviatoricStressMagnitudeNP1 = std::max(1.0e-20,sqrt(tempScalar));
 
       /////////////////////////////////////////////////////////
       //
@@ -833,6 +836,7 @@ void updateBondLevelElasticPerfectlyPlasticCauchyStress
           }
 
           *vmStress = sqrt(3.0/2.0*tempScalar);
+          deviatoricStressMagnitudeNP1 = std::max(1.0e-20,sqrt(tempScalar));
 
           /////////////////////////////////////////////////////////
           //
@@ -1123,6 +1127,7 @@ void updateBondLevelElasticPerfectlyPlasticCauchyStress
         }
 
         *vmStress = sqrt(3.0/2.0*tempScalar);
+        deviatoricStressMagnitudeNP1 = std::max(1.0e-20,sqrt(tempScalar));
 
         /////////////////////////////////////////////////////////
         //
diff --git a/src/materials/isotropic_hardening_correspondence.cxx b/src/materials/isotropic_hardening_correspondence.cxx
index beacaa6..fa29011 100644
--- a/src/materials/isotropic_hardening_correspondence.cxx
+++ b/src/materials/isotropic_hardening_correspondence.cxx
@@ -261,6 +261,7 @@ void updateElasticIsotropicHardeningPlasticCauchyStress
         }
 
         *vmStress = sqrt(3.0/2.0*tempScalar);
+        deviatoricStressMagnitudeNP1 = std::max(1.0e-20,sqrt(tempScalar));
 
         /////////////////////////////////////////////////////////
         //
@@ -545,6 +546,7 @@ void updateElasticIsotropicPowerlawHardeningPlasticCauchyStress
           }
 
           *vmStress = sqrt(3.0/2.0*tempScalar);
+          deviatoricStressMagnitudeNP1 = std::max(1.0e-20,sqrt(tempScalar));
 
           /////////////////////////////////////////////////////////
           //
@@ -1022,6 +1024,7 @@ void updateBondLevelElasticIsotropicPowerlawHardeningPlasticCauchyStress
           }
 
           *vmStress = sqrt(3.0/2.0*tempScalar);
+          deviatoricStressMagnitudeNP1 = std::max(1.0e-20,sqrt(tempScalar));
 
           /////////////////////////////////////////////////////////
           //
diff --git a/src/materials/viscoplastic_needleman_correspondence.cxx b/src/materials/viscoplastic_needleman_correspondence.cxx
index d9f279a..61b3a0b 100644
--- a/src/materials/viscoplastic_needleman_correspondence.cxx
+++ b/src/materials/viscoplastic_needleman_correspondence.cxx
@@ -320,6 +320,7 @@ void updateElasticViscoplasticCauchyStress
         }
 
         *vmStress = sqrt(3.0/2.0*tempScalar);
+        deviatoricStressMagnitudeNP1 = std::max(1.0e-20,sqrt(tempScalar));
 
         /////////////////////////////////////////////////////////
         //
-- 
2.43.0

