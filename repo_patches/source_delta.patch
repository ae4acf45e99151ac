From 4af15deba93dace97794e6e6366938696a4ab740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:52 +0000
Subject: [PATCH 01/14] fix: zero the shear strain entries before accumulating
 them

The normal components are zeroed before the nodal sum, the shear ones were
not, so a reused strain container carried the previous result along.
---
 src/ComplexStrain.hpp | 1 +
 src/EMKinematics.hpp  | 1 +
 src/Kinematics.hpp    | 1 +
 src/TMKinematics.hpp  | 2 ++
 4 files changed, 5 insertions(+)

diff --git a/src/ComplexStrain.hpp b/src/ComplexStrain.hpp
index d387980..da2ae96 100644
--- a/src/ComplexStrain.hpp
+++ b/src/ComplexStrain.hpp
@@ -58,6 +58,7 @@ public:
             {
                 for (Plato::OrdinalType tIndexI=tIndexJ-1; tIndexI>=0; tIndexI--)
                 {
+                    aStrain(aCellOrdinal, tComplexIndex, tVoigtTerm)=0.0;
                     for( Plato::OrdinalType tNodeIndex=0; tNodeIndex < tNumNodesPerCell; tNodeIndex++)
                     {
                         Plato::OrdinalType tCellDofI = (tNodeIndex * NumDofsPerNode) + ((SpaceDim * tComplexIndex) + tIndexI);
diff --git a/src/EMKinematics.hpp b/src/EMKinematics.hpp
index 2926a42..3f38df5 100644
--- a/src/EMKinematics.hpp
+++ b/src/EMKinematics.hpp
@@ -46,6 +46,7 @@ class EMKinematics : public Plato::SimplexElectromechanics<SpaceDim>
       }
       for (Plato::OrdinalType jDof=SpaceDim-1; jDof>=1; jDof--){
         for (Plato::OrdinalType iDof=jDof-1; iDof>=0; iDof--){
+          strain(cellOrdinal,voigtTerm)=0.0;
           for( Plato::OrdinalType iNode=0; iNode<mNumNodesPerCell; iNode++){
             Plato::OrdinalType iLocalOrdinal = iNode*mNumDofsPerNode+iDof;
             Plato::OrdinalType jLocalOrdinal = iNode*mNumDofsPerNode+jDof;
diff --git a/src/Kinematics.hpp b/src/Kinematics.hpp
index 1dea873..45562bc 100644
--- a/src/Kinematics.hpp
+++ b/src/Kinematics.hpp
@@ -58,6 +58,7 @@ public:
         {
             for(Plato::OrdinalType tDofI = tDofJ - 1; tDofI >= 0; tDofI--)
             {
+                aStrain(aCellOrdinal, tVoigtTerm) = 0.0;
                 for(Plato::OrdinalType tNodeIndex = 0; tNodeIndex < mNumNodesPerCell; tNodeIndex++)
                 {
                     Plato::OrdinalType tLocalOrdinalI = tNodeIndex * mNumDofsPerNode + tDofI;
diff --git a/src/TMKinematics.hpp b/src/TMKinematics.hpp
index 7e1f6c6..06b64d2 100644
--- a/src/TMKinematics.hpp
+++ b/src/TMKinematics.hpp
@@ -50,6 +50,7 @@ public:
         {
             for(Plato::OrdinalType tDofIndexI = tDofIndexJ - 1; tDofIndexI >= 0; tDofIndexI--)
             {
+                aStrain(aCellOrdinal, tVoigtTerm) = 0.0;
                 for(Plato::OrdinalType tNodeIndex = 0; tNodeIndex < mNumNodesPerCell; tNodeIndex++)
                 {
                     Plato::OrdinalType tLocalOrdinalI = tNodeIndex * mNumDofsPerNode + tDofIndexI;
@@ -124,6 +125,7 @@ public:
         {
             for(Plato::OrdinalType tDofIndexI = tDofIndexJ - 1; tDofIndexI >= 0; tDofIndexI--)
             {
+                aStrain(aCellOrdinal, tVoigtTerm) = 0.0;
                 for(Plato::OrdinalType tNodeIndex = 0; tNodeIndex < mNumNodesPerCell; tNodeIndex++)
                 {
                     Plato::OrdinalType tLocalOrdinalI = tNodeIndex * mNumDofsPerNode + tDofIndexI;
-- 
2.43.0


From 804fa4e83fdfe654e3c1dba17b4307d05cf1bca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:27 +0000
Subject: [PATCH 02/14] fix: penalty setParameters keeps the default when a key
 is absent

The end iterator was dereferenced after the default had been assigned.
---
 src/Heaviside.hpp | 20 ++++++++++++++++----
 src/Ramp.hpp      | 15 ++++++++++++---
 src/Simp.hpp      | 15 ++++++++++++---
 3 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/src/Heaviside.hpp b/src/Heaviside.hpp
index 4aad7d5..82e4a15 100644
--- a/src/Heaviside.hpp
+++ b/src/Heaviside.hpp
@@ -78,28 +78,40 @@ public:
         {
             mPenaltyParam = 1.0; // default value
         }
-        mPenaltyParam = tParamMapIterator->second;
+        else
+        {
+            mPenaltyParam = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Minimum Value");
         if(tParamMapIterator == aInputs.end())
         {
             mMinValue = 1e-9; // default value
         }
-        mMinValue = tParamMapIterator->second;
+        else
+        {
+            mMinValue = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Regularization Length");
         if(tParamMapIterator == aInputs.end())
         {
             mMinValue = 1.0; // default value
         }
-        mMinValue = tParamMapIterator->second;
+        else
+        {
+            mMinValue = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Additive Continuation");
         if(tParamMapIterator == aInputs.end())
         {
             mAdditiveContinuationValue = 0.1; // default value
         }
-        mAdditiveContinuationValue = tParamMapIterator->second;
+        else
+        {
+            mAdditiveContinuationValue = tParamMapIterator->second;
+        }
     }
 
     /******************************************************************************//**
diff --git a/src/Ramp.hpp b/src/Ramp.hpp
index 6d593b6..1ef9078 100644
--- a/src/Ramp.hpp
+++ b/src/Ramp.hpp
@@ -69,21 +69,30 @@ public:
         {
             mPenaltyParam = 3.0; // default value
         }
-        mPenaltyParam = tParamMapIterator->second;
+        else
+        {
+            mPenaltyParam = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Minimum Value");
         if(tParamMapIterator == aInputs.end())
         {
             mMinValue = 1e-9; // default value
         }
-        mMinValue = tParamMapIterator->second;
+        else
+        {
+            mMinValue = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Additive Continuation");
         if(tParamMapIterator == aInputs.end())
         {
             mAdditiveContinuationValue = 0.1; // default value
         }
-        mAdditiveContinuationValue = tParamMapIterator->second;
+        else
+        {
+            mAdditiveContinuationValue = tParamMapIterator->second;
+        }
     }
 
     /******************************************************************************//**
diff --git a/src/Simp.hpp b/src/Simp.hpp
index afdd661..23d46c9 100644
--- a/src/Simp.hpp
+++ b/src/Simp.hpp
@@ -77,21 +77,30 @@ public:
         {
             mPenaltyParam = 3.0; // default value
         }
-        mPenaltyParam = tParamMapIterator->second;
+        else
+        {
+            mPenaltyParam = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Minimum Value");
         if(tParamMapIterator == aInputs.end())
         {
             mMinValue = 1e-9; // default value
         }
-        mMinValue = tParamMapIterator->second;
+        else
+        {
+            mMinValue = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Additive Continuation");
         if(tParamMapIterator == aInputs.end())
         {
             mAdditiveContinuationValue = 0.1; // default value
         }
-        mAdditiveContinuationValue = tParamMapIterator->second;
+        else
+        {
+            mAdditiveContinuationValue = tParamMapIterator->second;
+        }
     }
 
     /******************************************************************************//**
-- 
2.43.0


From da7397f15577d7d1094fe2f55b900399dcb5750c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:27 +0000
Subject: [PATCH 03/14] fix: Heaviside setParameters stores the regularization
 length in its own member

---
 src/Heaviside.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Heaviside.hpp b/src/Heaviside.hpp
index 82e4a15..8f69853 100644
--- a/src/Heaviside.hpp
+++ b/src/Heaviside.hpp
@@ -96,11 +96,11 @@ public:
         tParamMapIterator = aInputs.find("Regularization Length");
         if(tParamMapIterator == aInputs.end())
         {
-            mMinValue = 1.0; // default value
+            mRegLength = 1.0; // default value
         }
         else
         {
-            mMinValue = tParamMapIterator->second;
+            mRegLength = tParamMapIterator->second;
         }
 
         tParamMapIterator = aInputs.find("Additive Continuation");
-- 
2.43.0


From 74e2f5ac0af8e185bce60482a96abda49b0c0812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:27 +0000
Subject: [PATCH 04/14] fix: blas1::fill of selected entries iterates over the
 list of ordinals

It iterated over the output vector and read the shorter ordinal and value lists out of bounds.
---
 src/BLAS1.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BLAS1.hpp b/src/BLAS1.hpp
index b77afa6..327bcdc 100644
--- a/src/BLAS1.hpp
+++ b/src/BLAS1.hpp
@@ -156,7 +156,7 @@ inline void fill(const Plato::Scalar & aMultiplier,
         THROWERR(tMsg.str().c_str())
     }
 
-    const Plato::OrdinalType tNumLocalVals = aOutput.size();
+    const Plato::OrdinalType tNumLocalVals = aOrdinals.size();
     Kokkos::parallel_for(Kokkos::RangePolicy<>(0, tNumLocalVals), LAMBDA_EXPRESSION(const Plato::OrdinalType & aIndex)
     {
         aOutput(aOrdinals(aIndex)) = aMultiplier * aValues(aIndex);
-- 
2.43.0


From 9cc2284d1943512ca2daebebee502f3c7e3f4549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:20 +0000
Subject: [PATCH 05/14] fix: conditional_expression returns the second
 consequent whenever X > Y

---
 src/PlatoMathHelpers.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/PlatoMathHelpers.hpp b/src/PlatoMathHelpers.hpp
index 58d05f5..249d50f 100644
--- a/src/PlatoMathHelpers.hpp
+++ b/src/PlatoMathHelpers.hpp
@@ -39,11 +39,7 @@ conditional_expression(const Plato::Scalar & aX,
                        const Plato::Scalar & aA,
                        const Plato::Scalar & aB)
 {
-    auto tConditionalExpression = aX - aY - static_cast<Plato::Scalar>(1.0);
-    tConditionalExpression = exp(tConditionalExpression);
-    Plato::OrdinalType tCoeff = fmin(static_cast<Plato::Scalar>(1.0), tConditionalExpression);
-    Plato::Scalar tScalarCoeff = tCoeff;
-    auto tOutput = tScalarCoeff * aB + (static_cast<Plato::Scalar>(1.0) - tScalarCoeff) * aA;
+    auto tOutput = aX > aY ? aB : aA;
     return (tOutput);
 }
 // function conditional_expression
-- 
2.43.0


From a931e80bbd8d74c6d07bfbe7692ac08ac55d8d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:20 +0000
Subject: [PATCH 06/14] fix: do not read past the end of the block row map

---
 src/PlatoMathHelpers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PlatoMathHelpers.hpp b/src/PlatoMathHelpers.hpp
index 249d50f..37f9ade 100644
--- a/src/PlatoMathHelpers.hpp
+++ b/src/PlatoMathHelpers.hpp
@@ -206,7 +206,7 @@ getDataAsNonBlock( const Teuchos::RCP<Plato::CrsMatrixType>       & aMatrix,
             auto tBlockRowIndex = tMatrixRowIndex / tNumRowsPerBlock;
             auto tLocalRowIndex = tMatrixRowIndex % tNumRowsPerBlock;
             auto tFrom = tRowMap(tBlockRowIndex);
-            auto tTo   = tRowMap(tBlockRowIndex+1);
+            auto tTo   = (tLocalRowIndex > 0) ? tRowMap(tBlockRowIndex+1) : tFrom; // no block row follows the last one
             auto tBlockRowSize = tTo - tFrom;
             aMatrixRowMap(tMatrixRowIndex) = tFrom * tBlockSize + tLocalRowIndex * tBlockRowSize * tNumColsPerBlock;
         });
@@ -217,7 +217,7 @@ getDataAsNonBlock( const Teuchos::RCP<Plato::CrsMatrixType>       & aMatrix,
             auto tBlockRowIndex = tMatrixRowIndex / aRowStride;
             auto tLocalRowIndex = tMatrixRowIndex % aRowStride;
             auto tFrom = tRowMap(tBlockRowIndex);
-            auto tTo   = tRowMap(tBlockRowIndex+1);
+            auto tTo   = (tLocalRowIndex > 0) ? tRowMap(tBlockRowIndex+1) : tFrom; // no block row follows the last one
             auto tBlockRowSize = tTo - tFrom;
             aMatrixRowMap(tMatrixRowIndex) = tFrom * aRowStride * tNumColsPerBlock + tLocalRowIndex * tBlockRowSize * tNumColsPerBlock;
         });
-- 
2.43.0


From 4996d0e5aa384ba1e5f29957f2e6b1a28662a527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:10 +0000
Subject: [PATCH 07/14] fix: 1D temperature dependent isotropic stiffness
 divides by (1+v)(1-2v) and requires c0

---
 src/IsotropicStiffness.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/IsotropicStiffness.cpp b/src/IsotropicStiffness.cpp
index 6bdad7d..fbd2722 100644
--- a/src/IsotropicStiffness.cpp
+++ b/src/IsotropicStiffness.cpp
@@ -10,13 +10,15 @@ namespace Plato {
       auto tYoungsModParams = aParams.sublist("Youngs Modulus");
       T v = Plato::ParseTools::getParam<T>(aParams, "Poissons Ratio"); /*throw if not found*/
 
-      T E0 = Plato::ParseTools::getParam<T>(tYoungsModParams, "c0", 0.0);
+      T E0 = Plato::ParseTools::getParam<T>(tYoungsModParams, "c0"); /*throw if not found*/
       T E1 = Plato::ParseTools::getParam<T>(tYoungsModParams, "c1", 0.0);
       T E2 = Plato::ParseTools::getParam<T>(tYoungsModParams, "c2", 0.0);
 
-      c0[0][0] = E0*((1.0+v)*(1.0-2.0*v))*(1.0-v);
-      c1[0][0] = E1*((1.0+v)*(1.0-2.0*v))*(1.0-v);
-      c2[0][0] = E2*((1.0+v)*(1.0-2.0*v))*(1.0-v);
+      T c = 1.0/((1.0+v)*(1.0-2.0*v));
+
+      c0[0][0] = E0*c*(1.0-v);
+      c1[0][0] = E1*c*(1.0-v);
+      c2[0][0] = E2*c*(1.0-v);
   }
 
   template<>
-- 
2.43.0


From 3df06f9c50d58614242f51c8be03de57024c87d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:10 +0000
Subject: [PATCH 08/14] fix: thermoelastic material reads a general Elastic
 Stiffness from its own sublist

---
 src/ThermoelasticMaterial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ThermoelasticMaterial.hpp b/src/ThermoelasticMaterial.hpp
index e797a1d..ce259b0 100644
--- a/src/ThermoelasticMaterial.hpp
+++ b/src/ThermoelasticMaterial.hpp
@@ -54,7 +54,7 @@ namespace Plato {
       }
       else
       {
-          this->parseRank4Voigt("Elastic Stiffness", tParams);
+          this->parseRank4Voigt("Elastic Stiffness", paramList);
       }
   }
 
-- 
2.43.0


From 77740af471dac33f8c4dfb7ad31431092f451ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:05 +0000
Subject: [PATCH 09/14] fix: thermoelastic isotropic stiffness is stored in the
 form the declared model type reads

---
 src/MaterialModel.hpp         | 19 +++++++++++++++++++
 src/ThermoelasticMaterial.hpp | 14 +++++++++++++-
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/MaterialModel.hpp b/src/MaterialModel.hpp
index bba6e99..21bff47 100644
--- a/src/MaterialModel.hpp
+++ b/src/MaterialModel.hpp
@@ -192,6 +192,9 @@ namespace Plato {
       }
   };
 
+  template<int SpatialDim>
+  class Rank4VoigtConstant;
+
   /******************************************************************************/
   /*!
     \brief class for mappings from scalar to 4th rank voigt tensor
@@ -218,6 +221,22 @@ namespace Plato {
       **********************************************************************************/
       Rank4VoigtFunctor() : c0{{0.0}}, c1{{0.0}}, c2{{0.0}} {}
 
+      /******************************************************************************//**
+       * \brief Constructor for constant 4th rank voigt tensor functor
+       *   Functor returns \f$ y(x, i, j) = c0(i,j) \f$
+       * \param [in] aConstant 4th rank voigt tensor constant
+      **********************************************************************************/
+      explicit Rank4VoigtFunctor(const Rank4VoigtConstant<SpatialDim>& aConstant) : c0{{0.0}}, c1{{0.0}}, c2{{0.0}}
+      {
+          for (Plato::OrdinalType i = 0; i < NumVoigtTerms; i++)
+          {
+              for (Plato::OrdinalType j = 0; j < NumVoigtTerms; j++)
+              {
+                  c0[i][j] = aConstant(i, j);
+              }
+          }
+      }
+
       /******************************************************************************//**
        * \brief Constructor for zero 4th rank voigt tensor functor
        *   Functor returns \f$ y(x, i, j) = c0(i,j) + c1(i,j) x + c2(i,j) x^2 \f$
diff --git a/src/ThermoelasticMaterial.hpp b/src/ThermoelasticMaterial.hpp
index ce259b0..86b20cd 100644
--- a/src/ThermoelasticMaterial.hpp
+++ b/src/ThermoelasticMaterial.hpp
@@ -45,12 +45,24 @@ namespace Plato {
       auto tParams = paramList.sublist("Elastic Stiffness");
       if (tParams.isSublist("Youngs Modulus"))
       {
+          if (this->type() == Plato::MaterialModelType::Linear)
+          {
+              THROWERR("Found a temperature dependent 'Youngs Modulus' in a linear model.  Set 'Temperature Dependent' to 'true' or provide a constant.");
+          }
           this->setRank4VoigtFunctor("Elastic Stiffness", Plato::IsotropicStiffnessFunctor<SpatialDim>(tParams));
       }
       else
       if (tParams.isType<Plato::Scalar>("Youngs Modulus"))
       {
-          this->setRank4VoigtConstant("Elastic Stiffness", Plato::IsotropicStiffnessConstant<SpatialDim>(tParams));
+          Plato::IsotropicStiffnessConstant<SpatialDim> tStiffness(tParams);
+          if (this->type() == Plato::MaterialModelType::Linear)
+          {
+              this->setRank4VoigtConstant("Elastic Stiffness", tStiffness);
+          }
+          else
+          {
+              this->setRank4VoigtFunctor("Elastic Stiffness", Plato::Rank4VoigtFunctor<SpatialDim>(tStiffness));
+          }
       }
       else
       {
-- 
2.43.0


From fafcbabd9978c682967844208c8c7c8314fcd568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:15 +0000
Subject: [PATCH 10/14] fix: the one-dimensional Voigt map points at tensor
 entry (0,0)

---
 src/VoigtMap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/VoigtMap.hpp b/src/VoigtMap.hpp
index 0fd3aa0..de52cf9 100644
--- a/src/VoigtMap.hpp
+++ b/src/VoigtMap.hpp
@@ -10,7 +10,7 @@ namespace Plato {
   struct VoigtMap<1> {
     Plato::OrdinalType I[1];
     Plato::OrdinalType J[1];
-    VoigtMap() : I{1}, J{1} {}
+    VoigtMap() : I{0}, J{0} {}
   };
   template<>
   struct VoigtMap<2> {
-- 
2.43.0


From a3d5495f538c1321054b63d05b65f40656b9ec22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:37 +0000
Subject: [PATCH 11/14] fix: two-dimensional eigenvalues rotate for negative
 shear too

---
 src/Eigenvalues.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Eigenvalues.hpp b/src/Eigenvalues.hpp
index 62a23e4..bc591be 100644
--- a/src/Eigenvalues.hpp
+++ b/src/Eigenvalues.hpp
@@ -194,7 +194,7 @@ Eigenvalues<2>::operator()(const Plato::OrdinalType & aCellOrdinal,
     ResultType tTensor11 = aVoigtTensor(aCellOrdinal, 0);
     ResultType tTensor22 = aVoigtTensor(aCellOrdinal, 1);
     ResultType tTau = tZero;
-    if (tTensor12 > tZero)
+    if (tTensor12 != tZero)
         tTau = (tTensor22 - tTensor11) / (tTwo * tTensor12);
 
     ResultType tTangent = tMinusOne / (sqrt(tOne + tTau*tTau) - tTau);
@@ -203,9 +203,9 @@ Eigenvalues<2>::operator()(const Plato::OrdinalType & aCellOrdinal,
 
     ResultType tCosine = tOne;
     ResultType tSine   = tZero;
-    if (tTensor12 > tZero)
+    if (tTensor12 != tZero)
         tCosine = tOne / sqrt(tOne + tTangent*tTangent);
-    if (tTensor12 > tZero)
+    if (tTensor12 != tZero)
         tSine   = tTangent * tCosine;
 
     aEigenvalues(aCellOrdinal, 0) = tCosine * (tTensor11*tCosine - tTensor12*tSine) -
-- 
2.43.0


From fc31d3b3fa37df13c1df96b65cb1378221ddaeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:00 +0000
Subject: [PATCH 12/14] fix: tensor norms raise to the real exponent the input
 deck gives

---
 src/TensorPNorm.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/TensorPNorm.hpp b/src/TensorPNorm.hpp
index 5b8b7e7..e9c5dad 100644
--- a/src/TensorPNorm.hpp
+++ b/src/TensorPNorm.hpp
@@ -29,7 +29,7 @@ public:
     DEVICE_TYPE inline void operator()(Plato::OrdinalType cellOrdinal,
                                        Plato::ScalarVectorT<ResultScalarType> pnorm,
                                        Plato::ScalarMultiVectorT<TensorScalarType> voigtTensor,
-                                       Plato::OrdinalType p,
+                                       Plato::Scalar p,
                                        Plato::ScalarVectorT<VolumeScalarType> cellVolume) const
     {
 
@@ -81,7 +81,7 @@ public:
     DEVICE_TYPE inline void operator()(Plato::OrdinalType cellOrdinal,
                                        Plato::ScalarVectorT<ResultScalarType> pnorm,
                                        Plato::ScalarMultiVectorT<TensorScalarType> voigtTensor,
-                                       Plato::OrdinalType p,
+                                       Plato::Scalar p,
                                        Plato::ScalarVectorT<VolumeScalarType> cellVolume) const
     {
 
@@ -182,7 +182,7 @@ public:
     DEVICE_TYPE inline void operator()(Plato::OrdinalType cellOrdinal,
                                        Plato::ScalarVectorT<ResultScalarType> pnorm,
                                        Plato::ScalarMultiVectorT<TensorScalarType> voigtTensor,
-                                       Plato::OrdinalType p,
+                                       Plato::Scalar p,
                                        Plato::ScalarVectorT<VolumeScalarType> cellVolume) const
     {
         TensorScalarType s[barlatLength] = {0.0};
-- 
2.43.0


From 533a56d6d8b0da93fd68a59b763dd7a81d31249d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:17 +0000
Subject: [PATCH 13/14] fix: Barlat Exponent is read with the type it is looked
 up as

---
 src/TensorPNorm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TensorPNorm.hpp b/src/TensorPNorm.hpp
index e9c5dad..4f12d27 100644
--- a/src/TensorPNorm.hpp
+++ b/src/TensorPNorm.hpp
@@ -128,7 +128,7 @@ public:
         auto p = params.sublist("Normalize").sublist("Barlat");
         if(p.isType < Plato::OrdinalType > ("Barlat Exponent"))
         {
-            mBarlatExponent = p.get<Plato::Scalar>("Barlat Exponent");
+            mBarlatExponent = p.get<Plato::OrdinalType>("Barlat Exponent");
         }
         if(p.isType<Plato::Scalar>("Reference Weight"))
         {
-- 
2.43.0


From c2609e8855196f7af84ac22491baf8dcda5713c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:19 +0000
Subject: [PATCH 14/14] fix: both arguments of pow(,) may be compound
 expressions

---
 src/ExpressionEvaluator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ExpressionEvaluator.cpp b/src/ExpressionEvaluator.cpp
index 983b20b..88175d4 100644
--- a/src/ExpressionEvaluator.cpp
+++ b/src/ExpressionEvaluator.cpp
@@ -717,7 +717,7 @@ void ExpressionEvaluator::parse_expression( const char* expression )
     else if( c == ',' ) {
       if( twoParamFunctionIDs.size() )
       {
-        node.ID = twoParamFunctionIDs.back();  node.precedence = 5;  info = LeftAssociative;
+        node.ID = twoParamFunctionIDs.back();  node.precedence = 1;  info = LeftAssociative;
         twoParamFunctionIDs.pop_back();
         twoParamFunctionLocations.pop_back();
       }
-- 
2.43.0

