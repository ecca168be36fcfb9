From e6875d2ba93dacdc127126573a69f97d852e31d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:33 +0000
Subject: [PATCH 01/23] fix: CompressedMatrix::ClearMatrix sizes the out of
 band entries by the matrix size

---
 src/math/CompressedMatrix.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/CompressedMatrix.cc b/src/math/CompressedMatrix.cc
index 4659d11..fffc1aa 100644
--- a/src/math/CompressedMatrix.cc
+++ b/src/math/CompressedMatrix.cc
@@ -476,11 +476,11 @@ void CompressedMatrix<DoubleType>::ClearMatrix()
   }
 
   OutOfBandEntries_Real.clear();
-  OutOfBandEntries_Real.resize(sz);
+  OutOfBandEntries_Real.resize(this->size());
   if (GetMatrixType() == MatrixType::COMPLEX)
   {
     OutOfBandEntries_Imag.clear();
-    OutOfBandEntries_Imag.resize(sz);
+    OutOfBandEntries_Imag.resize(this->size());
   }
 }
 
-- 
2.43.0


From 28d74f9b3ca75ce2352c870ae65f2ce369e4b8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:33 +0000
Subject: [PATCH 02/23] fix: CompressedMatrix::TransposeMultiply passes the
 pointer list first for both storage orders

---
 src/math/CompressedMatrix.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/math/CompressedMatrix.cc b/src/math/CompressedMatrix.cc
index fffc1aa..0a4a624 100644
--- a/src/math/CompressedMatrix.cc
+++ b/src/math/CompressedMatrix.cc
@@ -567,11 +567,11 @@ void CompressedMatrix<DoubleType>::TransposeMultiply(const DoubleVec_t<DoubleTyp
   const DoubleVec_t<DoubleType> &Vals = this->GetReal();
   if (compressionType_ == CompressionType::CCM)
   {
-    RowScaleMultiply(Rows, Cols, Vals, x, y);
+    RowScaleMultiply(Cols, Rows, Vals, x, y);
   }
   else if (compressionType_ == CompressionType::CRM)
   {
-    ColScaleMultiply(Cols, Rows, Vals, x, y);
+    ColScaleMultiply(Rows, Cols, Vals, x, y);
   }
 }
 
@@ -603,11 +603,11 @@ void CompressedMatrix<DoubleType>::TransposeMultiply(const ComplexDoubleVec_t<Do
   const ComplexDoubleVec_t<DoubleType> &Vals = this->GetComplex();
   if (compressionType_ == CompressionType::CCM)
   {
-    RowScaleMultiply(Rows, Cols, Vals, x, y);
+    RowScaleMultiply(Cols, Rows, Vals, x, y);
   }
   else if (compressionType_ == CompressionType::CRM)
   {
-    ColScaleMultiply(Cols, Rows, Vals, x, y);
+    ColScaleMultiply(Rows, Cols, Vals, x, y);
   }
 }
 }
-- 
2.43.0


From 5ef12e9aa9e57c7c144055456c2726e0f2ffcbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:27 +0000
Subject: [PATCH 03/23] fix: volume of revolution of triangles whose flat side
 lies inside the apex radius

---
 src/GeomModels/TriangleCylindricalNodeVolume.cc | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/GeomModels/TriangleCylindricalNodeVolume.cc b/src/GeomModels/TriangleCylindricalNodeVolume.cc
index db0043a..ec3aaf4 100644
--- a/src/GeomModels/TriangleCylindricalNodeVolume.cc
+++ b/src/GeomModels/TriangleCylindricalNodeVolume.cc
@@ -116,16 +116,10 @@ namespace {
 template <typename DoubleType>
 DoubleType calcCylindricalTriangleVolumeFlat(DoubleType r0, DoubleType z0, DoubleType r1, DoubleType z1, DoubleType r2)
 {
-  DoubleType ret = 0.0;
+  // Pappus: 2 * pi * (radius of centroid) * (area of triangle)
   const DoubleType z = abs(z1 - z0);
-  const DoubleType r20_2 = pow((r2 - r0), 2.0);
-  const DoubleType r10_2 = pow((r1 - r0), 2.0);
-
-  ret = abs(r20_2 - r10_2) * z / 3.0;
-
   const DoubleType r21 = abs(r2 - r1);
-  ret += r21 * r0 * z;
-  ret *= M_PI;
+  const DoubleType ret = M_PI * z * r21 * (r0 + r1 + r2) / 3.0;
 
   return ret;
 }
-- 
2.43.0


From 95d1618c23abed719672d09e6ffb9c9844f5838c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:27 +0000
Subject: [PATCH 04/23] fix: CylindricalEdgeNodeVolume@n0 overwritten by zeros

---
 src/GeomModels/CylindricalEdgeNodeVolume.cc | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/GeomModels/CylindricalEdgeNodeVolume.cc b/src/GeomModels/CylindricalEdgeNodeVolume.cc
index 4ef4b34..8666b64 100644
--- a/src/GeomModels/CylindricalEdgeNodeVolume.cc
+++ b/src/GeomModels/CylindricalEdgeNodeVolume.cc
@@ -43,9 +43,6 @@ void CylindricalEdgeNodeVolume<DoubleType>::calcEdgeScalarValues() const
 
   dsAssert(dimension == 2, "CylindricalEdgeNodeVolume 2d Only");
 
-  std::vector<DoubleType> nv(r.GetNumberNodes());
-
-
   if (dimension == 2)
   {
     const Region &region = GetRegion();
@@ -67,8 +64,6 @@ void CylindricalEdgeNodeVolume<DoubleType>::calcEdgeScalarValues() const
   {
     dsAssert(false, "UNEXPECTED");
   }
-
-  SetValues(nv);
 }
 
 template <typename DoubleType>
-- 
2.43.0


From 3ac211732dfb746666c7be1f1a246447c8ee3e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:08 +0000
Subject: [PATCH 05/23] fix: keep model values consistent between precisions
 when one value is set

---
 src/models/ModelDataHolder.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/models/ModelDataHolder.cc b/src/models/ModelDataHolder.cc
index a574dcf..972e49d 100644
--- a/src/models/ModelDataHolder.cc
+++ b/src/models/ModelDataHolder.cc
@@ -293,6 +293,9 @@ void ModelDataHolder::SetValue(size_t index, const float128 &nv)
 
   expand_uniform();
 
+  // discard the copy in the other precision
+  clear_type(MDtype::DOUBLE);
+
   float128_values[index] = nv;
 
 }
@@ -316,6 +319,11 @@ void ModelDataHolder::SetValue(size_t index, const double &nv)
   {
     expand_uniform();
 
+#ifdef DEVSIM_EXTENDED_PRECISION
+    // discard the copy in the other precision
+    clear_type(MDtype::EXTENDED);
+#endif
+
     double_values[index] = nv;
   }
 }
-- 
2.43.0


From 27f883df50005b6e1bafb8a8a37ce8f05d74935e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:41 +0000
Subject: [PATCH 06/23] fix: assemble edge_volume_model when the equation has
 no edge_model

---
 src/AutoEquation/ExprEquation.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/AutoEquation/ExprEquation.cc b/src/AutoEquation/ExprEquation.cc
index daad619..16e7fce 100644
--- a/src/AutoEquation/ExprEquation.cc
+++ b/src/AutoEquation/ExprEquation.cc
@@ -51,10 +51,12 @@ void ExprEquation<DoubleType>::DerivedAssemble(dsMath::RealRowColValueVec<Double
         {
             model_cache->clear();
             Equation<DoubleType>::EdgeCoupleAssemble(edge_model_, m, v, w);
-            if (!edge_volume_model_.empty())
-            {
-              Equation<DoubleType>::EdgeNodeVolumeAssemble(edge_volume_model_, m, v, w);
-            }
+        }
+
+        if (!edge_volume_model_.empty())
+        {
+            model_cache->clear();
+            Equation<DoubleType>::EdgeNodeVolumeAssemble(edge_volume_model_, m, v, w);
         }
 
         if (!node_model_.empty())
-- 
2.43.0


From 0d87a80900d71a35a2b1b9977dc02c13695a2aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:41 +0000
Subject: [PATCH 07/23] fix: release the old variable when an equation is
 replaced with another variable

---
 src/Geometry/Region.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Geometry/Region.cc b/src/Geometry/Region.cc
index 03d4b25..d89e753 100644
--- a/src/Geometry/Region.cc
+++ b/src/Geometry/Region.cc
@@ -1149,7 +1149,7 @@ void Region::AddEquation(EquationHolder &eq)
             "Region: " << this->GetName() << ", Equation: " << nm << ", Old variable: " << oeq.GetVariable() << ", New Variable: " << var << "\n";
         GeometryStream::WriteOut(OutputStream::OutputType::INFO, *this, os.str());
 
-        variableEquationMap.erase(var);
+        variableEquationMap.erase(oeq.GetVariable());
         variableEquationMap[var] = nm;
       }
       else
-- 
2.43.0


From 2d38af0a56e228ecd39a93ce15012bb2aae0d3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:33 +0000
Subject: [PATCH 08/23] fix: leave a shared contact node to another contact
 only if that one has the equation

---
 src/Equation/ContactEquation.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Equation/ContactEquation.cc b/src/Equation/ContactEquation.cc
index dd4bd4c..02bf12a 100644
--- a/src/Equation/ContactEquation.cc
+++ b/src/Equation/ContactEquation.cc
@@ -137,7 +137,7 @@ ConstNodeList_t ContactEquation<DoubleType>::GetActiveNodes() const
           else
           {
 
-            const ContactEquationPtrMap_t &cepm = contact.GetEquationPtrList();
+            const ContactEquationPtrMap_t &cepm = ocontact.GetEquationPtrList();
 
             for (ContactEquationPtrMap_t::const_iterator cepmit = cepm.begin(); cepmit != cepm.end(); ++cepmit)
             {
-- 
2.43.0


From b5978150f1c986e1f043688d21a34bd3a816827c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:41 +0000
Subject: [PATCH 09/23] fix: add the derivative of the contact flux with
 respect to the circuit node once, not once per variable

---
 src/Equation/ContactEquation.cc | 126 ++++++++++++++++----------------
 1 file changed, 63 insertions(+), 63 deletions(-)

diff --git a/src/Equation/ContactEquation.cc b/src/Equation/ContactEquation.cc
index 02bf12a..d0180f1 100644
--- a/src/Equation/ContactEquation.cc
+++ b/src/Equation/ContactEquation.cc
@@ -1558,48 +1558,48 @@ void ContactEquation<DoubleType>::AssembleEdgeEquationOnCircuit(const std::strin
           m.push_back(dsMath::RealRowColVal<DoubleType>(crow, col, val));
         }
       }
+    }
 
+    {
+      std::string dermodel = emodel;
+      dermodel += ":" + circuitnode;
+      ConstEdgeModelPtr edm = region.GetEdgeModel(dermodel);
+      if (!edm)
       {
-        std::string dermodel = emodel;
-        dermodel += ":" + circuitnode;
-        ConstEdgeModelPtr edm = region.GetEdgeModel(dermodel);
-        if (!edm)
-        {
-          dsErrors::MissingContactEquationModel(region, *this, dermodel, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
-        }
-        else
-        {
-          EdgeScalarData<DoubleType> edd(*ec);
-          edd.times_equal_model(*edm);
+        dsErrors::MissingContactEquationModel(region, *this, dermodel, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
+      }
+      else
+      {
+        EdgeScalarData<DoubleType> edd(*ec);
+        edd.times_equal_model(*edm);
 
-          const Region::NodeToConstEdgeList_t &ntelist = region.GetNodeToEdgeList();
+        const Region::NodeToConstEdgeList_t &ntelist = region.GetNodeToEdgeList();
 
-          for (ConstNodeList_t::const_iterator cit = cnodes.begin(); cit != cnodes.end(); ++cit)
-          {
-            const ConstEdgeList &el = ntelist[(*cit)->GetIndex()];
+        for (ConstNodeList_t::const_iterator cit = cnodes.begin(); cit != cnodes.end(); ++cit)
+        {
+          const ConstEdgeList &el = ntelist[(*cit)->GetIndex()];
 
-            for (ConstEdgeList::const_iterator it = el.begin() ; it != el.end(); ++it)
+          for (ConstEdgeList::const_iterator it = el.begin() ; it != el.end(); ++it)
+          {
+            if (bothNodesOnContact(cnode_set, **it, n0_sign, n1_sign))
             {
-              if (bothNodesOnContact(cnode_set, **it, n0_sign, n1_sign))
-              {
-                continue;
-              }
+              continue;
+            }
 
-              const  size_t eind = (*it)->GetIndex();
-              const DoubleType val = edd[eind];
+            const  size_t eind = (*it)->GetIndex();
+            const DoubleType val = edd[eind];
 
-              if ((*it)->GetHead() == (*cit))
-              {
-                m.push_back(dsMath::RealRowColVal<DoubleType>(crow, crow, n0_sign * val));
-              }
-              else if ((*it)->GetTail() == (*cit))
-              {
-                m.push_back(dsMath::RealRowColVal<DoubleType>(crow, crow, n1_sign * val));
-              }
-              else
-              {
-                dsAssert(0, "UNEXPECTED");
-              }
+            if ((*it)->GetHead() == (*cit))
+            {
+              m.push_back(dsMath::RealRowColVal<DoubleType>(crow, crow, n0_sign * val));
+            }
+            else if ((*it)->GetTail() == (*cit))
+            {
+              m.push_back(dsMath::RealRowColVal<DoubleType>(crow, crow, n1_sign * val));
+            }
+            else
+            {
+              dsAssert(0, "UNEXPECTED");
             }
           }
         }
@@ -1809,45 +1809,45 @@ void ContactEquation<DoubleType>::AssembleTriangleEdgeEquationOnCircuit(const st
           m.push_back(dsMath::RealRowColVal<DoubleType>(crow, col, val));
         }
       }
+    }
 
+    {
+      std::string dermodel = emodel;
+      dermodel += ":" + circuitnode;
+      ConstTriangleEdgeModelPtr edm = region.GetTriangleEdgeModel(dermodel);
+      if (!edm)
       {
-        std::string dermodel = emodel;
-        dermodel += ":" + circuitnode;
-        ConstTriangleEdgeModelPtr edm = region.GetTriangleEdgeModel(dermodel);
-        if (!edm)
-        {
-          dsErrors::MissingContactEquationModel(region, *this, dermodel, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
-        }
-        else
-        {
-          TriangleEdgeScalarData<DoubleType> edd(*ec);
-          edd.times_equal_model(*edm);
+        dsErrors::MissingContactEquationModel(region, *this, dermodel, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
+      }
+      else
+      {
+        TriangleEdgeScalarData<DoubleType> edd(*ec);
+        edd.times_equal_model(*edm);
 
-          for (ConstNodeList_t::const_iterator cit = cnodes.begin(); cit != cnodes.end(); ++cit)
+        for (ConstNodeList_t::const_iterator cit = cnodes.begin(); cit != cnodes.end(); ++cit)
+        {
+          const ConstTriangleList &ntl = nttlist[(*cit)->GetIndex()];
+          for (ConstTriangleList::const_iterator ti = ntl.begin(); ti != ntl.end(); ++ti)
           {
-            const ConstTriangleList &ntl = nttlist[(*cit)->GetIndex()];
-            for (ConstTriangleList::const_iterator ti = ntl.begin(); ti != ntl.end(); ++ti)
+            const Triangle &triangle = **ti;
+            const size_t tindex = triangle.GetIndex();
+            const ConstEdgeList &edgeList = ttelist[tindex];
+            for (size_t eindex = 0; eindex < edgeList.size(); ++eindex)
             {
-              const Triangle &triangle = **ti;
-              const size_t tindex = triangle.GetIndex();
-              const ConstEdgeList &edgeList = ttelist[tindex];
-              for (size_t eindex = 0; eindex < edgeList.size(); ++eindex)
-              {
-                const Edge &edge = *edgeList[eindex];
+              const Edge &edge = *edgeList[eindex];
 
-                auto val = GetHeadOrTail(edge, *cit, n0_sign, n1_sign, DoubleType(0.0));
+              auto val = GetHeadOrTail(edge, *cit, n0_sign, n1_sign, DoubleType(0.0));
 
-                if ( (val == DoubleType(0.0)) || bothNodesOnContact(cnode_set, edge, n0_sign, n1_sign))
-                {
-                  continue;
-                }
+              if ( (val == DoubleType(0.0)) || bothNodesOnContact(cnode_set, edge, n0_sign, n1_sign))
+              {
+                continue;
+              }
 
-                const size_t vindex = 3 * tindex + eindex;
+              const size_t vindex = 3 * tindex + eindex;
 
-                val *= edd[vindex];
+              val *= edd[vindex];
 
-                m.push_back(dsMath::RealRowColVal<DoubleType>(crow, crow, val));
-              }
+              m.push_back(dsMath::RealRowColVal<DoubleType>(crow, crow, val));
             }
           }
         }
-- 
2.43.0


From f0bc170f354603ce84ff0caae1424b3fe9c0906a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:34 +0000
Subject: [PATCH 10/23] fix: report the node of the largest relative error, not
 that of the largest absolute error

---
 src/Equation/Equation.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Equation/Equation.cc b/src/Equation/Equation.cc
index bde16dd..fd788f4 100644
--- a/src/Equation/Equation.cc
+++ b/src/Equation/Equation.cc
@@ -286,6 +286,7 @@ void Equation<DoubleType>::DefaultUpdate(NodeModel &nm, const dsMath::DoubleVec_
     DoubleType aerr = 0.0;
     DoubleType rerr = 0.0;
     size_t     aerr_node = 0;
+    size_t     rerr_node = 0;
 
     for (size_t i = 0; i < upds.size(); ++i)
     {
@@ -304,6 +305,7 @@ void Equation<DoubleType>::DefaultUpdate(NodeModel &nm, const dsMath::DoubleVec_
         if (nrerror > rerr)
         {
             rerr = nrerror;
+            rerr_node = i;
         }
 
     }
@@ -311,7 +313,7 @@ void Equation<DoubleType>::DefaultUpdate(NodeModel &nm, const dsMath::DoubleVec_
     setAbsError(aerr);
     setRelError(rerr);
     setAbsErrorNodeIndex(aerr_node);
-    setRelErrorNodeIndex(aerr_node);
+    setRelErrorNodeIndex(rerr_node);
 //    dsErrors::EquationMathErrorInfo(*this, rerr, aerr, OutputStream::OutputType::INFO);
 }
 
-- 
2.43.0


From 0b930cd68bccb176797564863c80df640095e0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:45 +0000
Subject: [PATCH 11/23] fix: refuse to replace an equation by one whose
 variable belongs to another equation

---
 src/Geometry/Region.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Geometry/Region.cc b/src/Geometry/Region.cc
index d89e753..2ba1ef7 100644
--- a/src/Geometry/Region.cc
+++ b/src/Geometry/Region.cc
@@ -1140,6 +1140,13 @@ void Region::AddEquation(EquationHolder &eq)
           ", New Variable: " << var << "\n";
       GeometryStream::WriteOut(OutputStream::OutputType::INFO, *this, os.str());
     }
+    else if ((oeq.GetVariable() != var) && variableEquationMap.count(var))
+    {
+      std::ostringstream os;
+      os << "ERROR: Can't replace equation if its new variable is already being used\n"
+          << "Equation: " << nm << ", Other Equation: " << variableEquationMap[var] << ", Variable: "  << var << "\n";
+      GeometryStream::WriteOut(OutputStream::OutputType::FATAL, *this, os.str());
+    }
     else
     {
       if (oeq.GetVariable() != var)
-- 
2.43.0


From c594dec7d947b39fd69f08350d2ad3cfe082fe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:27 +0000
Subject: [PATCH 12/23] fix: use the z coordinate in the matrices of the 3d
 gradient

---
 src/Geometry/GradientField.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Geometry/GradientField.cc b/src/Geometry/GradientField.cc
index 4e007e7..e545eb2 100644
--- a/src/Geometry/GradientField.cc
+++ b/src/Geometry/GradientField.cc
@@ -89,7 +89,7 @@ void GradientField<DoubleType>::CalcMatrices3d() const
   //// Assert fields exist
   ConstNodeModelPtr ux = myregion_->GetNodeModel("x");
   ConstNodeModelPtr uy = myregion_->GetNodeModel("y");
-  ConstNodeModelPtr uz = myregion_->GetNodeModel("y");
+  ConstNodeModelPtr uz = myregion_->GetNodeModel("z");
 
   dsAssert(ux.get(), "UNEXPECTED");
   dsAssert(uy.get(), "UNEXPECTED");
-- 
2.43.0


From 5e7315f8005ee88c2a87852dfa77567105f4c6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:19 +0000
Subject: [PATCH 13/23] fix: mark models out of date when a model they depend
 on is replaced

---
 src/Geometry/Region.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Geometry/Region.cc b/src/Geometry/Region.cc
index 2ba1ef7..e889a00 100644
--- a/src/Geometry/Region.cc
+++ b/src/Geometry/Region.cc
@@ -891,6 +891,8 @@ void Region::AddNodeModel(NodeModelPtr nmp)
                   << " of material " << materialName << "\n";
         GeometryStream::WriteOut(OutputStream::OutputType::INFO, *this, os.str());
         nodeModels[nm] = nmp;
+        //// Anything depending on the replaced model is out of date
+        this->SignalCallbacks(nm);
     }
     else if (edgeModels.count(nm))
     {
@@ -929,6 +931,8 @@ void Region::AddEdgeModel(EdgeModelPtr emp)
                   << " of material " << materialName << "\n";
         GeometryStream::WriteOut(OutputStream::OutputType::INFO, *this, os.str());
         edgeModels[nm] = emp;
+        //// Anything depending on the replaced model is out of date
+        this->SignalCallbacks(nm);
     }
     else if (nodeModels.count(nm))
     {
@@ -967,6 +971,8 @@ void Region::AddTriangleEdgeModel(TriangleEdgeModelPtr emp)
                   << " of material " << materialName << "\n";
         GeometryStream::WriteOut(OutputStream::OutputType::INFO, *this, os.str());
         triangleEdgeModels[nm] = emp;
+        //// Anything depending on the replaced model is out of date
+        this->SignalCallbacks(nm);
     }
     else if (nodeModels.count(nm))
     {
@@ -1005,6 +1011,8 @@ void Region::AddTetrahedronEdgeModel(TetrahedronEdgeModelPtr emp)
                   << " of material " << materialName << "\n";
         GeometryStream::WriteOut(OutputStream::OutputType::INFO, *this, os.str());
         tetrahedronEdgeModels[nm] = emp;
+        //// Anything depending on the replaced model is out of date
+        this->SignalCallbacks(nm);
     }
     else if (nodeModels.count(nm))
     {
-- 
2.43.0


From 4c579ed1165820fc4aae9becf4f7621a1a42a250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:22 +0000
Subject: [PATCH 14/23] fix: base64 decoding indexed its table with negative
 characters

Characters of 0x80 and above are negative where char is signed: the table
was read outside its bounds and isspace was called outside its domain.
---
 src/utility/base64.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utility/base64.cc b/src/utility/base64.cc
index 6fd1e43..b5e72a0 100644
--- a/src/utility/base64.cc
+++ b/src/utility/base64.cc
@@ -168,7 +168,7 @@ decode_enum decode4(const std::string &in, std::string &tmp, std::string &out)
 
   for (size_t i = 0; i < 4; ++i)
   {
-    size_t char_index = in[i];
+    size_t char_index = static_cast<unsigned char>(in[i]);
     tmp[i] = decodeBase64Table[char_index];
     if (tmp[i] == -1)
     {
@@ -229,7 +229,7 @@ bool decodeBase64(const std::string &input, std::string &output)
   for (std::string::const_iterator it = input.begin(); it != input.end(); ++it)
   {
     const char &c = *it;
-    if (!isspace(c))
+    if (!isspace(static_cast<unsigned char>(c)))
     {
       tin[j] = c;
       ++j;
-- 
2.43.0


From 0b9dc0e124844eb8a2221ae5bb6f36d4dd7ff0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:22 +0000
Subject: [PATCH 15/23] fix: last compressed block was empty when the data
 fills whole blocks

The length of the last block was taken from the partial block, which is
empty when the number of values is a multiple of the block size.
---
 src/utility/base64.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/base64.cc b/src/utility/base64.cc
index b5e72a0..f808773 100644
--- a/src/utility/base64.cc
+++ b/src/utility/base64.cc
@@ -98,7 +98,7 @@ template <typename T> std::string convertVectorToZlibBase64(const std::vector<T>
   for (size_t i = 0; i < numberOfBlocks; ++i)
   {
     size_t inputLength = maxLength;
-    if (i == (numberOfBlocks - 1))
+    if ((i == (numberOfBlocks - 1)) && (numberTInPartialBlock != 0))
     {
       inputLength = sizeof(T) * numberTInPartialBlock;
     }
-- 
2.43.0


From 0cecd6d11c208baaa6a2ecb20e256902fc13e314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:22 +0000
Subject: [PATCH 16/23] fix: constants of the Fermi integral approximation

The linear term of the Joyce-Dixon series is r / sqrt(8), and the degenerate
expansion is in 3/4 sqrt(pi) r, as the comments say.  The values used made the
function wrong and discontinuous at the breakpoint.
---
 src/MathEval/Fermi.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MathEval/Fermi.cc b/src/MathEval/Fermi.cc
index 83aa28e..a9947fb 100644
--- a/src/MathEval/Fermi.cc
+++ b/src/MathEval/Fermi.cc
@@ -39,7 +39,7 @@ template <typename T>
 T Joyce(T r)
 {
     //static const T sqrt1_8 = 1.0/sqrt(8.);
-    static const T sqrt1_8 = 0.5 * boost::math::constants::one_div_root_pi<T>();
+    static const T sqrt1_8 = 0.5 * boost::math::constants::one_div_root_two<T>();
     static const T c1 = -4.9500897298752622e-3;
     static const T c2 =  1.4838577128872821e-4;
     static const T c3 = -4.4256301190009895e-6;
@@ -61,7 +61,7 @@ template <typename T>
 T dJoycedx(T r)
 {
     //static const double sqrt1_8 = 1.0/sqrt(8.);
-    static const T sqrt1_8 = 0.5 * boost::math::constants::one_div_root_pi<T>();
+    static const T sqrt1_8 = 0.5 * boost::math::constants::one_div_root_two<T>();
     static const T c1 = -2.0*4.9500897298752622e-3;
     static const T c2 =  3.0*1.4838577128872821e-4;
     static const T c3 = -4.0*4.4256301190009895e-6;
@@ -83,7 +83,7 @@ T Expansion(T r)
 {
     /// M_PI_4 = pi/4
     // static const T d1 = 3./4.* sqrt(M_PI);
-    static const T d1 = boost::math::constants::three_quarters_pi<T>();
+    static const T d1 = 0.75 * boost::math::constants::root_pi<T>();
     //static const T d2 = 4./3.;
     static const T d2 = static_cast<T>(4.)/static_cast<T>(3.);
     //static const T d3 = - M_PI * M_PI/6;
-- 
2.43.0


From f8bdbc80739ad9017dbe21ac1934986113b1be7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:22 +0000
Subject: [PATCH 17/23] fix: derivative of the degenerate Fermi expansion
 ignored the offset

The derivative of the square root divides by the square root, to which
Expansion adds an offset.
---
 src/MathEval/Fermi.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathEval/Fermi.cc b/src/MathEval/Fermi.cc
index a9947fb..57bb15a 100644
--- a/src/MathEval/Fermi.cc
+++ b/src/MathEval/Fermi.cc
@@ -110,7 +110,7 @@ T dExpansiondx(T r)
         static const T d1 = 3./4. * boost::math::constants::root_pi<T>();
         //static const double d2 = 1.0/3.0;
         static const T d2 = boost::math::constants::third<T>();
-        T sum = d0 * pow(d1 * r, d2) / Expansion(r);
+        T sum = d0 * pow(d1 * r, d2) / (Expansion(r) - offset);
         return sum;
 }
 
-- 
2.43.0


From 51ed677e7bbf907eba34d0a67f7031be26ea0099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:32 +0000
Subject: [PATCH 18/23] fix: models of circuit nodes were stale after a failed
 solve restored the solution

---
 src/math/Newton.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math/Newton.cc b/src/math/Newton.cc
index d603e65..85d1f23 100644
--- a/src/math/Newton.cc
+++ b/src/math/Newton.cc
@@ -445,6 +445,7 @@ void Newton<DoubleType>::RestoreSolutions()
     if (nk.HaveNodes())
     {
       nk.CopySolution("dcop_prev", "dcop");
+      nk.TriggerCallbacksOnNodes();
     }
   }
 }
-- 
2.43.0


From 972137009a6df50dde9595d88673f9d1badd698a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:52 +0000
Subject: [PATCH 19/23] fix: an error during a solve left a partly updated
 solution behind

---
 src/math/Newton.cc | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/math/Newton.cc b/src/math/Newton.cc
index 85d1f23..f19defc 100644
--- a/src/math/Newton.cc
+++ b/src/math/Newton.cc
@@ -642,6 +642,26 @@ bool Newton<DoubleType>::Solve(LinearSolver<DoubleType> &itermethod, const TimeM
 
   BackupSolutions();
 
+  //// An error thrown during the iterations must not leave a partly updated solution behind
+  struct RestoreOnError {
+    Newton<DoubleType> &newton;
+    bool active = true;
+    ~RestoreOnError()
+    {
+      if (active)
+      {
+        try
+        {
+          newton.RestoreSolutions();
+        }
+        catch (...)
+        {
+          //// the original error is reported
+        }
+      }
+    }
+  } restore_on_error{*this};
+
   /////
   ///// Permutation vector
   /////
@@ -824,6 +844,8 @@ bool Newton<DoubleType>::Solve(LinearSolver<DoubleType> &itermethod, const TimeM
     }
   }
 
+  restore_on_error.active = false;
+
   if (!converged)
   {
     RestoreSolutions();
-- 
2.43.0


From 3a5543fe249d8f3ceeadc5b9818ca818df9ab650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:27 +0000
Subject: [PATCH 20/23] fix: substitute the arguments of a declared function's
 derivative simultaneously

---
 src/adiff/UserFunc.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/adiff/UserFunc.cc b/src/adiff/UserFunc.cc
index d67aa1e..be08abb 100644
--- a/src/adiff/UserFunc.cc
+++ b/src/adiff/UserFunc.cc
@@ -124,10 +124,16 @@ EqObjPtr UserFunc::Derivative(EqObjPtr foo)
             x = con(0);
         }
         // substitute in all of our arguments
+        // the formal arguments are renamed first, so that an argument containing
+        // the name of another formal argument is not itself substituted
         for (size_t j = 0; j < args.size(); ++j)
         {
-            const std::string &var = UserFuncMap[name][j].first;
-            x = x->subst(var, args[j]);
+            const std::string &formal = UserFuncMap[name][j].first;
+            x = x->subst(formal, var("$" + std::to_string(j)));
+        }
+        for (size_t j = 0; j < args.size(); ++j)
+        {
+            x = x->subst("$" + std::to_string(j), args[j]);
         }
         // Bring this test out of the for loop
         if (y->isZero()) // don't want redundant ddx = 1
-- 
2.43.0


From 63a3e139dc1cfe504bcf7423b99d0778bfb208d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:51 +0000
Subject: [PATCH 21/23] fix: write all the digits of whole numbers in
 expressions

---
 src/adiff/EquationObject.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/adiff/EquationObject.cc b/src/adiff/EquationObject.cc
index 20d800d..79f6ae9 100644
--- a/src/adiff/EquationObject.cc
+++ b/src/adiff/EquationObject.cc
@@ -293,6 +293,10 @@ std::string Constant::createStringValue()
     {
       os << std::scientific << std::setprecision(15);
     }
+    else
+    {
+      os << std::setprecision(16);
+    }
     if (dvalue < 0.0)
     {
       os << "(" << dvalue << ")";
-- 
2.43.0


From 376abc0295f04a29c3b9c7276296fc798104b924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:59 +0000
Subject: [PATCH 22/23] fix: expand powers only when the exponent is a whole
 number

---
 src/adiff/EquationObject.cc | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/adiff/EquationObject.cc b/src/adiff/EquationObject.cc
index 79f6ae9..f9a60eb 100644
--- a/src/adiff/EquationObject.cc
+++ b/src/adiff/EquationObject.cc
@@ -1794,16 +1794,12 @@ EqObjPtr Pow::expand()
             dval = -dval;
         }
 
-        std::ostringstream os;
-        os << dval;
-        std::string tstr = os.str();
         // look for non floating point numbers
         // arbitrarily restrict exponents less than 100
         // warning magic number
-//      cout << "DEBUG tstr" << tstr << endl;
-        if ((dval < 100) && (tstr.find('.') == std::string::npos))
+        if ((dval < 100) && (dval == floor(dval)))
         {
-            const int ex = atoi(tstr.c_str());
+            const int ex = static_cast<int>(dval);
             if (ex > 1)
             {
                 // assume already expanded above
-- 
2.43.0


From 35c2838567add8a736c36d69f9673b0b4f26f8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:11 +0000
Subject: [PATCH 23/23] fix: in 1D, count ContactSurfaceArea only for contacts
 of the region itself

---
 src/GeomModels/SurfaceArea.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/GeomModels/SurfaceArea.cc b/src/GeomModels/SurfaceArea.cc
index 23d6082..fdc9cbc 100644
--- a/src/GeomModels/SurfaceArea.cc
+++ b/src/GeomModels/SurfaceArea.cc
@@ -19,6 +19,7 @@ SPDX-License-Identifier: Apache-2.0
 #include "Contact.hh"
 #include "Interface.hh"
 
+#include <algorithm>
 #include <iterator>
 #include <utility>
 
@@ -95,7 +96,9 @@ void SurfaceArea<DoubleType>::calcSurfaceArea1d() const
             const DoubleType length = 1.0;
             nv[ni] += length;
         }
-        if (ctc.count(ci))
+        // a contact on the other side of an interface shares the coordinate
+        const auto cit = ctc.find(ci);
+        if ((cit != ctc.end()) && std::any_of(cit->second.begin(), cit->second.end(), [this](const auto &cp) { return cp->GetRegion() == &GetRegion(); }))
         {
             const DoubleType length = 1.0;
             ca[ni] += length;
-- 
2.43.0

