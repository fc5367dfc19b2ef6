From cb1b01a1d8c9837bf72e20c4e9f659fe2bfb7431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:16 +0000
Subject: [PATCH 01/46] fix: zero the result of every fused block in
 fusive_A_mul_B

---
 anifem++/fem/operations/core.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/operations/core.inl b/anifem++/fem/operations/core.inl
index 4948cac..b3adc25 100644
--- a/anifem++/fem/operations/core.inl
+++ b/anifem++/fem/operations/core.inl
@@ -70,7 +70,7 @@ namespace Ani{
 #ifdef WITH_EIGEN
         if (not_use_eigen){
 #endif
-            std::fill(R, R + ARow * BCol, 0);
+            std::fill(R, R + ARow * BCol * fuse, 0);
             for (IndexType0 r = 0; r < fuse; ++r)
                 for (IndexType1 j = 0; j < nRow; ++j)
                     for (IndexType2 ib = 0; ib < ARow; ++ib) 
-- 
2.43.0


From f8e11eab223eaf3d7e7c932ac3832179e430288e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:32 +0000
Subject: [PATCH 02/46] fix: apply of block operators to d.o.f.s of several
 tetrahedrons and points

---
 anifem++/fem/operations/core.inl | 77 +++++++++-----------------------
 1 file changed, 20 insertions(+), 57 deletions(-)

diff --git a/anifem++/fem/operations/core.inl b/anifem++/fem/operations/core.inl
index b3adc25..42992e2 100644
--- a/anifem++/fem/operations/core.inl
+++ b/anifem++/fem/operations/core.inl
@@ -91,6 +91,23 @@ namespace Ani{
 #endif
     }
 
+    ///Multiply matrix of several blocks U, every of that has q points for every of f tetrahedrons, on vectors of d.o.f.s
+    template<typename BandMtx, typename Scalar>
+    inline void band_A_mul_dofs(const BandMtx& U, std::size_t nparts, std::size_t q, std::size_t f, std::size_t dim,
+                                const Scalar* dofs, std::size_t nfa, Scalar* R){
+        for (std::size_t db = 0; db < nparts; ++db){
+            std::size_t nRow = U.stRow[db+1] - U.stRow[db], nCol = U.stCol[db+1] - U.stCol[db];
+            for (std::size_t r = 0; r < f; ++r)
+                for (std::size_t n = 0; n < q; ++n)
+                    for (std::size_t k = 0; k < nRow; ++k){
+                        Scalar s = 0;
+                        for (std::size_t i = 0; i < nCol; ++i)
+                            s += U.data[db].data[k + nRow*(n + q*(i + nCol*r))] * dofs[U.stCol[db] + i + nfa*r];
+                        R[U.stRow[db] + k + dim*(n + q*r)] = s;
+                    }
+        }
+    }
+
     template<typename ScalarType>
     void getBaryCoord(
                   const ScalarType* XY0/*[3]*/, const ScalarType* XY1/*[3]*/,
@@ -381,25 +398,7 @@ template<typename MatrTpXY0, typename Scalar, typename IndexType>
         if (nparts == 1) {
             fusive_A_mul_B(opU.nRow <= 8 || nf <= 16, mem.f, nf, Vm.data[0].data, opU.nRow, dofs.data, 1, opU.data);
         } else {
-            double* tmp_opU = (mem.q <= 1) ? opU.data : mem.extraR.data;
-            for (std::size_t db = 0; db < nparts; ++db)
-                for (std::size_t r = 0; r < mem.f; ++r){
-                    auto VmRow = Vm.stRow[db+1] - Vm.stRow[db];
-                    auto VmCol = (Vm.stCol[db+1] - Vm.stCol[db])/mem.f;
-                    double* lVm = Vm.data[db].data + mem.q*VmRow * VmCol * r; 
-                    const double* ldofs = dofs.data + r*dofs.nRow + Vm.stCol[db];
-                    double* lopU = tmp_opU + r*dim*mem.q + Vm.stRow[db]*mem.q;
-                    fusive_A_mul_B(VmCol<= 8, mem.f, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
-                }
-            if (mem.q > 1) {
-                for (std::size_t n = 0; n < mem.q; ++n)
-                for (std::size_t db = 0; db < nparts; ++db){
-                    auto ldim = Vm.stRow[db+1] - Vm.stRow[db];
-                    double* from = tmp_opU + Vm.stRow[db]*mem.q + ldim*n;
-                    double* to = opU.data + dim*n + Vm.stRow[db];
-                    std::copy(from, from + ldim, to);
-                }
-            }    
+            band_A_mul_dofs(Vm, nparts, mem.q, mem.f, dim, dofs.data, dofs.nRow, opU.data);
         }
     }
 
@@ -490,25 +489,7 @@ template<typename MatrTpXY0, typename Scalar, typename IndexType>
         if (nparts == 1) {
             fusive_A_mul_B(dimA * mem.q <= 8 || nfA <= 16, mem.f, nfA, U.data[0].data, dimA * mem.q, const_cast<double*>(dofs.data), 1, opU.data);
         } else {
-            double* tmp_opU = (mem.q <= 1) ? opU.data : mem.extraR.data;
-            for (std::size_t db = 0; db < nparts; ++db)
-                for (std::size_t r = 0; r < mem.f; ++r){
-                    auto VmRow = U.stRow[db+1] - U.stRow[db];
-                    auto VmCol = (U.stCol[db+1] - U.stCol[db])/mem.f;
-                    double* lVm = U.data[db].data + mem.q*VmRow * VmCol * r; 
-                    const double* ldofs = dofs.data + r*dofs.nRow + U.stCol[db];
-                    double* lopU = tmp_opU + r*dimA*mem.q + U.stRow[db]*mem.q;
-                    fusive_A_mul_B(VmCol<= 8, mem.f, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
-                }
-            if (mem.q > 1) {
-                for (std::size_t n = 0; n < mem.q; ++n)
-                for (std::size_t db = 0; db < nparts; ++db){
-                    auto ldim = U.stRow[db+1] - U.stRow[db];
-                    double* from = tmp_opU + U.stRow[db]*mem.q + ldim*n;
-                    double* to = opU.data + dimA*n + U.stRow[db];
-                    std::copy(from, from + ldim, to);
-                }
-            }     
+            band_A_mul_dofs(U, nparts, mem.q, mem.f, dimA, dofs.data, dofs.nRow, opU.data);
         }
 #ifdef OPTIMIZER_TIMERS_FEM3DTET
         Inter_end1 = std::chrono::high_resolution_clock::now();
@@ -536,25 +517,7 @@ template<typename MatrTpXY0, typename Scalar, typename IndexType>
         if (nparts == 1) {
             fusive_A_mul_B(dimA * mem.q <= 8 || nfA <= 16, mem.f, nfA, U.data[0].data, dimA * mem.q, const_cast<double*>(dofs.data), 1, mem.V.data);
         } else {
-            double* tmp_opU = (mem.q <= 1) ? mem.V.data : mem.extraR.data;
-            for (std::size_t db = 0; db < nparts; ++db)
-                for (std::size_t r = 0; r < mem.f; ++r){
-                    auto VmRow = U.stRow[db+1] - U.stRow[db];
-                    auto VmCol = (U.stCol[db+1] - U.stCol[db])/mem.f;
-                    double* lVm = U.data[db].data + mem.q*VmRow * VmCol * r; 
-                    const double* ldofs = dofs.data + r*dofs.nRow + U.stCol[db];
-                    double* lopU = tmp_opU + r*dimA*mem.q + U.stRow[db]*mem.q;
-                    fusive_A_mul_B(VmCol<= 8, mem.f, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
-                }
-            if (mem.q > 1) {
-                for (std::size_t n = 0; n < mem.q; ++n)
-                for (std::size_t db = 0; db < nparts; ++db){
-                    auto ldim = U.stRow[db+1] - U.stRow[db];
-                    double* from = tmp_opU + U.stRow[db]*mem.q + ldim*n;
-                    double* to = mem.V.data + dimA*n + U.stRow[db];
-                    std::copy(from, from + ldim, to);
-                }
-            }    
+            band_A_mul_dofs(U, nparts, mem.q, mem.f, dimA, dofs.data, dofs.nRow, mem.V.data);
         }
 #ifdef OPTIMIZER_TIMERS_FEM3DTET
         Inter_end1 = std::chrono::high_resolution_clock::now();
-- 
2.43.0


From bb2f872094b49f5c5b7c3212c42ca00324186ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:24 +0000
Subject: [PATCH 03/46] fix: polynomial order of an operator on a product of
 spaces

---
 anifem++/fem/operators.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/operators.inl b/anifem++/fem/operators.inl
index 2010796..0647c90 100644
--- a/anifem++/fem/operators.inl
+++ b/anifem++/fem/operators.inl
@@ -51,7 +51,7 @@ namespace Ani{
         struct OrderCounter<SUM, OP>: public std::integral_constant<int, SUM>{};
 
         template<int SUM, int OP, class T, class... Types>
-        struct OrderCounter<SUM, OP, T, Types...>: public std::integral_constant<int, std::max(Operator<OP, T>::Order::value, DimCounter<SUM, OP, Types...>::value)>{};
+        struct OrderCounter<SUM, OP, T, Types...>: public std::integral_constant<int, std::max(Operator<OP, T>::Order::value, OrderCounter<SUM, OP, Types...>::value)>{};
         
         template<int SUM, int OP>
         struct NfaCounter<SUM, OP>: public std::integral_constant<int, SUM>{};
-- 
2.43.0


From 9f0aa5b4589d3cfa7233ddc38ef8e97f5fbca71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:10 +0000
Subject: [PATCH 04/46] fix: pass the index of the tetrahedron to tensors of
 PerSelection type

---
 anifem++/fem/diff_tensor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/diff_tensor.h b/anifem++/fem/diff_tensor.h
index b01feb4..9dad606 100644
--- a/anifem++/fem/diff_tensor.h
+++ b/anifem++/fem/diff_tensor.h
@@ -679,7 +679,7 @@ namespace Ani{
                         for (IndexType n = 0; n < q; ++n){
                             auto locD = args.mem.DIFF.data + idim*jdim*(n + q*r);
                             std::array<Scalar, 3> x{args.mem.XYG.data[3*(n + r*q)], args.mem.XYG.data[3*(n + r*q)+1], args.mem.XYG.data[3*(n + r*q)+2]};
-                            Dfnc(x, locD, {jdim, idim}, args.user_data, 0);
+                            Dfnc(x, locD, {jdim, idim}, args.user_data, r);
                         }
 
                     for (IndexType r = 0; r < f; ++r) {
-- 
2.43.0


From 09478c3dbf3c511ed7efef5fcddc0ef09b0d713d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:56 +0000
Subject: [PATCH 05/46] fix: capacity check of the memory-less evaluation
 functions

---
 anifem++/fem/operations/eval.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/operations/eval.inl b/anifem++/fem/operations/eval.inl
index f47d291..77c2c3d 100644
--- a/anifem++/fem/operations/eval.inl
+++ b/anifem++/fem/operations/eval.inl
@@ -49,7 +49,7 @@ namespace Ani{
         __internal_check_fem3DapplyL(XY0, XY1, XY2, XY3, f, q, nfa, dim, dofs, opU);            
         if (f > FUSION)
             throw std::runtime_error("This version of the function not supported fusion that more than " + std::to_string(FUSION));    
-        if (q > MAXPNTNUM*4)
+        if (q > MAXPNTNUM)
            throw std::runtime_error("This version of the function not supported more than " + std::to_string(MAXPNTNUM) + " points");
     }
 
-- 
2.43.0


From f655fa04dc0516fab5cdae866d9130c00430e082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:40 +0000
Subject: [PATCH 06/46] fix: number of d.o.f.s per element in
 VectorDofMap::TetDofID

The component of a locus is found by the number of d.o.f.s of the base on
one element, not on the whole tetrahedron.
---
 anifem++/fem/tetdofmap.cpp | 4 ++--
 anifem++/fem/tetdofmap.inl | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/anifem++/fem/tetdofmap.cpp b/anifem++/fem/tetdofmap.cpp
index b8d1df5..101efa0 100644
--- a/anifem++/fem/tetdofmap.cpp
+++ b/anifem++/fem/tetdofmap.cpp
@@ -440,13 +440,13 @@ DofT::LocalOrder DofT::VectorDofMap::LocalOrderOnTet(TetOrder dof_id) const  {
 }
 uint DofT::VectorDofMap::TetDofID(LocGeomOrder dof_id) const{ 
     assert(isValidIndex(dof_id) && "Wrong dof number");
-    int nOdf = base->NumDofOnTet(), lOdf = base->NumDofOnTet(dof_id.etype);
+    int nOdf = base->NumDofOnTet(), lOdf = base->NumDof(dof_id.etype);
     int component = dof_id.leid / lOdf;
     return component * nOdf + base->TetDofID(LocGeomOrder(dof_id.etype, dof_id.nelem, dof_id.leid % lOdf));
 }
 std::pair<uint, DofT::LocSymOrder> DofT::VectorDofMap::TetDofIDExt(LocGeomOrder dof_id) const{
     assert(isValidIndex(dof_id) && "Wrong dof number");
-    int nOdf = base->NumDofOnTet(), lOdf = base->NumDofOnTet(dof_id.etype);
+    int nOdf = base->NumDofOnTet(), lOdf = base->NumDof(dof_id.etype);
     int component = dof_id.leid / lOdf;
     auto id = base->TetDofIDExt(LocGeomOrder(dof_id.etype, dof_id.nelem, dof_id.leid % lOdf));
     return {component * nOdf + id.first, id.second};
diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 6fd22d5..8d91289 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -402,14 +402,14 @@ namespace FemComDetails{
     template<typename DofMapT>
     uint VectorDofMapCImpl<true, DofMapT>::TetDofID(LocGeomOrder dof_id) const{
         assert(isValidIndex(dof_id) && "Wrong dof number");
-        uint nOdf = m_base.NumDofOnTet(), lOdf = m_base.NumDofOnTet(dof_id.etype);
+        uint nOdf = m_base.NumDofOnTet(), lOdf = m_base.NumDof(dof_id.etype);
         uint component = dof_id.leid / lOdf;
         return component * nOdf + m_base.TetDofID(LocGeomOrder(dof_id.etype, dof_id.nelem, dof_id.leid % lOdf));
     }
     template<typename DofMapT>
     std::pair<uint, LocSymOrder> VectorDofMapCImpl<true, DofMapT>::TetDofIDExt(LocGeomOrder dof_id) const {
         assert(isValidIndex(dof_id) && "Wrong dof number");
-        uint nOdf = m_base.NumDofOnTet(), lOdf = m_base.NumDofOnTet(dof_id.etype);
+        uint nOdf = m_base.NumDofOnTet(), lOdf = m_base.NumDof(dof_id.etype);
         uint component = dof_id.leid / lOdf;
         auto id = m_base.TetDofIDExt(LocGeomOrder(dof_id.etype, dof_id.nelem, dof_id.leid % lOdf));
         return {component * nOdf + id.first, id.second};
-- 
2.43.0


From 9d7bb181acb8d56242e4b604546e00f15c28c1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:40 +0000
Subject: [PATCH 07/46] fix: ComplexDofMap::NumDofOnTet for a mask of several
 element types

---
 anifem++/fem/tetdofmap.h   | 2 +-
 anifem++/fem/tetdofmap.inl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/tetdofmap.h b/anifem++/fem/tetdofmap.h
index 1e91d0c..d2926dc 100644
--- a/anifem++/fem/tetdofmap.h
+++ b/anifem++/fem/tetdofmap.h
@@ -681,7 +681,7 @@ namespace Ani{
             uint NestedDim() const override { return m_spaces.size(); }
             uint ActualType() const override { return static_cast<uint>(BaseTypes::ComplexType); }
             uint NumDof(uchar etype) const override { auto t = GeomTypeToNum(etype); return m_spaceNumDof[t][m_spaces.size()] - m_spaceNumDof[t][0]; }
-            uint NumDofOnTet(uchar etype) const override { auto t = GeomTypeToNum(etype); return m_spaceNumDofTet[t][m_spaces.size()] - m_spaceNumDofTet[t][0]; }
+            uint NumDofOnTet(uchar etype) const override { return BaseDofMap::NumDofOnTet(etype); }
             uint NumDofOnTet() const override { return BaseDofMap::NumDofOnTet(); }
             std::array<uint, NGEOM_TYPES> NumDofs() const override;
             std::array<uint, NGEOM_TYPES> NumDofsOnTet() const override;
diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 8d91289..d54f3e4 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -547,7 +547,7 @@ namespace FemComDetails{
         uint NestedDim() const override { return Size::value; }
         uint ActualType() const override { return static_cast<uint>(BaseTypes::ComplexTemplateType); }
         uint NumDof(uchar etype) const override { auto t = GeomTypeToNum(etype); return m_spaceNumDof[t][Size::value] - m_spaceNumDof[t][0]; }
-        uint NumDofOnTet(uchar etype) const override { auto t = GeomTypeToNum(etype); return m_spaceNumDofTet[t][Size::value] - m_spaceNumDofTet[t][0]; }
+        uint NumDofOnTet(uchar etype) const override { return BaseDofMap::NumDofOnTet(etype); }
         uint NumDofOnTet() const override { auto nn = NumDofsOnTet(); return std::accumulate(nn.begin(), nn.end(), 0U); }
 
         std::array<uint, NGEOM_TYPES> NumDofs() const override;
-- 
2.43.0


From b46075c3b75bdd2402e5da80197f2e0c9b8addde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:51 +0000
Subject: [PATCH 08/46] fix: iteration of ComplexDofMap over the d.o.f.s of
 selected parts

A component without d.o.f.s on the selected parts ended the iteration, so the
d.o.f.s of the following components were never visited. In the geometric
ordering the first element and type were taken from the whole selection and
only the same type was looked for in other components, so that d.o.f.s of a
component with another type on the same element were skipped.
---
 anifem++/fem/tetdofmap.cpp | 58 +++++++++++++++++++-------------------
 anifem++/fem/tetdofmap.inl | 57 +++++++++++++++++++------------------
 2 files changed, 58 insertions(+), 57 deletions(-)

diff --git a/anifem++/fem/tetdofmap.cpp b/anifem++/fem/tetdofmap.cpp
index 101efa0..641c4cd 100644
--- a/anifem++/fem/tetdofmap.cpp
+++ b/anifem++/fem/tetdofmap.cpp
@@ -706,15 +706,17 @@ void DofT::ComplexDofMap::BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOr
         EndByGeomSparsity(lo);
         return;
     } else {
-        for (int num = 0; num < NGEOM_TYPES; ++num){
-            auto etype = NumToGeomType(num);
-            auto gdim = GeomTypeDim(etype);
-            auto pos = sp.beginPos(gdim);
-            if (!pos.isValid()) continue;
-            for (uint dim = 0; dim < m_spaces.size(); ++dim) if (m_spaces[dim]->DefinedOn(etype)){
-                m_spaces[dim]->BeginByGeomSparsity(sp, lo, preferGeomOrdering);
-                lo.gid += m_spaceNumDofsTet[dim], lo.leid += m_spaceNumDof[num][dim];
-                return;
+        for (auto pos = sp.beginPos(); pos.isValid(); pos = sp.nextPos(pos)){
+            TetGeomSparsity ss;
+            ss.set(pos.elem_dim, pos.elem_num);
+            for (uint dim = 0; dim < m_spaces.size(); ++dim){
+                LocalOrder ll, lend;
+                m_spaces[dim]->EndByGeomSparsity(lend);
+                m_spaces[dim]->BeginByGeomSparsity(ss, ll, preferGeomOrdering);
+                if (ll != lend){
+                    lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[GeomTypeToNum(ll.etype)][dim], ll.stype, ll.lsid);
+                    return;
+                }
             }
         }
         EndByGeomSparsity(lo);
@@ -735,8 +737,7 @@ void DofT::ComplexDofMap::IncrementByGeomSparsity(const TetGeomSparsity& sp, Loc
             lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[num][dim], ll.stype, ll.lsid);
             return;
         } else {
-            ++dim;
-            if (dim != m_spaces.size()){
+            for (++dim; dim < m_spaces.size(); ++dim){
                 m_spaces[dim]->EndByGeomSparsity(lend);
                 m_spaces[dim]->BeginByGeomSparsity(sp, ll, preferGeomOrdering);
                 if (ll != lend){
@@ -760,26 +761,25 @@ void DofT::ComplexDofMap::IncrementByGeomSparsity(const TetGeomSparsity& sp, Loc
             lo = LocalOrder(lgo.gid + m_spaceNumDofsTet[dim], lgo.etype, lgo.nelem, lgo.leid + m_spaceNumDof[num][dim], lgo.stype, lgo.lsid);
             return;
         } else {
-            do { ++dim; } while( dim < m_spaces.size() && !m_spaces[dim]->DefinedOn(ll.etype));
-            if (dim != m_spaces.size()){
-                ll.leid = 0;
-                LocGeomOrder lgo(ll.etype, ll.nelem, ll.leid);
-                num = GeomTypeToNum(ll.etype);
-                auto id = m_spaces[dim]->TetDofIDExt(lgo);
-                lo = LocalOrder(id.first + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[num][dim], id.second.stype, id.second.lsid);
-                return;
-            } else {
-                auto next_pos = sp.nextPos(TetGeomSparsity::Pos(gdim, lo.nelem));
-                if (!next_pos.isValid()) { 
-                    EndByGeomSparsity(lo); 
-                    return; 
+            for (++dim; dim < m_spaces.size(); ++dim){
+                m_spaces[dim]->EndByGeomSparsity(lend);
+                m_spaces[dim]->BeginByGeomSparsity(ss, lgo, preferGeomOrdering);
+                if (lgo != lend){
+                    num = GeomTypeToNum(lgo.etype);
+                    lo = LocalOrder(lgo.gid + m_spaceNumDofsTet[dim], lgo.etype, lgo.nelem, lgo.leid + m_spaceNumDof[num][dim], lgo.stype, lgo.lsid);
+                    return;
                 }
-                ss = sp;
-                for (int i = 0; i < next_pos.elem_dim; ++i) ss.unset(i);
-                for (int i = 0; i < next_pos.elem_num; ++i) ss.unset(next_pos.elem_dim, i);
-                BeginByGeomSparsity(ss, lo, preferGeomOrdering);
-                return;
             }
+            auto next_pos = sp.nextPos(TetGeomSparsity::Pos(gdim, lo.nelem));
+            if (!next_pos.isValid()) { 
+                EndByGeomSparsity(lo); 
+                return; 
+            }
+            ss = sp;
+            for (int i = 0; i < next_pos.elem_dim; ++i) ss.unset(i);
+            for (int i = 0; i < next_pos.elem_num; ++i) ss.unset(next_pos.elem_dim, i);
+            BeginByGeomSparsity(ss, lo, preferGeomOrdering);
+            return;
         }
     }
 }
diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index d54f3e4..07f1044 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -748,15 +748,17 @@ namespace FemComDetails{
             EndByGeomSparsity(lo);
             return;
         } else {
-            for (uint num = 0; num < NGEOM_TYPES; ++num){
-                auto etype = NumToGeomType(num);
-                auto gdim = GeomTypeDim(etype);
-                auto pos = sp.beginPos(gdim);
-                if (!pos.isValid()) continue;
-                for (uint dim = 0; dim < s.size(); ++dim) if (s[dim]->DefinedOn(etype)){
-                    s[dim]->BeginByGeomSparsity(sp, lo, preferGeomOrdering);
-                    lo.gid += m_spaceNumDofsTet[dim], lo.leid += m_spaceNumDof[num][dim];
-                    return;
+            for (auto pos = sp.beginPos(); pos.isValid(); pos = sp.nextPos(pos)){
+                TetGeomSparsity ss;
+                ss.set(pos.elem_dim, pos.elem_num);
+                for (uint dim = 0; dim < s.size(); ++dim){
+                    LocalOrder ll, lend;
+                    s[dim]->EndByGeomSparsity(lend);
+                    s[dim]->BeginByGeomSparsity(ss, ll, preferGeomOrdering);
+                    if (ll != lend){
+                        lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[GeomTypeToNum(ll.etype)][dim], ll.stype, ll.lsid);
+                        return;
+                    }
                 }
             }
             EndByGeomSparsity(lo);
@@ -779,8 +781,7 @@ namespace FemComDetails{
                 lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[num][dim], ll.stype, ll.lsid);
                 return;
             } else {
-                ++dim;
-                if (dim != s.size()){
+                for (++dim; dim < s.size(); ++dim){
                     s[dim]->EndByGeomSparsity(lend);
                     s[dim]->BeginByGeomSparsity(sp, ll, preferGeomOrdering);
                     if (ll != lend){
@@ -804,25 +805,25 @@ namespace FemComDetails{
                 lo = LocalOrder(lgo.gid + m_spaceNumDofsTet[dim], lgo.etype, lgo.nelem, lgo.leid + m_spaceNumDof[num][dim], lgo.stype, lgo.lsid);
                 return;
             } else {
-                do { ++dim; } while( dim < s.size() && !s[dim]->DefinedOn(ll.etype));
-                if (dim != s.size()){
-                    ll.leid = 0;
-                    LocGeomOrder lgo(ll.etype, ll.nelem, ll.leid);
-                    num = GeomTypeToNum(ll.etype);
-                    lo = LocalOrder(s[dim]->TetDofID(lgo) + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[num][dim], ll.stype, ll.lsid);
-                    return;
-                } else {
-                    auto next_pos = sp.nextPos(TetGeomSparsity::Pos(gdim, lo.nelem));
-                    if (!next_pos.isValid()) { 
-                        EndByGeomSparsity(lo); 
-                        return; 
+                for (++dim; dim < s.size(); ++dim){
+                    s[dim]->EndByGeomSparsity(lend);
+                    s[dim]->BeginByGeomSparsity(ss, lgo, preferGeomOrdering);
+                    if (lgo != lend){
+                        num = GeomTypeToNum(lgo.etype);
+                        lo = LocalOrder(lgo.gid + m_spaceNumDofsTet[dim], lgo.etype, lgo.nelem, lgo.leid + m_spaceNumDof[num][dim], lgo.stype, lgo.lsid);
+                        return;
                     }
-                    ss = sp;
-                    for (uint i = 0; i < next_pos.elem_dim; ++i) ss.unset(i);
-                    for (uint i = 0; i < next_pos.elem_num; ++i) ss.unset(next_pos.elem_dim, i);
-                    BeginByGeomSparsity(ss, lo, preferGeomOrdering);
-                    return;
                 }
+                auto next_pos = sp.nextPos(TetGeomSparsity::Pos(gdim, lo.nelem));
+                if (!next_pos.isValid()) { 
+                    EndByGeomSparsity(lo); 
+                    return; 
+                }
+                ss = sp;
+                for (uint i = 0; i < next_pos.elem_dim; ++i) ss.unset(i);
+                for (uint i = 0; i < next_pos.elem_num; ++i) ss.unset(next_pos.elem_dim, i);
+                BeginByGeomSparsity(ss, lo, preferGeomOrdering);
+                return;
             }
         }
     }
-- 
2.43.0


From d08cdb3cf250fe52f42e50257c3df29bbb1c7f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:31 +0000
Subject: [PATCH 09/46] fix: iteration of VectorDofMap of a product over the
 d.o.f.s of selected parts

The first d.o.f. was chosen by the type with the smallest number, but a
product goes first through its first component: d.o.f.s of components with
other types were skipped.
---
 anifem++/fem/tetdofmap.cpp | 20 +++-----------------
 anifem++/fem/tetdofmap.h   |  1 +
 anifem++/fem/tetdofmap.inl | 21 ++++-----------------
 3 files changed, 8 insertions(+), 34 deletions(-)

diff --git a/anifem++/fem/tetdofmap.cpp b/anifem++/fem/tetdofmap.cpp
index 641c4cd..89ea91c 100644
--- a/anifem++/fem/tetdofmap.cpp
+++ b/anifem++/fem/tetdofmap.cpp
@@ -513,23 +513,9 @@ void DofT::VectorDofMap::IncrementByGeomSparsity(const TetGeomSparsity& sp, Loca
         } else {
             ++dim;
             if (dim != static_cast<uint>(m_dim)){
-                LocGeomOrder lgo(lo.etype, lo.nelem, 0);
-                if (lo.etype == EDGE_ORIENT){
-                    auto eodf = base->NumDof(EDGE_UNORIENT);
-                    if (eodf > 0){
-                        lgo.etype = EDGE_UNORIENT;
-                        lOdf = eodf;
-                    }
-                }
-                else if (lo.etype == FACE_ORIENT){
-                    auto fodf = base->NumDof(FACE_UNORIENT);
-                    if (fodf > 0){
-                        lgo.etype = FACE_UNORIENT;
-                        lOdf = fodf;
-                    }
-                }
-                auto id = base->TetDofIDExt(lgo);
-                lo = LocalOrder(id.first + dim*nOdf, lgo.etype, lgo.nelem, lgo.leid + dim*lOdf, id.second.stype, id.second.lsid);
+                base->BeginByGeomSparsity(ss, ll, true);
+                lOdf = base->NumDof(ll.etype);
+                lo = LocalOrder(ll.gid + dim*nOdf, ll.etype, ll.nelem, ll.leid + dim*lOdf, ll.stype, ll.lsid);
                 return;
             } else {
                 dim = 0;
diff --git a/anifem++/fem/tetdofmap.h b/anifem++/fem/tetdofmap.h
index d2926dc..9d32aad 100644
--- a/anifem++/fem/tetdofmap.h
+++ b/anifem++/fem/tetdofmap.h
@@ -644,6 +644,7 @@ namespace Ani{
             bool operator==(const BaseDofMap& other) const override;
             std::shared_ptr<BaseDofMap> Copy() const override { return std::make_shared<VectorDofMap>(*this); }
             
+            void BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering = false) const override { m_dim ? base->BeginByGeomSparsity(sp, lo, preferGeomOrdering) : EndByGeomSparsity(lo); }
             void IncrementByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering = false) const override;
             ComponentTetOrder ComponentID(TetOrder dof_id) const { return {dof_id, dof_id % base->NumDofOnTet(), dof_id / base->NumDofOnTet()}; }
             ComponentElemOrder ComponentID(ElemOrder dof_id) const { auto nd = base->NumDof(dof_id.etype); return {dof_id.etype, dof_id.gid, dof_id.gid % nd, dof_id.gid / nd};  }
diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 07f1044..4096bb0 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -385,6 +385,7 @@ namespace FemComDetails{
         void GetNestedComponent(const int* ext_dims, int ndims, NestedDofMapBase& view) const override;
         std::shared_ptr<BaseDofMap> GetSubDofMap(const int* ext_dims, int ndims) override;
         bool operator==(const BaseDofMap& other) const override;
+        void BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering = false) const override { m_dim ? m_base.BeginByGeomSparsity(sp, lo, preferGeomOrdering) : EndByGeomSparsity(lo); }
         void IncrementByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering = false) const override;
 
         std::shared_ptr<BaseDofMap> Copy() const override { return std::make_shared<VectorDofMapCImpl<true, DofMapT>>(*this); }
@@ -490,23 +491,9 @@ namespace FemComDetails{
             } else {
                 ++dim;
                 if (dim != static_cast<uint>(m_dim)){
-                    LocGeomOrder lgo(lo.etype, lo.nelem, 0);
-                    if (lo.etype == EDGE_ORIENT){
-                        auto eodf = m_base.NumDof(EDGE_UNORIENT);
-                        if (eodf > 0){
-                            lgo.etype = EDGE_UNORIENT;
-                            lOdf = eodf;
-                        }
-                    }
-                    else if (lo.etype == FACE_ORIENT){
-                        auto fodf = m_base.NumDof(FACE_UNORIENT);
-                        if (fodf > 0){
-                            lgo.etype = FACE_UNORIENT;
-                            lOdf = fodf;
-                        }
-                    }
-                    auto id = m_base.TetDofIDExt(lgo);
-                    lo = LocalOrder(id.first + dim*nOdf, lgo.etype, lgo.nelem, lgo.leid + dim*lOdf, id.second.stype, id.second.lsid);
+                    m_base.BeginByGeomSparsity(ss, ll, true);
+                    lOdf = m_base.NumDof(ll.etype);
+                    lo = LocalOrder(ll.gid + dim*nOdf, ll.etype, ll.nelem, ll.leid + dim*lOdf, ll.stype, ll.lsid);
                     return;
                 } else {
                     dim = 0;
-- 
2.43.0


From 13efcf8e1425f85f8109ebdcefc2717336bc7aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:45 +0000
Subject: [PATCH 10/46] fix: BaseDofMap::isValidIndex with symmetry order was
 always false

---
 anifem++/fem/tetdofmap.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 4096bb0..a6b0c2f 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -33,7 +33,7 @@ inline bool BaseDofMap::isValidIndex(LocalOrder dof_id, bool with_sym_order) con
     auto r = isValidIndex(dof_id.getTetOrder()) && isValidIndex(dof_id.getGeomOrder());
     if (r && with_sym_order){
         auto m = SymComponents(dof_id.etype);
-        r = ((m | DofSymmetries::MASK_UNDEF) || dof_id.lsid >= DofSymmetries::symmetries_amount(dof_id.etype)) ? false : (m | (1 << dof_id.stype));
+        r = dof_id.stype < DofSymmetries::symmetries_amount(dof_id.etype) && (m & (1 << dof_id.stype)) && dof_id.lsid < DofSymmetries::symmetry_volume(dof_id.etype, dof_id.stype);
     } 
     return r; 
 }
-- 
2.43.0


From 343db4a1ab19f335389083e4d624932935f476f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:45 +0000
Subject: [PATCH 11/46] fix: LocGeomOrder::isValid compared the d.o.f. number
 with the number of elements

---
 anifem++/fem/tetdofmap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/tetdofmap.h b/anifem++/fem/tetdofmap.h
index 9d32aad..0cb40d8 100644
--- a/anifem++/fem/tetdofmap.h
+++ b/anifem++/fem/tetdofmap.h
@@ -99,7 +99,7 @@ namespace Ani{
             uchar nelem;    ///< number of geometrical element on the tetrahedron (from 0 to 3 for NODE or FACE, from 0 to 6 for EDGE, always 0 for CELL)
             LocGeomOrder(): leid(uint(-1)), etype(UNDEF), nelem(0) {}
             LocGeomOrder(uchar etype, uchar nelem, uint leid): leid{leid}, etype{etype}, nelem{nelem} {} 
-            inline bool isValid() const { return etype != UNDEF && leid != uint(-1) &&  GeomTypeIsValid(etype) && leid < GeomTypeTetElems(etype); }
+            inline bool isValid() const { return etype != UNDEF && leid != uint(-1) &&  GeomTypeIsValid(etype) && nelem < GeomTypeTetElems(etype); }
             bool operator==(const LocGeomOrder& a) const { return etype == a.etype && nelem == a.nelem && leid == a.leid; }
             bool operator!=(const LocGeomOrder& a) const { return !(*this == a); }
         };
-- 
2.43.0


From a71dc6f31a458c03b5c69365268af4c455846bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:46 +0000
Subject: [PATCH 12/46] fix: complement of TetGeomSparsity set bits of elements
 that do not exist

The complement of a full selection was not empty, and iteration over d.o.f.s
began at an element that does not exist.
---
 anifem++/fem/tetdofmap.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index a6b0c2f..3667554 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -24,8 +24,9 @@ inline TetGeomSparsity operator^(TetGeomSparsity a, TetGeomSparsity b){
 }
 inline TetGeomSparsity operator~(TetGeomSparsity a){ 
     TetGeomSparsity res; 
+    res.setCell(true);
     for (uchar d = 0; d < 4; ++d) 
-        res.elems[d] = ~a.elems[d];
+        res.elems[d] &= ~a.elems[d];
     return res;
 }
 
-- 
2.43.0


From 7f361534bc98a71a7fe0f022f1d8427e72f420a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:00 +0000
Subject: [PATCH 13/46] fix: setVectorDirMtx wrote outside of its work column

---
 anifem++/fem/operations/dc_on_dof.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/operations/dc_on_dof.inl b/anifem++/fem/operations/dc_on_dof.inl
index 40a15d3..e760006 100644
--- a/anifem++/fem/operations/dc_on_dof.inl
+++ b/anifem++/fem/operations/dc_on_dof.inl
@@ -82,11 +82,11 @@ namespace Ani{
                     Scalar s = 0;
                     for (uint p = 0; p < dim; ++p)
                         s += A(j, dof_id[p])*Vorth(id[k], p);
-                    C(j, 1) = s;
+                    C(j, 0) = s;
                 }
                 for (uint l = 0; l < dim; ++l)
                     for (std::size_t j = 0; j < A.nRow; ++j)
-                        A(j, dof_id[l]) -= C(j, 1)*Vorth(id[k], l);
+                        A(j, dof_id[l]) -= C(j, 0)*Vorth(id[k], l);
                 for (std::size_t j = 0; j < A.nCol; ++j)
                     A(dof_id[id[k]], j) = 0;
                 for (uint m = 0; m < dim; ++m)
-- 
2.43.0


From ec0c7714d5d93b8a9a00a9da3165553617c02cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:00 +0000
Subject: [PATCH 14/46] fix: applyVectorDir spoiled the prescribed values when
 several conditions are set

---
 anifem++/fem/operations/dc_on_dof.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anifem++/fem/operations/dc_on_dof.inl b/anifem++/fem/operations/dc_on_dof.inl
index e760006..ade2e23 100644
--- a/anifem++/fem/operations/dc_on_dof.inl
+++ b/anifem++/fem/operations/dc_on_dof.inl
@@ -107,8 +107,9 @@ namespace Ani{
                     for (std::size_t j = 0; j < A.nRow; ++j)
                         F(j, 0) -= A(j, did)*Vorth(id[k], m)*bc[k];
                 }
-                F(dof_id[id[k]], 0) = bc[k]; 
             }
+            for (uint k = 0; k < ndc; ++k)
+                F(dof_id[id[k]], 0) = bc[k]; 
         }
         template<typename Scalar, typename RandomIt>
         inline void setVectorDirResidual(DenseMatrix <Scalar>& F, 
-- 
2.43.0


From fa0c9f1914124a104e40e9d17ab4b2768ed08430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:25 +0000
Subject: [PATCH 15/46] fix: DOF_coord of P0 accumulated the centre on top of
 the old value

---
 anifem++/fem/operators.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/anifem++/fem/operators.h b/anifem++/fem/operators.h
index 7429522..80da28b 100644
--- a/anifem++/fem/operators.h
+++ b/anifem++/fem/operators.h
@@ -732,6 +732,7 @@ namespace Ani{
         static inline void at(int odf, const ScalarType *nodes, ScalarType *coord){
             assert(odf == 0 && "FEM_P0 have only 1 odf");
             (void) odf;
+            for (int k = 0; k < 3; ++k) coord[k] = 0;
             for (int i = 0; i < 4; ++i)
                 for (int k = 0; k < 3; ++k)
                     coord[k] += nodes[3 * i + k];
-- 
2.43.0


From 5bd08411dd34c1ecc9b00b2b5d933e60f81562ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:25 +0000
Subject: [PATCH 16/46] fix: DOF_coord of P3 numbered the faces in another
 order than the basis functions

---
 anifem++/fem/operators.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/operators.h b/anifem++/fem/operators.h
index 80da28b..bb31dd0 100644
--- a/anifem++/fem/operators.h
+++ b/anifem++/fem/operators.h
@@ -774,8 +774,8 @@ namespace Ani{
             if (odf < 4)
                 std::copy(nodes + 3 * odf, nodes + 3 * odf + 3, coord);
             else if (odf >= 16) {
-                odf -= 15;
-                int i1 = (odf == 4), i2 = 1 + (odf > 2), i3 = 3 - (odf == 1);
+                odf -= 16;
+                int i1 = odf, i2 = (odf + 1) % 4, i3 = (odf + 2) % 4;
                 for (int i = 0; i < 3; ++i)
                     coord[i] = (nodes[3 * i1 + i] + nodes[3 * i2 + i] + nodes[3 * i3 + i]) / 3;
             } else {
-- 
2.43.0


From 829d00ad53d487e06b187ac60b0947cbc42a1a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:25 +0000
Subject: [PATCH 17/46] fix: DOF_coord of CR1 returned the centre of another
 face

---
 anifem++/fem/operators.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/operators.h b/anifem++/fem/operators.h
index bb31dd0..b4795e7 100644
--- a/anifem++/fem/operators.h
+++ b/anifem++/fem/operators.h
@@ -798,7 +798,7 @@ namespace Ani{
         template<typename ScalarType = double>
         static inline void at(int odf, const ScalarType  *nodes, ScalarType  *coord){
             for (int i = 0; i < 3; ++i)
-                coord[i] = (nodes[i + 3*((odf + 1) % 4)] + nodes[i + 3*((odf + 2) % 4)] + nodes[i + 3*((odf + 3) % 4)]) / 3;
+                coord[i] = (nodes[i + 3*odf] + nodes[i + 3*((odf + 1) % 4)] + nodes[i + 3*((odf + 2) % 4)]) / 3;
         }
     };
 
-- 
2.43.0


From aa9576a47c00ba63d42f7b87e0f49664407e3ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:25 +0000
Subject: [PATCH 18/46] fix: DOF_coord of product and union spaces did not
 compile

---
 anifem++/fem/operators.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/operators.h b/anifem++/fem/operators.h
index b4795e7..05e5b0c 100644
--- a/anifem++/fem/operators.h
+++ b/anifem++/fem/operators.h
@@ -844,7 +844,7 @@ namespace Ani{
                 if (odf < OFF + Operator<IDEN, LocalVar>::Nfa::value){
                     DOF_coord<LocalVar>::template at<ScalarType>(odf - OFF, nodes, coord);
                 } else {
-                    FindStart<I+1, N, OFF + Operator<IDEN, LocalVar>::Nfa::value>(odf, nodes, coord);
+                    FindStart<I+1, N, OFF + Operator<IDEN, LocalVar>::Nfa::value>::Impl(odf, nodes, coord);
                 }
             }
         };
@@ -874,7 +874,7 @@ namespace Ani{
                 if (odf < OFF + Operator<IDEN, LocalVar>::Nfa::value){
                     DOF_coord<LocalVar>::template at<ScalarType>(odf - OFF, nodes, coord);
                 } else {
-                    FindStart<I+1, N, OFF + Operator<IDEN, LocalVar>::Nfa::value>(odf, nodes, coord);
+                    FindStart<I+1, N, OFF + Operator<IDEN, LocalVar>::Nfa::value>::Impl(odf, nodes, coord);
                 }
             }
         };
-- 
2.43.0


From 910d6623ec0a9f512bf5abec8fe6a1c32b6ac5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:41 +0000
Subject: [PATCH 19/46] fix: FemUnionT with RT0 read through a null pointer in
 the duality matrix

---
 anifem++/fem/operators.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/operators.inl b/anifem++/fem/operators.inl
index 0647c90..6f1e5a8 100644
--- a/anifem++/fem/operators.inl
+++ b/anifem++/fem/operators.inl
@@ -348,12 +348,13 @@ namespace Ani{
                 Tetra<const double> XYZ(XYZa + 0, XYZa + 3, XYZa + 6, XYZa + 9);
                 AniMemory<double, int> mem;
                 std::array<double, 4> xyl{1, 0, 0, 0};
+                double one = 1;
                 mem.XYP.Init(XYZa, 3 * 4);
                 mem.PSI.Init(XYZa + 3, 3 * 3);
                 mem.XYG.Init(nullptr, 3);
-                mem.DET.Init(nullptr, 0);
+                mem.DET.Init(&one, 1);
                 mem.XYL.Init(xyl.data(), 4);
-                mem.WG.Init(nullptr, 0);
+                mem.WG.Init(&one, 1);
                 mem.U.Init(dmem.data(), reqUsz);
                 mem.extraR.Init(dmem.data() + reqUsz, reqExtraR);
                 mem.q = 1;
-- 
2.43.0


From 1011c6d73600b2f613de872df76fa752922e938e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:33 +0000
Subject: [PATCH 20/46] fix: interpolateByRegion did not compile

---
 anifem++/fem/operations/interpolate.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/anifem++/fem/operations/interpolate.inl b/anifem++/fem/operations/interpolate.inl
index 3d14e76..d372e2a 100644
--- a/anifem++/fem/operations/interpolate.inl
+++ b/anifem++/fem/operations/interpolate.inl
@@ -36,8 +36,8 @@ namespace Ani{
         res.iSize += 0;
         auto pnt_mem0 = fem3DpntL_memory_requirements<Operator<IDEN, FEMTYPE>, Operator<IDEN, FEMTYPE>, ScalarType, IndexType>(nquads);
         auto pnt_mem1 = fem3DpntL_memory_requirements<Operator<IDEN, FemFix<FEM_P0>>, Operator<IDEN, FEMTYPE>, ScalarType, IndexType>(nquads);
-        res.dSize += std::max({pnt_mem0.dSize, pnt_mem1.dSize, static_cast<IndexType>(NFA*(NFA+1)/2)});
-        res.iSize += std::max({pnt_mem0.iSize, pnt_mem1.iSize, static_cast<IndexType>(NFA)});
+        res.dSize += std::max({pnt_mem0.dSize, pnt_mem1.dSize, static_cast<std::size_t>(NFA*(NFA+1)/2)});
+        res.iSize += std::max({pnt_mem0.iSize, pnt_mem1.iSize, static_cast<std::size_t>(NFA)});
 
         return res;
     }
@@ -47,7 +47,7 @@ namespace Ani{
         DofT::TetGeomSparsity sp;
         if (elem_type == DofT::NODE){
             sp.setNode(ielem);
-            interpolateByDOFs(XYZ, func, udofs, sp, user_data, max_quad_order);
+            interpolateByDOFs<FEMTYPE>(XYZ, func, udofs, sp, user_data, max_quad_order);
             return;
         }
 
@@ -74,7 +74,7 @@ namespace Ani{
         };
         ScalarType* am = d_alloc(NFA*NFA);
         ScalarType* fm = d_alloc(NFA);
-        ScalarType* xyl = nullptr, wg = nullptr;
+        ScalarType* xyl = nullptr, *wg = nullptr;
         IndexType nquads = 0;
         switch(DofT::DimToGeomType(DofT::GeomTypeDim(elem_type))) {
             case DofT::EDGE:{
-- 
2.43.0


From 00d636d0dc10520d47c822a3325877e820a18333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:33 +0000
Subject: [PATCH 21/46] fix: interpolateByRegion refused exactly enough work
 memory

---
 anifem++/fem/operations/interpolate.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/operations/interpolate.inl b/anifem++/fem/operations/interpolate.inl
index d372e2a..0014f84 100644
--- a/anifem++/fem/operations/interpolate.inl
+++ b/anifem++/fem/operations/interpolate.inl
@@ -53,7 +53,7 @@ namespace Ani{
 
         constexpr auto NFA = Operator<IDEN, FEMTYPE>::Nfa::value;
         auto d_alloc = [&plainMemory](auto sz)->ScalarType*{ 
-            if (plainMemory.dSize > sz){
+            if (plainMemory.dSize >= static_cast<std::size_t>(sz)){
                 plainMemory.dSize -= sz;
                 auto res = plainMemory.ddata;
                 plainMemory.ddata += sz;
@@ -63,7 +63,7 @@ namespace Ani{
             return nullptr;    
         };
         auto i_alloc = [&plainMemory](auto sz)->IndexType*{ 
-            if (plainMemory.iSize > sz){
+            if (plainMemory.iSize >= static_cast<std::size_t>(sz)){
                 plainMemory.iSize -= sz;
                 auto res = plainMemory.idata;
                 plainMemory.idata += sz;
-- 
2.43.0


From a89574e2e943bbf5f6859149a129d0c93dbf83ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:30 +0000
Subject: [PATCH 22/46] fix: projection on an edge or face used uninitialised
 barycentric coordinates

---
 anifem++/fem/fem_space.cpp              | 2 ++
 anifem++/fem/operations/interpolate.inl | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index 8945733..820d515 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -158,6 +158,7 @@ namespace Ani{
                 auto formula = segment_quadrature_formulas(max_quad_order);
                 nquads = formula.GetNumPoints();
                 xyl = d_alloc(4*nquads), wg = d_alloc(nquads);
+                std::fill(xyl, xyl + 4*nquads, 0);
                 for (uint i = 0; i < nquads; ++i){
                     auto q = formula.GetPointWeight(i);
                     xyl[4*i + lookup_nds[2*ielem]] = q.p[0]; 
@@ -171,6 +172,7 @@ namespace Ani{
                 auto formula = triangle_quadrature_formulas(max_quad_order);
                 nquads = formula.GetNumPoints();
                 xyl = d_alloc(4*nquads), wg = d_alloc(nquads);
+                std::fill(xyl, xyl + 4*nquads, 0);
                 for (uint i = 0; i < nquads; ++i){
                     auto q = formula.GetPointWeight(i);
                     xyl[4*i + (ielem+0)%4] = q.p[0]; 
diff --git a/anifem++/fem/operations/interpolate.inl b/anifem++/fem/operations/interpolate.inl
index 0014f84..abb2531 100644
--- a/anifem++/fem/operations/interpolate.inl
+++ b/anifem++/fem/operations/interpolate.inl
@@ -83,6 +83,7 @@ namespace Ani{
                 auto formula = segment_quadrature_formulas(max_quad_order);
                 nquads = formula.GetNumPoints();
                 xyl = d_alloc(4*nquads), wg = d_alloc(nquads);
+                std::fill(xyl, xyl + 4*nquads, 0);
                 for (int i = 0; i < nquads; ++i){
                     auto q = formula.GetPointWeight(i);
                     xyl[4*i + lookup_nds[2*ielem]] = q.p[0]; 
@@ -96,6 +97,7 @@ namespace Ani{
                 auto formula = triangle_quadrature_formulas(max_quad_order);
                 nquads = formula.GetNumPoints();
                 xyl = d_alloc(4*nquads), wg = d_alloc(nquads);
+                std::fill(xyl, xyl + 4*nquads, 0);
                 for (int i = 0; i < nquads; ++i){
                     auto q = formula.GetPointWeight(i);
                     xyl[4*i + (ielem+0)%4] = q.p[0]; 
-- 
2.43.0


From b69060d00da09a193ae1477d2088457428431411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:43 +0000
Subject: [PATCH 23/46] fix: interpolateOnRegion kept a view of a destroyed P0
 space

---
 anifem++/fem/fem_space.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index 820d515..6faf6bc 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -114,7 +114,8 @@ namespace Ani{
         PlainMemoryX<> mem_req;
         mem_req.dSize += nfa*nfa + nfa + 5*nquads;
         auto aplIDEN = getOP(IDEN);
-        auto aplP0 = P0Space().getOP(IDEN);
+        P0Space spaceP0;
+        auto aplP0 = spaceP0.getOP(IDEN);
         PlainMemoryX<> pnt_mem0 = fem3DpntL_memory_requirements<DfuncTraits<TENSOR_NULL>>(aplIDEN, aplIDEN, nquads, 1);
         PlainMemoryX<> pnt_mem1 = fem3DpntL_memory_requirements<DfuncTraits<TENSOR_GENERAL>>(aplP0, aplIDEN, nquads, 1);
         mem_req.dSize += std::max({pnt_mem0.dSize, pnt_mem1.dSize, static_cast<decltype(pnt_mem0.dSize)>(nfa*(nfa+1)/2)});
@@ -134,7 +135,8 @@ namespace Ani{
         uint nquads = 0;
         auto geom_tp = DofT::DimToGeomType(DofT::GeomTypeDim(elem_type));
         auto aplIDEN = getOP(IDEN);
-        auto aplP0 = P0Space().getOP(IDEN);
+        P0Space spaceP0;
+        auto aplP0 = spaceP0.getOP(IDEN);
         auto d_alloc = [&mem_req](int sz)->double*{ 
             assert(mem_req.dSize >= static_cast<std::size_t>(sz) && "Not enough real memory");
             mem_req.dSize -= sz;
-- 
2.43.0


From cbbff51be267e2d7f4ea86804012191b35d36009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:46 +0000
Subject: [PATCH 24/46] fix: interpolateOnRegion_mem_req asked too little for a
 node

---
 anifem++/fem/fem_space.cpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index 6faf6bc..b1cf840 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -81,18 +81,8 @@ namespace Ani{
         return ApplyOpFromSpaceView(op, this);
     }
     PlainMemoryX<> BaseFemSpace::interpolateOnRegion_mem_req(uchar elem_type, uint max_quad_order) const{
-        if (elem_type == DofT::NODE){
-            DofT::TetGeomSparsity sp;
-            sp.setNode(0);
-            PlainMemoryX<> res;
-            for (auto it = m_order.beginBySparsity(sp); it != m_order.endBySparsity(); ++it){
-                auto lres = interpolateOnDOF_mem_req(it->gid, max_quad_order);
-                res.dSize = std::max(res.dSize, lres.dSize);
-                res.iSize = std::max(res.iSize, lres.iSize);
-                res.mSize = std::max(res.mSize, lres.mSize);
-            }
-            return res;
-        }
+        if (elem_type == DofT::NODE)
+            return interpolateByDOFs_mem_req(max_quad_order);
         uint nfa = m_order.NumDofOnTet();
         uint nquads = 0;
         auto geom_tp = DofT::DimToGeomType(DofT::GeomTypeDim(elem_type));
-- 
2.43.0


From 46bc9e719fafc23dd3ed800a5894b8234181e73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:13 +0000
Subject: [PATCH 25/46] fix: pow of a number and an expression without
 derivatives did not compile

---
 anifem++/autodiff/autodiff.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/autodiff/autodiff.h b/anifem++/autodiff/autodiff.h
index 2e128d1..b2708be 100644
--- a/anifem++/autodiff/autodiff.h
+++ b/anifem++/autodiff/autodiff.h
@@ -212,7 +212,7 @@ FuncVal<EX1> hypot(const EX1* vec, ::std::size_t nvec);
 template<typename EX1, typename ADCheck1<EX1>::type* = nullptr>
 FuncVal<EX1> hypot(::std::initializer_list<EX1> vec){ return hypot(vec.begin(), vec.size()); }
 template<typename EX1, typename ADCheck1<EX1>::type* = nullptr> 
-FuncVal<EX1> pow(typename EX1::Storage::ValueType a, EX1 q) { return pow(_EXParam<EX1>(a), q); }
+FuncVal<EX1> pow(typename EX1::Storage::ValueType a, EX1 q) { return make_ADVal(pow(_EXParam<EX1>(a), q)); }
 template<typename EX1, typename ADCheck1<EX1>::type* = nullptr>
 FuncVal<EX1> sq(EX1 a);
 template<typename EX1, typename ADCheck1<EX1>::type* = nullptr>
-- 
2.43.0


From f66dc10e983bb917e455dd29883490799a898046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:13 +0000
Subject: [PATCH 26/46] fix: second derivative of a quotient whose denominator
 is linear

---
 anifem++/autodiff/autodiff.h   | 11 +++++++++--
 anifem++/autodiff/autodiff.inl | 11 ++++-------
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/anifem++/autodiff/autodiff.h b/anifem++/autodiff/autodiff.h
index b2708be..e3d5e08 100644
--- a/anifem++/autodiff/autodiff.h
+++ b/anifem++/autodiff/autodiff.h
@@ -153,6 +153,13 @@ using MulVal = ADVal< ADState<
                     (EX1::State::NotTrivialDeriv && EX2::State::NotTrivialDeriv)>,
                 typename EX1::Storage
                 >;  
+template<typename EX1, typename EX2, typename std::enable_if<std::is_same<typename EX1::Storage, typename EX2::Storage>::value>::type* = nullptr>
+using DivVal = ADVal< ADState<
+                    EX1::State::NotTrivialValue || EX2::State::NotTrivialValue, 
+                    EX1::State::NotTrivialDeriv || EX2::State::NotTrivialDeriv,
+                    EX1::State::NotTrivialSecondDeriv || EX2::State::NotTrivialSecondDeriv || EX2::State::NotTrivialDeriv>,
+                typename EX1::Storage
+                >;  
 template<typename EX1>
 using CopVal = ADVal< typename EX1::State, typename EX1::Storage >;
 template<typename EX1>
@@ -176,7 +183,7 @@ UnionVal<EX1, EX2> operator-(EX1 a, EX2 b);
 template<typename EX1, typename EX2, typename ADCheck2<EX1, EX2>::type* = nullptr>
 MulVal<EX1, EX2> operator*(EX1 a, EX2 b);
 template<typename EX1, typename EX2, typename ADCheck2<EX1, EX2>::type* = nullptr>
-MulVal<EX1, EX2> operator/(EX1 a, EX2 b);
+DivVal<EX1, EX2> operator/(EX1 a, EX2 b);
 
 template<typename EX1>
 using _EXParam = Param<typename EX1::Storage>;
@@ -195,7 +202,7 @@ CopVal<EX1> operator*(typename EX1::Storage::ValueType b, EX1 a) { return _EXPar
 template<typename EX1, typename ADCheck1<EX1>::type* = nullptr>
 CopVal<EX1> operator/(EX1 a, typename EX1::Storage::ValueType b) { return a / _EXParam<EX1>(b); }
 template<typename EX1, typename ADCheck1<EX1>::type* = nullptr>
-CopVal<EX1> operator/(typename EX1::Storage::ValueType b, EX1 a) { return _EXParam<EX1>(b) / a; }
+DivVal<_EXParam<EX1>, EX1> operator/(typename EX1::Storage::ValueType b, EX1 a) { return _EXParam<EX1>(b) / a; }
 
 template<typename EX1, typename ADCheck1<EX1>::type* = nullptr> 
 FuncVal<EX1> pow(EX1 a, typename EX1::Storage::ValueType q);
diff --git a/anifem++/autodiff/autodiff.inl b/anifem++/autodiff/autodiff.inl
index 8219412..8ad53bf 100644
--- a/anifem++/autodiff/autodiff.inl
+++ b/anifem++/autodiff/autodiff.inl
@@ -136,7 +136,7 @@ MulVal<EX1, EX2> operator*(EX1 a, EX2 b){
     return {dif, v, m, r};
 }
 template<typename EX1, typename EX2, typename ADCheck2<EX1, EX2>::type* Dummy>
-MulVal<EX1, EX2> operator/(EX1 a, EX2 b){
+DivVal<EX1, EX2> operator/(EX1 a, EX2 b){
     // using VT = typename EX1::Storage::ValueType; 
     using GT = typename EX1::Storage::GradientType; using HT = typename EX1::Storage::HessianType;
     auto av = a(), bv = b();
@@ -155,16 +155,13 @@ MulVal<EX1, EX2> operator/(EX1 a, EX2 b){
     }
     HT r;
     if ((EX1::State::NotTrivialSecondDeriv || EX2::State::NotTrivialSecondDeriv || 
-        (EX1::State::NotTrivialDeriv && EX2::State::NotTrivialValue)) 
+        EX2::State::NotTrivialDeriv) 
         && dif >= 2){
         CONSTIF (EX1::State::NotTrivialDeriv && EX2::State::NotTrivialValue)
             r -= (1/(bv*bv))*HT::TensorSymMul2(am, bm);
         CONSTIF (EX1::State::NotTrivialSecondDeriv ) r += a.DD() / bv;
-        CONSTIF (EX2::State::NotTrivialSecondDeriv ) {
-            auto c = av / (bv * bv);
-            auto rb = b.DD();
-            r += c * ( (2./bv) * HT::TensorSquare(bm) - rb );
-        }
+        CONSTIF (EX2::State::NotTrivialDeriv ) r += (2 * av / (bv * bv * bv)) * HT::TensorSquare(bm);
+        CONSTIF (EX2::State::NotTrivialSecondDeriv ) r -= (av / (bv * bv)) * b.DD();
     }
     return {dif, v, m, r};
 }
-- 
2.43.0


From b58ee007bbca5ee39d1298e0ac0ee1b95952d20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:13 +0000
Subject: [PATCH 27/46] fix: hypot of one negative argument

---
 anifem++/autodiff/autodiff.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/autodiff/autodiff.inl b/anifem++/autodiff/autodiff.inl
index 8ad53bf..994c334 100644
--- a/anifem++/autodiff/autodiff.inl
+++ b/anifem++/autodiff/autodiff.inl
@@ -339,7 +339,7 @@ template<typename EX1, typename ADCheck1<EX1>::type* Dummy>
 FuncVal<EX1> hypot(const EX1* vec, ::std::size_t nvec){
     using VT = typename EX1::Storage::ValueType; using GT = typename EX1::Storage::GradientType; using HT = typename EX1::Storage::HessianType;
     if (nvec == 0) return FuncVal<EX1>();
-    if (nvec == 1) return FuncVal<EX1>(vec[0].m_dif, vec[0](), vec[0].D(), vec[0].DD());
+    if (nvec == 1) { auto r = abs(vec[0]); return FuncVal<EX1>(r.m_dif, r(), r.D(), r.DD()); }
     VT v = VT(0), v2 = VT(0);
     if (nvec == 2) v = EX1::Storage::MathOps::hypot(vec[0](), vec[1]()), v2 = vec[0]()*vec[0]() + vec[1]()*vec[1]();
     else {
-- 
2.43.0


From c356aadd707d04f62bd320bedd301239708e14c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:13 +0000
Subject: [PATCH 28/46] fix: derivatives of pow with a real exponent at zero

---
 anifem++/autodiff/autodiff.inl | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/anifem++/autodiff/autodiff.inl b/anifem++/autodiff/autodiff.inl
index 994c334..a3ea007 100644
--- a/anifem++/autodiff/autodiff.inl
+++ b/anifem++/autodiff/autodiff.inl
@@ -179,13 +179,14 @@ FuncVal<EX1> pow(EX1 a, typename EX1::Storage::ValueType q){
     CONSTIF (EX1::State::NotTrivialDeriv)
         if (dif >= 1){
             am = a.D();
-            m = (q * v / av) * am;
+            m = (q * EX1::Storage::MathOps::pow(av, q - 1)) * am;
         }    
     HT r;
     if (dif >= 2){
-        r += (av != VT(0) ? q * (q - 1) * v / (av*av) : VT(0)) * HT::TensorSquare(am);
+        if (q != 1)
+            r += (q * (q - 1) * EX1::Storage::MathOps::pow(av, q - 2)) * HT::TensorSquare(am);
         CONSTIF (EX1::State::NotTrivialSecondDeriv )
-            r += (av != VT(0) ? q * v / av : VT(0)) * a.DD();    
+            r += (q * EX1::Storage::MathOps::pow(av, q - 1)) * a.DD();    
     } 
     return {dif, v, m, r};
 }
-- 
2.43.0


From efd7ee07093527300d6d4d9224dafdd636e7ec42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:56 +0000
Subject: [PATCH 29/46] fix: BiSymTensor4Rank of a dimension other than 3 did
 not compile and gave wrong indices

---
 anifem++/autodiff/physical_tensors.h | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/anifem++/autodiff/physical_tensors.h b/anifem++/autodiff/physical_tensors.h
index 0353d80..34ed4f1 100644
--- a/anifem++/autodiff/physical_tensors.h
+++ b/anifem++/autodiff/physical_tensors.h
@@ -427,12 +427,12 @@ struct BiSymTensor4Rank{
     static Index index(std::size_t continuous_index) { 
         auto q = SymMtx<N*(N+1)/2, FT>::index(continuous_index); 
         auto ti = SymMtx<N, FT>::index(q.i), tj = SymMtx<N, FT>::index(q.j);
-        return Index(ti.i, ti.j, tj.i, tj.i); 
+        return Index(ti.i, ti.j, tj.i, tj.j); 
     }
     static std::size_t continuous_index(Index id){ 
-        auto I = SymMtx<N, FT>::continuous_index(SymMtx<N, FT>::Index(id.i, id.j)), 
-             J = SymMtx<N, FT>::continuous_index(SymMtx<N, FT>::Index(id.k, id.l));
-        return SymMtx<N*(N+1)/2, FT>::continuous_index(SymMtx<N*(N+1)/2, FT>::Index(I, J));
+        auto I = SymMtx<N, FT>::continuous_index(typename SymMtx<N, FT>::Index(id.i, id.j)), 
+             J = SymMtx<N, FT>::continuous_index(typename SymMtx<N, FT>::Index(id.k, id.l));
+        return SymMtx<N*(N+1)/2, FT>::continuous_index(typename SymMtx<N*(N+1)/2, FT>::Index(I, J));
     }
 
     std::array<FT, N*(N+1)/2 * (N*(N+1)/2 + 1) / 2> m_dat = {0};
@@ -442,11 +442,10 @@ struct BiSymTensor4Rank{
 
     constexpr std::size_t rank() const { return 4U; }
     constexpr std::size_t continuous_size() const { return N*(N+1)/2 * (N*(N+1)/2 + 1) / 2; }
-    constexpr std::size_t index_duplication(std::size_t continuous_index) const { 
-        constexpr typename SymMtx<N*(N+1)/2, FT>::IndexMap a{}; 
-        constexpr typename SymMtx<N, FT>::IndexMap b{};
-        auto q = typename SymMtx<N*(N+1)/2, FT>::Index{a.imap[continuous_index], a.jmap[continuous_index]};
-        return (a.imap[continuous_index] != a.jmap[continuous_index] ? 2 : 1) * (b.imap[q.i] != b.jmap[q.i] ? 2 : 1) * (b.imap[q.j] != b.jmap[q.j] ? 2 : 1);
+    std::size_t index_duplication(std::size_t continuous_index) const { 
+        auto q = SymMtx<N*(N+1)/2, FT>::index(continuous_index);
+        auto ti = SymMtx<N, FT>::index(q.i), tj = SymMtx<N, FT>::index(q.j);
+        return (q.i != q.j ? 2 : 1) * (ti.i != ti.j ? 2 : 1) * (tj.i != tj.j ? 2 : 1);
     }
 
     template <typename DataType = FT>
-- 
2.43.0


From 7711ee53fc1d802a2c4e73bbbc60075a8e7c54a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:57 +0000
Subject: [PATCH 30/46] fix: differences of tensor iterators overflowed for
 more than 127 components

---
 anifem++/autodiff/physical_tensors.h      | 12 ++++++------
 anifem++/autodiff/physical_tensors_3d.inl |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/anifem++/autodiff/physical_tensors.h b/anifem++/autodiff/physical_tensors.h
index 34ed4f1..990c918 100644
--- a/anifem++/autodiff/physical_tensors.h
+++ b/anifem++/autodiff/physical_tensors.h
@@ -107,8 +107,8 @@ struct SymMtx{
         bool operator !=(const  mtx_iterator & other) const { return !operator==(other); }
         reference operator*() const { return val[contiguous_index]; }
         pointer operator ->() const { return val + contiguous_index; }
-        reference operator[](difference_type n) const { return val[static_cast<char>(contiguous_index) + n]; }
-        difference_type operator-(const mtx_iterator & other) const { return static_cast<char>(contiguous_index) - static_cast<char>(other.contiguous_index); }
+        reference operator[](difference_type n) const { return val[static_cast<difference_type>(contiguous_index) + n]; }
+        difference_type operator-(const mtx_iterator & other) const { return static_cast<difference_type>(contiguous_index) - static_cast<difference_type>(other.contiguous_index); }
         mtx_iterator& operator+=(difference_type n) { contiguous_index += n; return *this; } 
         mtx_iterator& operator-=(difference_type n) { contiguous_index -= n; return *this; }
         mtx_iterator  operator+ (difference_type n) const { mtx_iterator other = *this; other += n; return other; }
@@ -335,8 +335,8 @@ struct SymTensor4Rank{
         bool operator !=(const  mtx_iterator & other) const { return !operator==(other); }
         reference operator*() const { return val[contiguous_index]; }
         pointer operator ->() const { return val + contiguous_index; }
-        reference operator[](difference_type n) const { return val[static_cast<char>(contiguous_index) + n]; }
-        difference_type operator-(const mtx_iterator & other) const { return static_cast<char>(contiguous_index) - static_cast<char>(other.contiguous_index); }
+        reference operator[](difference_type n) const { return val[static_cast<difference_type>(contiguous_index) + n]; }
+        difference_type operator-(const mtx_iterator & other) const { return static_cast<difference_type>(contiguous_index) - static_cast<difference_type>(other.contiguous_index); }
         mtx_iterator& operator+=(difference_type n) { contiguous_index += n; return *this; } 
         mtx_iterator& operator-=(difference_type n) { contiguous_index -= n; return *this; }
         mtx_iterator  operator+ (difference_type n) const { mtx_iterator other = *this; other += n; return other; }
@@ -470,8 +470,8 @@ struct BiSymTensor4Rank{
         bool operator !=(const  mtx_iterator & other) const { return !operator==(other); }
         reference operator*() const { return val[contiguous_index]; }
         pointer operator ->() const { return val + contiguous_index; }
-        reference operator[](difference_type n) const { return val[static_cast<char>(contiguous_index) + n]; }
-        difference_type operator-(const mtx_iterator & other) const { return static_cast<char>(contiguous_index) - static_cast<char>(other.contiguous_index); }
+        reference operator[](difference_type n) const { return val[static_cast<difference_type>(contiguous_index) + n]; }
+        difference_type operator-(const mtx_iterator & other) const { return static_cast<difference_type>(contiguous_index) - static_cast<difference_type>(other.contiguous_index); }
         mtx_iterator& operator+=(difference_type n) { contiguous_index += n; return *this; } 
         mtx_iterator& operator-=(difference_type n) { contiguous_index -= n; return *this; }
         mtx_iterator  operator+ (difference_type n) const { mtx_iterator other = *this; other += n; return other; }
diff --git a/anifem++/autodiff/physical_tensors_3d.inl b/anifem++/autodiff/physical_tensors_3d.inl
index 860e0df..8424d95 100644
--- a/anifem++/autodiff/physical_tensors_3d.inl
+++ b/anifem++/autodiff/physical_tensors_3d.inl
@@ -68,8 +68,8 @@ struct SymMtx<3, FT>{
         bool operator !=(const  mtx_iterator & other) const { return !operator==(other); }
         reference operator*() const { return val[contiguous_index]; }
         pointer operator ->() const { return val + contiguous_index; }
-        reference operator[](difference_type n) const { return val[static_cast<char>(contiguous_index) + n]; }
-        difference_type operator-(const mtx_iterator & other) const { return static_cast<char>(contiguous_index) - static_cast<char>(other.contiguous_index); }
+        reference operator[](difference_type n) const { return val[static_cast<difference_type>(contiguous_index) + n]; }
+        difference_type operator-(const mtx_iterator & other) const { return static_cast<difference_type>(contiguous_index) - static_cast<difference_type>(other.contiguous_index); }
         mtx_iterator& operator+=(difference_type n) { contiguous_index += n; return *this; } 
         mtx_iterator& operator-=(difference_type n) { contiguous_index -= n; return *this; }
         mtx_iterator  operator+ (difference_type n) const { mtx_iterator other = *this; other += n; return other; }
@@ -491,8 +491,8 @@ struct BiSymTensor4Rank<3, FT>{
         bool operator !=(const  mtx_iterator & other) const { return !operator==(other); }
         reference operator*() const { return val[contiguous_index]; }
         pointer operator ->() const { return val + contiguous_index; }
-        reference operator[](difference_type n) const { return val[static_cast<char>(contiguous_index) + n]; }
-        difference_type operator-(const mtx_iterator & other) const { return static_cast<char>(contiguous_index) - static_cast<char>(other.contiguous_index); }
+        reference operator[](difference_type n) const { return val[static_cast<difference_type>(contiguous_index) + n]; }
+        difference_type operator-(const mtx_iterator & other) const { return static_cast<difference_type>(contiguous_index) - static_cast<difference_type>(other.contiguous_index); }
         mtx_iterator& operator+=(difference_type n) { contiguous_index += n; return *this; } 
         mtx_iterator& operator-=(difference_type n) { contiguous_index -= n; return *this; }
         mtx_iterator  operator+ (difference_type n) const { mtx_iterator other = *this; other += n; return other; }
-- 
2.43.0


From e8e5e973e2e2a5da399f5383279fe494af5c11ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:22 +0000
Subject: [PATCH 31/46] fix: determinant of a general matrix depended on its
 magnitude, of a symmetric one on the order of rows

---
 anifem++/autodiff/physical_tensors.inl | 63 ++++++--------------------
 1 file changed, 14 insertions(+), 49 deletions(-)

diff --git a/anifem++/autodiff/physical_tensors.inl b/anifem++/autodiff/physical_tensors.inl
index 38d09ed..8d63b55 100644
--- a/anifem++/autodiff/physical_tensors.inl
+++ b/anifem++/autodiff/physical_tensors.inl
@@ -329,66 +329,31 @@ namespace Ani{
     template<std::size_t N, typename FT>
     FT PhysMtx<N, FT>::Det() const {
         using std::abs;
-        FT max_val = abs(*std::max_element(cbegin(), cend(), [](const auto& a, const auto& b){ return abs(a) < abs(b); }));
-        const FT eps = 100 * max_val * std::numeric_limits<FT>::epsilon();
-
         PhysMtx<N, FT> A(*this);
-        std::array<std::size_t, N> row_visited;
-        const auto NOT_VISITED = std::numeric_limits<std::size_t>::max();
-        std::fill(row_visited.begin(), row_visited.end(), NOT_VISITED);
+        std::array<bool, N> row_visited;
+        std::fill(row_visited.begin(), row_visited.end(), false);
         FT ret(1);
         for (std::size_t d = 0; d < N; ++d) {
-            std::size_t r = 0;
-            int sign = 1;
-            // find unvisited row with non-zero value in column d
-            while(row_visited[r] != NOT_VISITED || abs(A(r, d)) < eps){
-                if (r == N-1) return FT();
-                if (row_visited[r] == NOT_VISITED) sign *= -1;
-                ++r;
+            // find unvisited row with maximal value in column d
+            std::size_t r = N, skipped = 0, unvisited = 0;
+            for (std::size_t i = 0; i < N; ++i) if (!row_visited[i]) {
+                if (r == N || abs(A(i, d)) > abs(A(r, d))) { r = i; skipped = unvisited; }
+                ++unvisited;
             }
-            row_visited[r] = d;
-            ret *= sign * A(r, d);
-            for (std::size_t i = 0; i < N; ++i) if(row_visited[i] == NOT_VISITED) {
+            if (A(r, d) == FT(0)) return FT();
+            row_visited[r] = true;
+            ret *= (skipped % 2 == 0) ? A(r, d) : -A(r, d);
+            for (std::size_t i = 0; i < N; ++i) if(!row_visited[i]) {
                 FT coef = A(i, d) / A(r, d);
-                if(abs(coef) > eps)
-                    for (std::size_t j = 0; j < N; ++j)
-                        A(i, j) = A(i, j) - coef * A(r, j);
+                for (std::size_t j = d; j < N; ++j)
+                    A(i, j) = A(i, j) - coef * A(r, j);
             }
         }
         return ret;
     }
 
     template<std::size_t N, typename FT>
-    FT SymMtx<N, FT>::Det() const {
-        using std::abs;
-        FT max_val = abs(*std::max_element(cbegin(), cend(), [](const auto& a, const auto& b){ return abs(a) < abs(b); }));
-        const FT eps = 100 * max_val * std::numeric_limits<FT>::epsilon();
-
-        SymMtx<N, FT> A(*this);
-        std::array<std::size_t, N> row_visited;
-        const auto NOT_VISITED = std::numeric_limits<std::size_t>::max();
-        std::fill(row_visited.begin(), row_visited.end(), NOT_VISITED);
-        FT ret(1);
-        for (std::size_t d = 0; d < N; ++d) {
-            std::size_t r = 0;
-            int sign = 1;
-            // find unvisited row with non-zero value in column d
-            while(row_visited[r] != NOT_VISITED || abs(A(r, d)) < eps){
-                if (r == N-1) return FT();
-                if (row_visited[r] == NOT_VISITED) sign *= -1;
-                ++r;
-            }
-            row_visited[r] = d;
-            ret *= sign * A(r, d);
-            for (std::size_t i = 0; i < N; ++i) if(row_visited[i] == NOT_VISITED) {
-                FT coef = A(i, d) / A(r, d);
-                if(abs(coef) > eps)
-                    for (std::size_t j = i; j < N; ++j)
-                        A(i, j) = A(i, j) - coef * A(r, j);
-            }
-        }
-        return ret;
-    }
+    FT SymMtx<N, FT>::Det() const { return PhysMtx<N, FT>(*this).Det(); }
     template<std::size_t N, typename FT>
     inline PhysMtx<N, FT> PhysMtx<N, FT>::TensorSymMul2(const PhysArr<N, FT>& f, const PhysArr<N, FT>& s){
         PhysMtx<N, FT> r;
-- 
2.43.0


From debd39456dae8f108bf05b085123107d53547c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:44 +0000
Subject: [PATCH 32/46] fix: LU_solve applied the inverse of the permutation of
 columns

---
 anifem++/fem/geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 3a68700..4e38b6f 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -353,7 +353,7 @@ namespace Ani{
         std::copy(X, X + N*M, B);
         for (int l = 0; l < M; ++l)
             for (int i = 0; i < N; ++i)
-                X[i + N*l] = B[q[i] + N*l];
+                X[q[i] + N*l] = B[i + N*l];
     }
 
     /// @brief Solve the problem AX = B for sqaure dense matrix using LU decomposition
-- 
2.43.0


From be89463aa1458e047080d33a7c0e10d4451642c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:44 +0000
Subject: [PATCH 33/46] fix: fullPivLU left entries of L not divided by a large
 pivot, wrote out of range for a singular matrix

---
 anifem++/fem/geometry.h | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 4e38b6f..5043e74 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -286,6 +286,7 @@ namespace Ani{
                         pi = i;
                         pj = j;
                     }
+            if (pi < 0) break; // the rest of the matrix is zero
             //Swap Row
             std::swap(p[k], p[pi]);
             for (int j = 0; j < N; j++)
@@ -294,20 +295,15 @@ namespace Ani{
             std::swap(q[k], q[pj]);
             for (int i = 0; i < N; i++)
                 std::swap(A(i, k), A(i, pj));
-            Scalar max1 = 0.0;
-            for (int i = k+1; i < N; i++) 
-                max1 = std::max(max1, std::fabs(A(i, k)));    
             //END PIVOT
     
-            //check pivot size and decompose
-            if (max > 0.0 && max1 > 0.0 && max1 / max > std::numeric_limits<Scalar>::epsilon()){
-                for (int i = k+1; i < N; i++){
-                    //Column normalisation
-                    Scalar tmp = ( A(i,k) /= A(k,k) ) ;
-                    for (int j = k+1; j < N; j++){
-                        //a(ik)*a(kj) subtracted from lower right submatrix elements
-                        A(i, j) -= (tmp * A(k, j));
-                    }
+            //decompose
+            for (int i = k+1; i < N; i++){
+                //Column normalisation
+                Scalar tmp = ( A(i,k) /= A(k,k) ) ;
+                for (int j = k+1; j < N; j++){
+                    //a(ik)*a(kj) subtracted from lower right submatrix elements
+                    A(i, j) -= (tmp * A(k, j));
                 }
             }
             //END DECOMPOSE
-- 
2.43.0


From 00512000f3f1eae2447805a10e1db98ad5765955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:44 +0000
Subject: [PATCH 34/46] fix: fullPivLU_inverse lost the matrix when the result
 is stored in its place

---
 anifem++/fem/geometry.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 5043e74..af2a9f1 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -394,10 +394,15 @@ namespace Ani{
         Map<MatrixX<Scalar>> Invm(Inv, N, N);
         Invm = Am.fullPivLu().inverse();
 #else         
-        std::fill(Inv, Inv + N*N, 0);
+        Scalar *Am = mem, *Bm = mem + N*N;
+        int *p = imem, *q = imem + N;
+        std::copy(A, A + N*N, Am);
+        std::fill(Bm, Bm + N*N, 0);
         for (int i = 0; i < N; ++i)
-            Inv[i+i*N] = 1;
-        fullPivLU_solve(A, Inv, N, N, Inv, mem, imem);
+            Bm[i+i*N] = 1;
+        for (int i = 0; i < N; ++i) p[i] = q[i] = i;
+        fullPivLU(Am, N, p, q);
+        LU_solve(Am, N, p, q, Bm, Inv, N);
 #endif
     }
 
-- 
2.43.0


From 71ff8139d5e0a22bc9d3c4239ebab34a3fd7ae6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:52 +0000
Subject: [PATCH 35/46] fix: Tetra::normal_direction did not compile

---
 anifem++/fem/geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index af2a9f1..919c44d 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -174,7 +174,7 @@ namespace Ani{
         std::array<NCScalar, 3> normal_direction(unsigned char iopposite_node) const {
             ScalarType* X[4] = {BaseT::XY0.data, BaseT::XY1.data, BaseT::XY2.data, BaseT::XY3.data};
             auto i = iopposite_node;
-            ScalarType* p0 = X[(i+1+0)%4], p1 = X[(i+1+1)%4], p2 = X[(i+1+2)%4], p3 = X[i%4];
+            ScalarType *p0 = X[(i+1+0)%4], *p1 = X[(i+1+1)%4], *p2 = X[(i+1+2)%4], *p3 = X[i%4];
             NCScalar    a[3]{p1[0] - p0[0], p1[1] - p0[1], p1[2] - p0[2]},
                         b[3]{p2[0] - p0[0], p2[1] - p0[1], p2[2] - p0[2]},
                         c[3]{p3[0] - p0[0], p3[1] - p0[1], p3[2] - p0[2]};
-- 
2.43.0


From 3b33a3f64e4f8fd157f10e56fa9ba97b04b6b93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:52 +0000
Subject: [PATCH 36/46] fix: householderQR skipped reflections for columns
 below an absolute threshold

---
 anifem++/fem/geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 919c44d..e0f46fa 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -436,7 +436,7 @@ namespace Ani{
             for (int i = k; i < N; ++i)
                 norm += W(i, k) * W(i, k);
             norm = std::sqrt(norm);
-            if (norm <= std::numeric_limits<Scalar>::epsilon()){
+            if (norm == 0){
                 tau[k] = 0;
                 v[k] = 1;
                 for (int i = k + 1; i < N; ++i)
-- 
2.43.0


From 27042c8b5ecf5f565a52b79f00c96d8d364c294e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:52 +0000
Subject: [PATCH 37/46] fix: jacobiSVD used absolute tolerances and returned
 non-orthogonal factors of rank deficient matrices

---
 anifem++/fem/geometry.h | 60 +++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index e0f46fa..13dbabf 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -503,14 +503,18 @@ namespace Ani{
                 for (int i = 0; i < n; ++i)
                     evecs[i + j*n] = (i == j) ? 1 : 0;
 
-            const Scalar tol = Scalar(10) * n * n * std::numeric_limits<Scalar>::epsilon();
+            // the greatest element of a positive semidefinite matrix is on its diagonal
+            Scalar scale = 0;
+            for (int i = 0; i < n; ++i)
+                scale = std::max(scale, sym[i + i*n]);
+            const Scalar tol = Scalar(10) * n * n * std::numeric_limits<Scalar>::epsilon() * scale;
             int err = 1;
             for (int sweep = 0; sweep < ANIFEM_JACOBI_MAX_SWEEPS; ++sweep){
                 Scalar off = 0;
                 for (int p = 0; p < n; ++p)
                     for (int q = p + 1; q < n; ++q)
-                        off += sym[p + q*n] * sym[p + q*n];
-                if (off <= tol * tol){
+                        off = std::max(off, Scalar(std::fabs(sym[p + q*n])));
+                if (off <= tol){
                     err = 0;
                     break;
                 }
@@ -571,12 +575,11 @@ namespace Ani{
             }
         }
 
+        /// Make columns of n x n matrix q orthonormal, the first n_done columns are preserved up to rounding
+        /// except zero ones, zero and the rest columns are replaced by a completion of the basis
         template<typename Scalar>
         inline void complete_orthonormal_cols(Scalar* q, int n, int n_done){
-            const Scalar eps = std::numeric_limits<Scalar>::epsilon();
-            for (int j = n_done; j < n; ++j){
-                for (int i = 0; i < n; ++i)
-                    q[i + j*n] = (i == (j - n_done) % n) ? 1 : 0;
+            auto orthogonalize = [q, n](int j){
                 for (int c = 0; c < j; ++c){
                     Scalar dot = 0;
                     for (int i = 0; i < n; ++i)
@@ -587,25 +590,30 @@ namespace Ani{
                 Scalar norm = 0;
                 for (int i = 0; i < n; ++i)
                     norm += q[i + j*n] * q[i + j*n];
-                norm = std::sqrt(norm);
-                if (norm <= eps){
-                    for (int i = 0; i < n; ++i)
-                        q[i + j*n] = (i == (j + 1) % n) ? 1 : 0;
-                    for (int c = 0; c < j; ++c){
-                        Scalar dot = 0;
-                        for (int i = 0; i < n; ++i)
-                            dot += q[i + c*n] * q[i + j*n];
-                        for (int i = 0; i < n; ++i)
-                            q[i + j*n] -= dot * q[i + c*n];
+                return Scalar(std::sqrt(norm));
+            };
+            for (int j = 0; j < n; ++j){
+                Scalar norm = (j < n_done) ? orthogonalize(j) : 0;
+                if (norm <= Scalar(0.5)){
+                    // take the coordinate axis most distant from the span of previous columns
+                    int axis = 0;
+                    Scalar best = n + 1;
+                    for (int i = 0; i < n; ++i){
+                        Scalar len2 = 0;
+                        for (int c = 0; c < j; ++c)
+                            len2 += q[i + c*n] * q[i + c*n];
+                        if (len2 < best){
+                            best = len2;
+                            axis = i;
+                        }
                     }
-                    norm = 0;
                     for (int i = 0; i < n; ++i)
-                        norm += q[i + j*n] * q[i + j*n];
-                    norm = std::sqrt(norm);
+                        q[i + j*n] = (i == axis) ? 1 : 0;
+                    orthogonalize(j);
+                    norm = orthogonalize(j);
                 }
-                if (norm > eps)
-                    for (int i = 0; i < n; ++i)
-                        q[i + j*n] /= norm;
+                for (int i = 0; i < n; ++i)
+                    q[i + j*n] /= norm;
             }
         }
 
@@ -669,7 +677,7 @@ namespace Ani{
         }
         return 0;
 #else
-        const Scalar eps = std::numeric_limits<Scalar>::epsilon();
+        const Scalar eps = std::sqrt(std::numeric_limits<Scalar>::epsilon());
         Scalar* gram = mem;
         Scalar* evecs_buf = mem + K*K;
         Scalar* eval = mem + 2*K*K;
@@ -685,7 +693,7 @@ namespace Ani{
 
             if (U != nullptr){
                 for (int j = 0; j < M; ++j){
-                    if (S[j] > eps){
+                    if (S[j] > eps * S[0]){
                         for (int i = 0; i < N; ++i){
                             Scalar sum = 0;
                             for (int t = 0; t < M; ++t)
@@ -710,7 +718,7 @@ namespace Ani{
 
             if (V != nullptr){
                 for (int j = 0; j < N; ++j){
-                    if (S[j] > eps){
+                    if (S[j] > eps * S[0]){
                         for (int i = 0; i < M; ++i){
                             Scalar sum = 0;
                             for (int t = 0; t < N; ++t)
-- 
2.43.0


From 3a2b77fd1d04436e6dcc68f99bdd25ea94866c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:52 +0000
Subject: [PATCH 38/46] fix: DynMem handed out memory still in use after a
 release out of order

---
 anifem++/fem/fem_memory.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/anifem++/fem/fem_memory.h b/anifem++/fem/fem_memory.h
index 723e03c..88764e5 100644
--- a/anifem++/fem/fem_memory.h
+++ b/anifem++/fem/fem_memory.h
@@ -410,6 +410,8 @@ namespace Ani{
             std::vector<DM>         mdata;
             std::size_t rbusy = 0, ibusy = 0, mbusy = 0;
             std::size_t nparts = 0; //number of memory parts where pointers from the vectors are used
+            struct Part { std::size_t dsize, isize, msize; bool alive; };
+            std::vector<Part> parts; //memory parts in order of their placement in the vectors, the last one is alive
         };
         struct MemPart{  
             PlainMemoryX<ScalarType, IndexType> m_mem;
@@ -485,7 +487,8 @@ namespace Ani{
                 if (chunk->mbusy == 0 && chunk->mdata.size() < msize) chunk->mdata.resize(msize);
                 res.m_mem.mdata = chunk->mdata.data() + chunk->mbusy; chunk->mbusy += msize; res.m_mem.mSize = msize;
             }
-            res.m_part_id = chunk->nparts;
+            res.m_part_id = chunk->parts.size();
+            chunk->parts.push_back({dsize, isize, msize, true});
             chunk->nparts++;
             return res;
         }
@@ -507,12 +510,16 @@ namespace Ani{
         }
     // protected:
         virtual void clearChunk(std::size_t chunk_id, std::size_t part_id, std::size_t dSize, std::size_t iSize, std::size_t mSize) {
+            (void) dSize; (void) iSize; (void) mSize;
             auto& chunk = m_chunks[chunk_id];
             chunk.nparts--;
-            if (chunk.nparts == part_id)
-                chunk.rbusy -= dSize, chunk.ibusy -= iSize, chunk.mbusy -= mSize;
-            if (chunk.nparts == 0)
-                chunk.rbusy = chunk.ibusy = chunk.mbusy = 0;
+            chunk.parts[part_id].alive = false;
+            // only memory placed after the last alive part may be reused
+            while (!chunk.parts.empty() && !chunk.parts.back().alive){
+                auto& part = chunk.parts.back();
+                chunk.rbusy -= part.dsize, chunk.ibusy -= part.isize, chunk.mbusy -= part.msize;
+                chunk.parts.pop_back();
+            }
         }
     public:    
     //protected:
-- 
2.43.0


From f3407a7317cdfa67f06b4a97f451813fc8552959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:53 +0000
Subject: [PATCH 39/46] fix: mutex_type.h missed includes, parallel_for with
 std::thread did not compile

---
 anifem++/fem/mutex_type.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/anifem++/fem/mutex_type.h b/anifem++/fem/mutex_type.h
index f52d9e7..cdd8d5e 100644
--- a/anifem++/fem/mutex_type.h
+++ b/anifem++/fem/mutex_type.h
@@ -5,8 +5,12 @@
 #ifndef CARNUM_MUTEX_TYPE_H
 #define CARNUM_MUTEX_TYPE_H
 
-#include <thread>
+#include <algorithm>
+#include <cassert>
+#include <functional>
 #include <mutex>
+#include <thread>
+#include <vector>
 #ifdef WITH_OPENMP
 #include <omp.h>
 #endif
@@ -119,12 +123,14 @@ namespace ThreadPar{
             unsigned batch_size = niters / nthreads;
             unsigned batch_remainder = niters % nthreads;
 
+            auto run_batch = [f, &args...](int thread_num, RandAccIterator batch_beg, RandAccIterator batch_end){
+                perform_for_on_thread(thread_num, f, batch_beg, batch_end, args...);
+            };
             std::vector< std::thread > work_threads(nthreads - 1);
             for (int i = 0; i < nthreads - 1; ++i)
-                work_threads[i] = std::thread(perform_for_on_thread, i+1,
+                work_threads[i] = std::thread(run_batch, i+1,
                                 beg + batch_size*i + (i < batch_remainder ? i : batch_remainder), 
-                                beg + batch_size*(i+1) + ((i+1) < batch_remainder ? (i+1) : batch_remainder), 
-                                args...);
+                                beg + batch_size*(i+1) + ((i+1) < batch_remainder ? (i+1) : batch_remainder));
             perform_for_on_thread(0, f, beg + batch_size*(nthreads - 1) + batch_remainder, end, args...);
             std::for_each(work_threads.begin(), work_threads.end(), std::mem_fn(&std::thread::join));
         }
-- 
2.43.0


From 47c9c7e99a95399308d0759cf2bf6a872461c800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:53 +0000
Subject: [PATCH 40/46] fix: DynMemParallel::get read the list of pools without
 the lock

---
 anifem++/fem/fem_memory_parallel.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/anifem++/fem/fem_memory_parallel.h b/anifem++/fem/fem_memory_parallel.h
index 3a25f86..147b9e3 100644
--- a/anifem++/fem/fem_memory_parallel.h
+++ b/anifem++/fem/fem_memory_parallel.h
@@ -80,7 +80,10 @@ struct DynMemParallel{
         m_unused.clear();
         m_mem.clear();
     }
-    DynMem<Real, Int>* get(Int mem_id){ return m_mem[mem_id].get(); }
+    DynMem<Real, Int>* get(Int mem_id){
+        std::lock_guard<MutexType> lock(m_mutex); // other threads may extend the storage of pools
+        return m_mem[mem_id].get();
+    }
 
 
 protected:
-- 
2.43.0


From b243044f51ed9acca2bb78feb1376ed213fc10ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:06 +0000
Subject: [PATCH 41/46] fix: interval_map infinite in both directions did not
 contain keys left of a stored bound

---
 anifem++/interval/interval_map.inl | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/anifem++/interval/interval_map.inl b/anifem++/interval/interval_map.inl
index 3f9629b..5b63f45 100644
--- a/anifem++/interval/interval_map.inl
+++ b/anifem++/interval/interval_map.inl
@@ -61,7 +61,7 @@ namespace Ani{
         auto it_ed = m_map_list.end();
         if (boundary_status & 2){
             it_ed = std::prev(m_map_list.end());
-            if (!m_comp(key, it_ed->first.m_start)) return true;
+            if (!m_comp(key, it_ed->first.m_start) || ((boundary_status & 1) && it_ed == m_map_list.begin())) return true;
         }
         auto it = std::upper_bound(m_map_list.begin(), it_ed, key, [&cmp = m_comp](auto a, auto b){ return cmp(a, b.first.m_end); });
         return (it != it_ed) && (((boundary_status & 1) && it == m_map_list.begin()) || !m_comp(key, it->first.m_start));
@@ -128,13 +128,9 @@ namespace Ani{
     template<typename Key, typename T, typename Compare, typename Allocator>
     bool interval_map<Key, T, Compare, Allocator>::contains(const std::pair<interval<key_type>, mapped_type>* it, const key_type& key) const {
         if (m_map_list.empty()) return false;
-        // if ((boundary_status & 1) && (boundary_status & 2) && m_map_list.size() == 1)
-        //     return true;
-        if ((boundary_status & 2) && it == &(*std::prev(m_map_list.end())))
-            return !m_comp(key, it->first.m_start);
-        if ((boundary_status & 1) && it == &(*m_map_list.begin()))
-            return m_comp(key, it->first.m_end);
-        return !m_comp(key, it->first.m_start) && m_comp(key, it->first.m_end);
+        bool left_inf = (boundary_status & 1) && it == &(*m_map_list.begin());
+        bool right_inf = (boundary_status & 2) && it == &(*std::prev(m_map_list.end()));
+        return (left_inf || !m_comp(key, it->first.m_start)) && (right_inf || m_comp(key, it->first.m_end));
     }
 
     template<typename Key, typename T, typename Compare, typename Allocator>
@@ -144,7 +140,7 @@ namespace Ani{
         auto it_ed = m_map_list.end();
         if (boundary_status & 2){
             it_ed = std::prev(m_map_list.end());
-            if (!m_comp(key, it_ed->first.m_start)) return it_ed;
+            if (!m_comp(key, it_ed->first.m_start) || ((boundary_status & 1) && it_ed == m_map_list.begin())) return it_ed;
         }
         auto it = std::upper_bound(m_map_list.begin(), it_ed, key, [&cmp = m_comp](auto a, auto b){ return cmp(a, b.first.m_end); }); 
         if ((it != it_ed) && (((boundary_status & 1) && it == m_map_list.begin()) || !m_comp(key, it->first.m_start)))
-- 
2.43.0


From 6996ce32966cf1d657a4ab8c73e07d2695e21ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:07 +0000
Subject: [PATCH 42/46] fix: interval_map::lower_bound and upper_bound did not
 compile

---
 anifem++/interval/interval_map.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/interval/interval_map.inl b/anifem++/interval/interval_map.inl
index 5b63f45..177e339 100644
--- a/anifem++/interval/interval_map.inl
+++ b/anifem++/interval/interval_map.inl
@@ -155,7 +155,7 @@ namespace Ani{
         auto it_ed = m_map_list.end();
         if (boundary_status & 2){
             auto it = std::prev(m_map_list.end());
-            if (!comp(key, it_ed->first.m_start)) return it_ed;
+            if (!m_comp(key, it->first.m_start)) return it;
             it_ed = it;
         }
         auto it = std::upper_bound(m_map_list.begin(), it_ed, key, [&cmp = m_comp](auto a, auto b){ return cmp(a, b.first.m_end); });
@@ -169,7 +169,7 @@ namespace Ani{
         auto it_ed = m_map_list.end();
         if (boundary_status & 2){
             auto it = std::prev(m_map_list.end());
-            if (!comp(key, it_ed->first.m_start)) return it_ed;
+            if (!m_comp(key, it->first.m_start)) return it;
             it_ed = it;
         }
         auto it = std::upper_bound(m_map_list.begin(), it_ed, key, [&cmp = m_comp](auto a, auto b){ return cmp(a, b.first.m_end); });
-- 
2.43.0


From feb694df05028dd8a23fda4e8f85ba1c6f47da29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:07 +0000
Subject: [PATCH 43/46] fix: interval_map::insert compared bounds of infinite
 intervals that are not bounds

---
 anifem++/interval/interval_map.inl | 34 ++++++++----------------------
 1 file changed, 9 insertions(+), 25 deletions(-)

diff --git a/anifem++/interval/interval_map.inl b/anifem++/interval/interval_map.inl
index 177e339..5431942 100644
--- a/anifem++/interval/interval_map.inl
+++ b/anifem++/interval/interval_map.inl
@@ -191,37 +191,21 @@ namespace Ani{
         interval_map<Key, T, Compare, Allocator>::insert(key_type start_interval, key_type end_interval, const mapped_type& value, unsigned char bnd_type){
         if (m_comp(end_interval, start_interval) || (bnd_type == 0 && start_interval == end_interval)) 
             return {m_map_list.end(), false};
-        // if (!m_comp(start_interval, end_interval)) return {m_map_list.end(), false};
-        if (boundary_status & 1)
-            m_map_list.front().first.m_start = std::min(m_map_list.front().first.m_start, start_interval, m_comp);
-        if (boundary_status & 2)
-            m_map_list.back().first.m_end = std::max(m_map_list.back().first.m_end, end_interval, m_comp);
+        // m_start of the left infinite interval and m_end of the right infinite one are not bounds and must not be compared
+        auto is_left_inf  = [this](const std::pair<interval<key_type>, mapped_type>& v){ return (boundary_status & 1) && &v == &m_map_list.front(); };
+        auto is_right_inf = [this](const std::pair<interval<key_type>, mapped_type>& v){ return (boundary_status & 2) && &v == &m_map_list.back(); };
         
-        auto it_st = std::upper_bound(m_map_list.begin(), m_map_list.end(), start_interval, [&cmp = m_comp](auto a, auto b){ return cmp(a, b.first.m_end); });
-        if (bnd_type == 1 && start_interval == end_interval && it_st != m_map_list.begin()){
-            auto it = std::prev(it_st);
-            if (it->first.m_end == start_interval)
-                it_st = it;
-        }
-        if ((boundary_status & 2) && it_st == m_map_list.end()){ //< extra logic for case m_start = m_end if right-infinity
-            auto b = m_map_list.back().first;
-            if (b.m_end == b.m_start && b.m_end == start_interval && !(bnd_type == 1 && start_interval == end_interval))
-                it_st = std::prev(it_st);
-        }
-        auto it_st0 = it_st;
+        // [it_st0, it_end0) - intervals that intersect the new one
+        auto it_st0 = std::partition_point(m_map_list.begin(), m_map_list.end(), 
+            [&](const auto& v){ return !(bnd_type & 1) && !is_right_inf(v) && !m_comp(start_interval, v.first.m_end); });
+        auto it_end0 = std::partition_point(it_st0, m_map_list.end(), 
+            [&](const auto& v){ return (bnd_type & 2) || is_left_inf(v) || m_comp(v.first.m_start, end_interval); });
+        auto it_st = it_st0, it_end = it_end0;
         if (it_st != m_map_list.begin()){
             auto it_prev = std::prev(it_st);
             if (it_prev->first.m_end == start_interval && it_prev->second == value)
                 it_st = it_prev;     
         }
-        auto it_end = (it_st0 != m_map_list.end()) ? 
-                    std::lower_bound(it_st0, m_map_list.end(), end_interval, [&cmp = m_comp](auto a, auto b){ return cmp(a.first.m_start, b); }) : m_map_list.end();
-        if ((boundary_status & 1) && it_end == m_map_list.begin()){ //< extra logic for case m_start = m_end if left infinity
-            auto b = m_map_list.front().first;
-            if (b.m_start == b.m_end && b.m_start == end_interval)
-                it_end = std::next(it_end);
-        }
-        auto it_end0 = it_end;
         if (it_end != m_map_list.end() && it_end->first.m_start == end_interval && it_end->second == value)
             ++it_end;
         
-- 
2.43.0


From 76993b742c7d38818b56362e43482dd9431b634b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:07 +0000
Subject: [PATCH 44/46] fix: parse_interval_map assumed lengths of delimiters

---
 anifem++/interval/interval_map.inl | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/anifem++/interval/interval_map.inl b/anifem++/interval/interval_map.inl
index 5431942..69a7c58 100644
--- a/anifem++/interval/interval_map.inl
+++ b/anifem++/interval/interval_map.inl
@@ -253,7 +253,7 @@ namespace Ani{
             auto colon_pos = input.find(traits.interval_delimiter, pos);
             if (colon_pos == std::string::npos || colon_pos > lend)
                 throw std::invalid_argument("Missing \"" + traits.interval_delimiter + "\" separator");
-            auto arrow_pos = input.find(traits.map_delimiter, colon_pos+1);
+            auto arrow_pos = input.find(traits.map_delimiter, colon_pos + traits.interval_delimiter.size());
             if (arrow_pos == std::string::npos || arrow_pos > lend)
                 throw std::invalid_argument("Missing \"" + traits.map_delimiter + "\" operator");
             
@@ -264,13 +264,13 @@ namespace Ani{
             else
                 left_st = std::max(colon_pos, left_ed+1);
     
-            auto right_st = colon_pos+1, right_ed = colon_pos;
-            right_st = input.find_first_not_of(spaces, colon_pos+1);
+            auto right_st = colon_pos + traits.interval_delimiter.size(), right_ed = colon_pos;
+            right_st = input.find_first_not_of(spaces, right_st);
             if (right_st < arrow_pos)
                 right_ed = input.find_last_not_of(spaces, arrow_pos - 1);
             
-            auto value_st = arrow_pos+2, value_ed = arrow_pos+1;
-            value_st = input.find_first_not_of(spaces, arrow_pos+2);
+            auto value_st = arrow_pos + traits.map_delimiter.size(), value_ed = arrow_pos+1;
+            value_st = input.find_first_not_of(spaces, value_st);
             if (value_st == std::string::npos || value_st >= lend)
                 throw std::invalid_argument("Missing mapping value");
             value_ed = input.find_last_not_of(spaces, lend - 1);
@@ -287,7 +287,7 @@ namespace Ani{
                 default:
                     throw std::runtime_error("Reached unreacheable code");
             }
-            pos = (lend == std::string::npos) ? std::string::npos : input.find_first_not_of(spaces, lend+1);
+            pos = (lend == std::string::npos) ? std::string::npos : input.find_first_not_of(spaces, lend + traits.elem_delimiter.size());
         }
     
         return m;
-- 
2.43.0


From e61330b3d4f3ea5df0d19bb79fb59bad4b5542d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:07 +0000
Subject: [PATCH 45/46] fix: comparison, subtraction and constness of iterators
 of interval enumerators

---
 anifem++/interval/ext_array_enum.h |  6 +++---
 anifem++/interval/interval_enum.h  | 12 ++++++------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/anifem++/interval/ext_array_enum.h b/anifem++/interval/ext_array_enum.h
index 44ef68b..9624509 100644
--- a/anifem++/interval/ext_array_enum.h
+++ b/anifem++/interval/ext_array_enum.h
@@ -83,7 +83,7 @@ public:
         bool operator < (const iterator & other) const { return id.first < other.id.first; }
         bool operator > (const iterator & other) const { return id.first > other.id.first; }
         bool operator <=(const iterator & other) const { return id.first <= other.id.first; }
-        bool operator >=(const iterator & other) const { return id.first < other.id.first; }
+        bool operator >=(const iterator & other) const { return id.first >= other.id.first; }
         reference operator*() const { return id; }
         pointer operator ->() const { return &id; }
         iterator& operator ++() { return *this = std::move(ptr->next_it(*this)); }
@@ -91,7 +91,7 @@ public:
         iterator& operator --() { return *this = std::move(ptr->prev_it(*this)); }
         iterator  operator --(int) { iterator ret(*this); operator--(); return ret;}
         iterator& operator +=(difference_type n) { return *this = std::move(ptr->begin(id.first+n)); }
-        iterator& operator -=(difference_type n) { return *this = std::move(ptr->begin(id.first+n)); }
+        iterator& operator -=(difference_type n) { return *this = std::move(ptr->begin(id.first-n)); }
         friend iterator operator+(const iterator& a, difference_type n) { iterator b(a); return b+=n; }
         friend iterator operator+(difference_type n, const iterator& a) { return a + n; }
         friend iterator operator-(const iterator& a, difference_type n) { iterator b(a); return b-=n; }
@@ -171,7 +171,7 @@ public:
         bool operator < (const iterator & other) const { return it2 < other.it2; }
         bool operator > (const iterator & other) const { return it2 > other.it2; }
         bool operator <=(const iterator & other) const { return it2 <= other.it2; }
-        bool operator >=(const iterator & other) const { return it2 < other.it2; }
+        bool operator >=(const iterator & other) const { return it2 >= other.it2; }
         reference operator*() const { return val; }
         pointer operator ->() const { return &val; }
         iterator& operator ++();
diff --git a/anifem++/interval/interval_enum.h b/anifem++/interval/interval_enum.h
index ff67e69..898b04a 100644
--- a/anifem++/interval/interval_enum.h
+++ b/anifem++/interval/interval_enum.h
@@ -68,19 +68,19 @@ struct interval_external_memory{
         const_iterator  operator--(int) {const_iterator ret(*this); operator--(); return ret;}
         const_iterator& operator+=(difference_type n) { m_p += 2*n; return *this; }
         const_iterator& operator-=(difference_type n) { m_p -= 2*n; return *this; }
-        difference_type operator- (const const_iterator& b) { return (m_p - b.m_p)/2; }
+        difference_type operator- (const const_iterator& b) const { return (m_p - b.m_p)/2; }
         bool operator==(const const_iterator & other) const { return m_p == other.m_p; }
         bool operator!=(const const_iterator & other) const { return !operator==(other); }
         bool operator< (const const_iterator & other) const { return m_p < other.m_p; }
         bool operator> (const const_iterator & other) const { return m_p > other.m_p; }
         bool operator<=(const const_iterator & other) const { return m_p <= other.m_p; }
-        bool operator>=(const const_iterator & other) const { return m_p < other.m_p; }
+        bool operator>=(const const_iterator & other) const { return m_p >= other.m_p; }
         reference operator*() const { m_val.first = *m_p, m_val.second = *(m_p+1); return m_val; }
         pointer operator ->() const { m_val.first = *m_p, m_val.second = *(m_p+1); return &m_val; }
         value_type operator[](difference_type n) const {  return {*(m_p+2*n), *(m_p+2*n+1) }; }
-        friend const_iterator operator+(const_iterator& a, difference_type n) { const_iterator b(a); return b+=n; }
-        friend const_iterator operator+(difference_type n, const_iterator& a) { return a + n; }
-        friend const_iterator operator-(const_iterator& a, difference_type n) { const_iterator b(a); return b-=n; }
+        friend const_iterator operator+(const const_iterator& a, difference_type n) { const_iterator b(a); return b+=n; }
+        friend const_iterator operator+(difference_type n, const const_iterator& a) { return a + n; }
+        friend const_iterator operator-(const const_iterator& a, difference_type n) { const_iterator b(a); return b-=n; }
 
         friend class interval_external_memory<Int>;
     };
@@ -120,7 +120,7 @@ struct interval_enum{
         const_iterator& operator--();
         const_iterator  operator++(int) {const_iterator ret(*this); operator++(); return ret;}
         const_iterator  operator--(int) {const_iterator ret(*this); operator--(); return ret;}
-        difference_type operator- (const const_iterator& b) { return (m_it->first - b.m_it->first) + m_shift - b.m_shift; }
+        difference_type operator- (const const_iterator& b) const { return (m_it->first - b.m_it->first) + m_shift - b.m_shift; }
         reference operator*() const { m_val = *m_it; m_val.first += m_shift, m_val.second += m_shift; return m_val; }
         pointer operator ->() const { m_val = *m_it; m_val.first += m_shift, m_val.second += m_shift; return &m_val; }
         bool operator==(const const_iterator & other) const { return m_it == other.m_it && m_shift == other.m_shift; }
-- 
2.43.0


From c39feb99e32a9489630505cee2e4d6e999d345ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:07 +0000
Subject: [PATCH 46/46] fix: ext_range_array_enum::lower_bound read past the
 end of the base set

---
 anifem++/interval/ext_array_enum.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/interval/ext_array_enum.inl b/anifem++/interval/ext_array_enum.inl
index 682d5ac..28cd05a 100644
--- a/anifem++/interval/ext_array_enum.inl
+++ b/anifem++/interval/ext_array_enum.inl
@@ -828,7 +828,7 @@ typename ext_range_array_enum<N, RangeFunc, UInt, GInt>::iterator ext_range_arra
             if (beta() >= rg_size(it->first[m])) continue;
             if (!compare_arr(it->first, jd)){
                 auto kt = std::lower_bound(jt, m_ord.end(), (it->first == jd) ? id : it->first, compare_arr);
-                if(check_ed(*kt, it->first)){
+                if(kt != m_ord.end() && check_ed(*kt, it->first)){
                     for (unsigned k = 0; k < N; ++k)
                         alpha(k) = (*kt)[k];
                     return begin(this->operator[](res));    
-- 
2.43.0

