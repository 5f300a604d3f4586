From 21f3b1e93145929b9fcb3bc418feb75e948c9424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 001/199] fix: pass the row count of B to the identity
 Kronecker kernels

---
 pystatsm/utilities/python_wrappers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/utilities/python_wrappers.py b/pystatsm/utilities/python_wrappers.py
index 1a29696..3b30660 100644
--- a/pystatsm/utilities/python_wrappers.py
+++ b/pystatsm/utilities/python_wrappers.py
@@ -253,7 +253,7 @@ def id_sp_kron(m, B):
     Ci = np.zeros(m * nnz, dtype=np.int32)
     Cx = np.zeros(m * nnz, dtype=np.float64)
     
-    cs_kron_id_sp_wrapper(m, Bx, Bi, Bp, Bnc, Bnc, Cx, Ci, Cp)
+    cs_kron_id_sp_wrapper(m, Bx, Bi, Bp, Bnr, Bnc, Cx, Ci, Cp)
     
     return sp.sparse.csc_matrix((Cx, Ci, Cp), shape=(m * Bnr, m * Bnc))
 
@@ -263,7 +263,7 @@ def id_sp_kron_inplace(m, B, C):
     Bp, Bi, Bx = B.indptr, B.indices, B.data
     Cp, Ci, Cx = C.indptr, C.indices, C.data
    
-    cs_kron_id_sp_inplace_wrapper(m, Bx, Bi, Bp, Bnc, Bnc, Cx, Ci, Cp)
+    cs_kron_id_sp_inplace_wrapper(m, Bx, Bi, Bp, Bnr, Bnc, Cx, Ci, Cp)
     
     return C
 
-- 
2.43.0


From e9c34ba4976b3578d566a7b515be7851307596b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 002/199] fix: keep the preallocated pattern in
 cs_add_inplace_complex

---
 pystatsm/utilities/python_wrappers.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pystatsm/utilities/python_wrappers.py b/pystatsm/utilities/python_wrappers.py
index 3b30660..0ccc240 100644
--- a/pystatsm/utilities/python_wrappers.py
+++ b/pystatsm/utilities/python_wrappers.py
@@ -69,7 +69,6 @@ def cs_add_inplace_complex(A, B, C, alpha=1.0+0j, beta=1.0+0j):
     Cnr, Cnc = C.shape
     
     cs_add_inplace_complex_wrapper(Ap, Ai, Ax, Bp, Bi, Bx, alpha, beta, Cp, Ci, Cx, Cnr, Cnc)
-    C.eliminate_zeros()
     return C
 
 def tile_1d(arr, reps, out=None):
-- 
2.43.0


From 29d4d7b24b680f4c230b8e0de45b0e6655e0849f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 003/199] fix: re-sort the reused result of the in-place sparse
 products

---
 pystatsm/utilities/python_wrappers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystatsm/utilities/python_wrappers.py b/pystatsm/utilities/python_wrappers.py
index 0ccc240..e5dc2c7 100644
--- a/pystatsm/utilities/python_wrappers.py
+++ b/pystatsm/utilities/python_wrappers.py
@@ -100,6 +100,7 @@ def cs_matmul_inplace(A, B, C):
     Cp, Ci, Cx = C.indptr, C.indices, C.data
     
     cs_matmul_inplace_wrapper(Ap, Ai, Ax, Anr, Anc, Bp, Bi, Bx, Bnr, Bnc, Cp, Ci, Cx)
+    C.has_sorted_indices = False  # the kernel rewrote the indices
     C.sort_indices()
     return C
 
@@ -113,6 +114,7 @@ def cs_matmul_inplace_complex(A, B, C):
     Cp, Ci, Cx = C.indptr, C.indices, C.data
     
     cs_matmul_inplace_complex_wrapper(Ap, Ai, Ax, Anr, Anc, Bp, Bi, Bx, Bnr, Bnc, Cp, Ci, Cx)
+    C.has_sorted_indices = False  # the kernel rewrote the indices
     C.sort_indices()
     return C
 
-- 
2.43.0


From e8251bfedb54ed1d1b40f3af58683f03ad4abcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 004/199] fix: keep the full within-level pattern in the LMM2
 cross-products

---
 pystatsm/pylmm/re_mod.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pylmm/re_mod.py b/pystatsm/pylmm/re_mod.py
index f32be69..738aae2 100644
--- a/pystatsm/pylmm/re_mod.py
+++ b/pystatsm/pylmm/re_mod.py
@@ -77,6 +77,15 @@ def sparsity(a):
     return a.nnz / np.prod(a.shape)
 
 
+def pattern_union(A, B):
+    """Copy of A that also stores an explicit zero wherever only B has an entry."""
+    P, Q = A.copy(), B.copy()
+    P.data, Q.data = np.ones_like(P.data), np.ones_like(Q.data)
+    U = (P + Q).tocsc()
+    U.sort_indices()
+    return cs_add_inplace(A, A, U, 1.0, 0.0)
+
+
 def _resolve_a(a_cov):
     n = a_cov.shape[0]
     if sp.sparse.issparse(a_cov):
@@ -655,7 +664,7 @@ class MMEBlocked(BaseMME):
             self._initialize_unweighted()
         else:
             self._initialize_weighted()
-        self.C = self.ZtRZ + self.G
+        self.C = pattern_union(self.ZtRZ, self.G)
 
     def _initialize_unweighted(self):
         ZtR = self.Zt.dot(self.R).tocsc()
@@ -663,7 +672,7 @@ class MMEBlocked(BaseMME):
         ZtR_dR_RZ = sp.sparse.csc_array.dot(ZtRdR, ZtR.T).tocsc()
 
         ZtZ = sp.sparse.csc_array.dot(self.Zt, self.Zt.T).tocsc()
-        ZtZ.sort_indices()
+        ZtZ = pattern_union(ZtZ, self.G)
         ZtRZ = ZtZ.copy()                       # persistent buffer
         ZtRZ.sort_indices()
 
-- 
2.43.0


From c9f45e9c02c300e1659d58a7186c6315f1d3861d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:52 +0000
Subject: [PATCH 005/199] fix: make LMM.loglike independent of the
 fill-reducing permutation

---
 pystatsm/pylmm/lmm.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pylmm/lmm.py b/pystatsm/pylmm/lmm.py
index 80eb4c1..a9e0546 100644
--- a/pystatsm/pylmm/lmm.py
+++ b/pystatsm/pylmm/lmm.py
@@ -158,14 +158,20 @@ class LMM(object):
         Ginv = self.update_gmat(theta, inverse=True)
         M = self.update_mme(Ginv, theta)
         if (M.nnz / np.prod(M.shape) < sparsity_threshold) and use_sparse:
-            L = cholesky(M.tocsc()).L().toarray()
+            # the sparse factor is of a permuted M, so take the last pivot
+            # from the inverse instead of the factor's last diagonal entry
+            M_fac = cholesky(M.tocsc())
+            e_y = np.zeros(M.shape[0])
+            e_y[-1] = 1.0
+            ytPy = 1.0 / M_fac.solve_A(e_y)[-1]
+            logdetC = M_fac.slogdet()[1] - np.log(ytPy)
         else:
             L = np.linalg.cholesky(M.toarray())
-        ytPy = np.diag(L)[-1]**2
+            ytPy = np.diag(L)[-1]**2
+            logdetC = np.sum(2*np.log(np.diag(L))[:-1])
         logdetG = self.lndet_gmat(theta)
         logdetR = np.log(theta[-1]) * self.Z.shape[0]
         if reml:
-            logdetC = np.sum(2*np.log(np.diag(L))[:-1])
             ll = logdetR + logdetC + logdetG + ytPy
         else:
             Q = Ginv + self.ZtZ / theta[-1]
-- 
2.43.0


From 6ce3767edad8967393d4c842f7863798a893dc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:52 +0000
Subject: [PATCH 006/199] fix: do not write defaults into the caller's
 optimiser options

---
 pystatsm/pylmm/lmm.py  | 4 +---
 pystatsm/pylmm/mlmm.py | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/pystatsm/pylmm/lmm.py b/pystatsm/pylmm/lmm.py
index a9e0546..b0e6cf3 100644
--- a/pystatsm/pylmm/lmm.py
+++ b/pystatsm/pylmm/lmm.py
@@ -547,9 +547,7 @@ class LMM(object):
                   opt_kws={}, optimize_kws={}):
 
         default_opt_kws = dict(verbose=0, gtol=1e-6, xtol=1e-6)
-        for key, value in default_opt_kws.items():
-                if key not in opt_kws.keys():
-                    opt_kws[key] = value
+        opt_kws = {**default_opt_kws, **opt_kws}
         if use_grad:
 
             if use_hess:
diff --git a/pystatsm/pylmm/mlmm.py b/pystatsm/pylmm/mlmm.py
index 925969a..b3b0344 100644
--- a/pystatsm/pylmm/mlmm.py
+++ b/pystatsm/pylmm/mlmm.py
@@ -413,9 +413,7 @@ class MLMM:
                   opt_kws={}):
 
         default_opt_kws = dict(verbose=0, gtol=1e-6, xtol=1e-6)
-        for key, value in default_opt_kws.items():
-                if key not in opt_kws.keys():
-                    opt_kws[key] = value
+        opt_kws = {**default_opt_kws, **opt_kws}
         if use_grad:
 
             if use_hess:
-- 
2.43.0


From c3d332e48c8aab95499e72aebcc1e94653251374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:27 +0000
Subject: [PATCH 007/199] fix: use the ML curvature for ML fits of LMM

---
 pystatsm/pylmm/lmm.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pystatsm/pylmm/lmm.py b/pystatsm/pylmm/lmm.py
index b0e6cf3..8418970 100644
--- a/pystatsm/pylmm/lmm.py
+++ b/pystatsm/pylmm/lmm.py
@@ -469,14 +469,21 @@ class LMM(object):
         ZtPy = Z.T.dot(Py)
         PPy = W.dot(Py) - WX.dot(U.dot(Py))
         ZtPPy =  Z.T.dot(PPy)
+        # the trace terms involve P under REML but V^-1 under ML
+        if reml:
+            P = W - WX.dot(U)
+            ZtT, ZtTZ = ZtP, ZtPZ
+        else:
+            P = W.toarray()
+            ZtT, ZtTZ = WZ.T.toarray(), Z.T.dot(WZ).toarray()
         H = self.H * 0.0
         PJ, yPZJ, ZPJ = [], [], []
         ix = []
         for i in range(self.levels):
             ind = self.jac_inds[i]
-            ZtPZi = ZtPZ[ind]
+            ZtPZi = ZtTZ[ind]
             ZtPyi = ZtPy[ind]
-            ZtPi = ZtP[ind]
+            ZtPi = ZtT[ind]
             for dGdi in self.random_effects.terms[i].G_deriv:
                 PJ.append(dGdi.dot(ZtPZi))
                 yPZJ.append(dGdi.dot(ZtPyi))
@@ -492,13 +499,12 @@ class LMM(object):
                     + (2 * (yPZJi.T.dot(ZtPZij)).dot(JjZPy))[0]
             H[i, j] = H[j, i] = Hij
         dR = self.dR
-        dRZtP = (dR.dot(ZtP.T))
+        dRZtP = (dR.dot(ZtT.T))
         for i in range(len(self.theta)-1):
             yPZJi = yPZJ[i]
             ZPJi = ZPJ[i]
             ZtPPyi = ZtPPy[ix[i]]
             H[i, -1] = H[-1, i] = 2*yPZJi.T.dot(ZtPPyi) - np.einsum('ij,ji->', ZPJi.T, dRZtP[:, ix[i]])
-        P = W - WX.dot(U)
         H[-1, -1] = Py.T.dot(PPy)*2 - np.einsum("ij,ji->", P, P)
         return H
 
@@ -584,11 +590,11 @@ class LMM(object):
             re_corrs[i] = v.dot(C).dot(v)
 
         if analytic_se:
-            Htheta = self.hessian(theta)
+            Htheta = self.hessian(theta, reml)
         elif use_grad:
-            Htheta = so_gc_cd(self.gradient, theta)
+            Htheta = so_gc_cd(self.gradient, theta, args=(reml,))
         else:
-            Htheta = so_fc_cd(self.loglike, theta)
+            Htheta = so_fc_cd(self.loglike, theta, args=(reml,))
 
         self.theta, self.beta, self.u, self.params = theta, beta, u, params
         self.Hinv_beta = XtWX_inv
-- 
2.43.0


From f53cf198a4c34a3149c3c82e85f87fcd3a01fbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:14 +0000
Subject: [PATCH 008/199] fix: store a relationship matrix and its inverse on
 one pattern in KronAG

---
 pystatsm/pylmm/re_mod.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pystatsm/pylmm/re_mod.py b/pystatsm/pylmm/re_mod.py
index 738aae2..a7686bc 100644
--- a/pystatsm/pylmm/re_mod.py
+++ b/pystatsm/pylmm/re_mod.py
@@ -92,11 +92,13 @@ def _resolve_a(a_cov):
         a_csc = a_cov.tocsc()
         fac = cholesky(sp.sparse.csc_matrix(a_csc))
         a_inv = sp.sparse.csc_matrix(fac.solve_A(sp.sparse.eye(n, format='csc')))
-        return a_csc, a_inv
-    A = np.asarray(a_cov)
-    L = np.linalg.cholesky(A)
-    A_inv = sp.linalg.cho_solve((L, True), np.eye(n))
-    return sp.sparse.csc_matrix(A), sp.sparse.csc_matrix(A_inv)
+    else:
+        A = np.asarray(a_cov, dtype=np.double)
+        L = np.linalg.cholesky(A)
+        a_csc = sp.sparse.csc_matrix(A)
+        a_inv = sp.sparse.csc_matrix(sp.linalg.cho_solve((L, True), np.eye(n)))
+    # both are written into one buffer, so they have to share a pattern
+    return pattern_union(a_csc, a_inv), pattern_union(a_inv, a_csc)
 
 
 class BaseCovarianceStructure(metaclass=ABCMeta):
@@ -209,8 +211,8 @@ class BaseProductCovariance(metaclass=ABCMeta):
         pass
 
     def accumulate_gradient(self, par_offset, sl, ZtRZ, L_zz, T_zx, v_y,
-                            T_xx_inv, reml, grad):
-        L_zz_blk_t = L_zz[sl].T.tocsc()
+                            T_xx_inv, reml, grad, L_zz_sl=None):
+        L_zz_blk_t = (L_zz_sl if L_zz_sl is not None else L_zz[sl]).T.tocsc()
         ZtRZ_blk = ZtRZ[sl, sl]
         T_zx_blk = T_zx[sl]
         v_y_blk = v_y[sl]
@@ -323,7 +325,7 @@ class KronAG(BaseProductCovariance):
 
     def _update_gdata(self, G0, inv, out):
         A = self.a_inv if inv else self.a_cov
-        sparse_dense_kron_inplace(A, G0, out)
+        sparse_dense_kron_inplace(A, np.asfortranarray(G0), out)
 
     def get_logdet(self, params, out=0.0):
         G0 = invech(params)
@@ -331,7 +333,7 @@ class KronAG(BaseProductCovariance):
         return out
 
     def dcov_dparams(self, params, i):
-        dG0_i = self.unstructured_cov.dcov_dparams(params, i).copy()
+        dG0_i = self.unstructured_cov.dcov_dparams(params, i).copy(order='F')
         dGi = sparse_dense_kron(self.a_cov, dG0_i)
         dGi.eliminate_zeros()
         return dGi
-- 
2.43.0


From 2c8be28fc30d499602f46c3b3de086c87a58336c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:34 +0000
Subject: [PATCH 009/199] fix: sort the rows merged by the block-diagonal and
 pattern traces

---
 pystatsm/utilities/python_wrappers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pystatsm/utilities/python_wrappers.py b/pystatsm/utilities/python_wrappers.py
index e5dc2c7..cc497fd 100644
--- a/pystatsm/utilities/python_wrappers.py
+++ b/pystatsm/utilities/python_wrappers.py
@@ -303,6 +303,8 @@ def sparse_dot(a, b, c=0.0):
     return c
 
 def sparse_pattern_trace(B, C, out=0.0):
+    if not B.has_sorted_indices:    # columns of B are merged in index order
+        B = B.sorted_indices()
     out = cs_pattern_trace_wrapper(B.indptr, B.indices, B.data, B.shape[0], B.shape[1], B.nnz,
                                    C.indptr, C.indices, C.data, C.shape[0], C.shape[1], C.nnz,
                                    out)
@@ -315,6 +317,8 @@ def block_diag_self_dot(L_csr, ng, nv, out=None):
     out[a, b] = sum_j sum_p L[j*nv+a, p] * L[j*nv+b, p]."""
     if out is None:
         out = np.zeros((nv, nv), dtype=np.double)
+    if not L_csr.has_sorted_indices:    # rows are merged in index order
+        L_csr = L_csr.sorted_indices()
     cs_block_diag_self_dot_wrapper(L_csr.indptr.astype(np.int32, copy=False),
                                    L_csr.indices.astype(np.int32, copy=False),
                                    L_csr.data.astype(np.double, copy=False),
-- 
2.43.0


From 16ff82f3ad5a8002a6253ae8244042045254f09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:03 +0000
Subject: [PATCH 010/199] fix: post-multiply by D in
 DuplicationMatrix.apply_pre_post

---
 pystatsm/utilities/special_mats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/special_mats.py b/pystatsm/utilities/special_mats.py
index 2e7500a..3f5a353 100644
--- a/pystatsm/utilities/special_mats.py
+++ b/pystatsm/utilities/special_mats.py
@@ -430,7 +430,7 @@ class DuplicationMatrix:
             D2 = D2.T
 
         A = D1.dot(A)
-        A = (D2.dot(A.T)).T
+        A = (D2.T.dot(A.T)).T
         return A
 
 class DpMatrix:
-- 
2.43.0


From 56ab5b74aa9f73bf0e5c0cca92d8ef68f3b74ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:03 +0000
Subject: [PATCH 011/199] fix: do not double the diagonal positions in
 inv_tril_indices

---
 pystatsm/utilities/indexing_utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pystatsm/utilities/indexing_utils.py b/pystatsm/utilities/indexing_utils.py
index 9a0a12e..5591ccf 100644
--- a/pystatsm/utilities/indexing_utils.py
+++ b/pystatsm/utilities/indexing_utils.py
@@ -87,8 +87,7 @@ def tril_indices(n, k=0, m=None, order='F'):
 def inv_tril_indices(n, k=0, m=None, order='F', indexing=0):
     arr = np.zeros((n, n), dtype=int)
     ij = tril_indices(n, k, m, order)
-    arr[ij] = np.arange(indexing, indexing+len(ij[0]))
-    arr = arr + arr.T
+    arr[ij] = arr[ij[::-1]] = np.arange(indexing, indexing+len(ij[0]))
     return arr
 
 def triu_indices(n, k=0, m=None, order='F'):
-- 
2.43.0


From ae26e3662d66ec6a7cce88d4b13cedec9c53dfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:06 +0000
Subject: [PATCH 012/199] fix: orient UnconstrainedCholeskyCorr so that every
 real vector maps back to a correlation

---
 pystatsm/utilities/cov_transform.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pystatsm/utilities/cov_transform.py b/pystatsm/utilities/cov_transform.py
index 075c07d..06aca45 100644
--- a/pystatsm/utilities/cov_transform.py
+++ b/pystatsm/utilities/cov_transform.py
@@ -148,21 +148,21 @@ class UnconstrainedCholeskyCorr(object):
         self.ind_parts = lhv_ind_parts(mat_size)
         self.row_norm_inds = [self.row_sort[a:b] for a, b in self.ind_parts]
     
-    def _fwd(self, x):
+    def _rvs(self, x):
         row_norms = np.zeros_like(x)
         for ii in self.row_norm_inds:
             row_norms[ii] = np.sqrt(np.sum(x[ii]**2)+1)
         y = x / row_norms
         return y
     
-    def _rvs(self, y):
+    def _fwd(self, y):
         diag = np.zeros_like(y)
         for ii in self.row_norm_inds:
             diag[ii] = np.sqrt(1-np.sum(y[ii]**2))
         x = y / diag
         return x
     
-    def _jac_fwd(self, x):
+    def _jac_rvs(self, x):
         dy_dx = np.zeros((x.shape[0],)*2)
         for ii in self.row_norm_inds:
             xii = x[ii]
@@ -172,7 +172,7 @@ class UnconstrainedCholeskyCorr(object):
             dy_dx[ii, ii[:, None]] = v1 - v2
         return dy_dx
     
-    def _hess_fwd(self, x):
+    def _hess_rvs(self, x):
         d2y_dx2 = np.zeros((x.shape[0],)*3)
         for ii in self.row_norm_inds:
             x_ii = x[ii]
@@ -189,7 +189,7 @@ class UnconstrainedCholeskyCorr(object):
                         d2y_dx2[i, j, k] = t1+t2+t3+t4
         return d2y_dx2
                         
-    def _jac_rvs(self, y):
+    def _jac_fwd(self, y):
         dx_dy = np.zeros((y.shape[0],)*2)
         for ii in self.row_norm_inds:
             yii = y[ii]
@@ -199,7 +199,7 @@ class UnconstrainedCholeskyCorr(object):
             dx_dy[ii, ii[:, None]] = v1 + v2
         return dx_dy
     
-    def _hess_rvs(self, y):
+    def _hess_fwd(self, y):
         d2x_dy2 = np.zeros((y.shape[0],)*3)
         for ii in self.row_norm_inds:
             y_ii = y[ii]
-- 
2.43.0


From daeda1354c10c9c3e87f7a60a83901421849059b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:08 +0000
Subject: [PATCH 013/199] fix: pass extra arguments through the Jacobian and
 Hessian approximations

---
 pystatsm/utilities/numerical_derivs.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pystatsm/utilities/numerical_derivs.py b/pystatsm/utilities/numerical_derivs.py
index bb414ca..5aaa72c 100644
--- a/pystatsm/utilities/numerical_derivs.py
+++ b/pystatsm/utilities/numerical_derivs.py
@@ -192,7 +192,7 @@ def grad_approx(f, x, eps=1e-4, tol=None, d=1e-4, nr=6, v=2):
 
 
 def jac_approx(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False, mask=None):
-    def Func(X, args=()):
+    def Func(X, *args):
         return np.atleast_1d(F(X, *args))
     X = np.asarray(X)
     Y = np.asarray(Func(X, *args))
@@ -240,7 +240,7 @@ def jac_approx2(f, x, eps=1e-4, tol=None, d=1e-4, nr=6, v=2):
     return A
 
 def jac_approx3(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False):
-    def Func(X, args=()):
+    def Func(X, *args):
         return np.atleast_1d(F(X, *args))
     
     X = np.asarray(X)
@@ -265,7 +265,7 @@ def jac_approx3(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False):
 
 
 def jac_approx4(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False):
-    def Func(X, args=()):
+    def Func(X, *args):
         return np.atleast_1d(F(X, *args))
     X = np.asarray(X)
     Y = np.asarray(Func(X, *args))
@@ -288,7 +288,7 @@ def jac_approx4(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False):
 
 
 def hess_approx(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False,  mask=None):
-    def Func(X, args=()):
+    def Func(X, *args):
         return np.atleast_1d(F(X, *args))
     X = np.asarray(X)
     Y = np.asarray(Func(X, *args))
@@ -445,7 +445,7 @@ def fo_fc_cs(f, x, delta=None, args=()):
 def jac_cs(f, x, delta=None, args=()):
     if delta is None:
         delta = (np.finfo(float).eps)**(1.0/3.0)
-    n, m = len(np.asarray(x)), len(f(x))
+    n, m = len(np.asarray(x)), len(f(x, *args))
     J, h =  np.zeros((m, n)), np.zeros(n)
     for i in range(n):
         h[i] = delta
-- 
2.43.0


From d8ba46da120150984d7eccaf25ffbc8e9dfe1e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:06 +0000
Subject: [PATCH 014/199] fix: antedependence correlation matrix is asymmetric
 for four or more variables

---
 pystatsm/utilities/cov_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/cov_utils.py b/pystatsm/utilities/cov_utils.py
index 00bb423..69f02c1 100644
--- a/pystatsm/utilities/cov_utils.py
+++ b/pystatsm/utilities/cov_utils.py
@@ -180,7 +180,7 @@ def get_antedependence1_corr(rho, n_var=None):
         r.append(np.cumprod(rho[i:]))
     r = np.concatenate(r)
     R = np.eye(n_var)
-    R[np.triu_indices(n_var, 1)[::-1]] = R[np.tril_indices(n_var, -1)[::-1]] = r
+    R[np.triu_indices(n_var, 1)] = R[np.triu_indices(n_var, 1)[::-1]] = r
     return R
 
 def get_factor_cov(A, Psi, Phi=None, n_var=None):
-- 
2.43.0


From 06cc8347d7c9685213bfe0542b287f5e0129304d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:06 +0000
Subject: [PATCH 015/199] fix: flat_cross_tabulate uses np.product, removed in
 numpy 2

---
 pystatsm/utilities/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/data_utils.py b/pystatsm/utilities/data_utils.py
index 7893d08..019782a 100644
--- a/pystatsm/utilities/data_utils.py
+++ b/pystatsm/utilities/data_utils.py
@@ -405,7 +405,7 @@ def flat_cross_tabulate(arr, column_dim=-1):
     axis_positions.append(axis_positions.pop(column_dim))
     axis_locations = [axis_positions.index(i) for i in range(counts.ndim)]
     counts = np.moveaxis(counts, list(range(counts.ndim)), axis_locations)
-    counts = counts.reshape(np.product(counts.shape[:-1]), counts.shape[-1], order='C')
+    counts = counts.reshape(np.prod(counts.shape[:-1]), counts.shape[-1], order='C')
     row_labels = np.array(list(itertools.product(*levels)))
     return counts, row_labels, col_labels, axis_locations
     
-- 
2.43.0


From 49de5f5962f1b3888522ee4785af699b146db973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:06 +0000
Subject: [PATCH 016/199] fix: welford_variance transposes the remaining axes
 for the last axis of a 3d array

---
 pystatsm/utilities/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/data_utils.py b/pystatsm/utilities/data_utils.py
index 019782a..c977668 100644
--- a/pystatsm/utilities/data_utils.py
+++ b/pystatsm/utilities/data_utils.py
@@ -349,7 +349,7 @@ def welford_variance(arr, axis=None, unbiased=False):
     n = shape.pop(axis)
     mean = np.zeros(tuple(shape))
     sumsq = np.zeros(tuple(shape))
-    arr = np.swapaxes(arr, 0, axis)
+    arr = np.moveaxis(arr, axis, 0)
     mean, sumsq = _welford_variance(arr, n, mean, sumsq)
     variance = sumsq / (n - unbiased)
     return mean, variance
-- 
2.43.0


From e5a87364b113e514c60bf76a5a24349c066852f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:06 +0000
Subject: [PATCH 017/199] fix: extremal_indices selects along the first axis
 whatever the axis argument

---
 pystatsm/utilities/data_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystatsm/utilities/data_utils.py b/pystatsm/utilities/data_utils.py
index c977668..84b5ffe 100644
--- a/pystatsm/utilities/data_utils.py
+++ b/pystatsm/utilities/data_utils.py
@@ -433,9 +433,11 @@ def expand_crosstab(table):
 
 def extremal_indices(arr, n, axis=-1, largest=True):
     if largest:
-        return np.argpartition(arr, -n, axis=axis)[-n:]
+        ix = np.argpartition(arr, -n, axis=axis)
+        return np.take(ix, np.arange(ix.shape[axis]-n, ix.shape[axis]), axis=axis)
     else:
-        return np.argpartition(arr, n, axis=axis)[:n]
+        ix = np.argpartition(arr, n, axis=axis)
+        return np.take(ix, np.arange(n), axis=axis)
 
 
 
-- 
2.43.0


From 20fcc31a1431a0e83ff21fc15c2b25b3a81a5dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:06 +0000
Subject: [PATCH 018/199] fix: dmat_exp is nan for repeated eigenvalues

---
 pystatsm/utilities/linalg_operations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/utilities/linalg_operations.py b/pystatsm/utilities/linalg_operations.py
index 9cdd1b5..cb94f91 100644
--- a/pystatsm/utilities/linalg_operations.py
+++ b/pystatsm/utilities/linalg_operations.py
@@ -721,13 +721,13 @@ class LHV(object):
 
 def dmat_exp(A):
     n = A.shape[0]
-    u, V = np.linalg.eig(A)
+    u, V = np.linalg.eigh(A)
     arr = np.zeros((n * n), dtype=float)
     eu = np.exp(u)
     for i, j in np.ndindex((n, n)):
         k = n * i + j
-        if i!=j:
-            arr[k] = (eu[i] - eu[j]) / (u[i] - u[j])
+        if u[i]!=u[j]:
+            arr[k] = np.exp(u[j]) * np.expm1(u[i] - u[j]) / (u[i] - u[j])
         else:
             arr[k] = eu[i]
     W = np.kron(V, V)
-- 
2.43.0


From 52a5a2f58f89d42b29204a05786e6a14a879a897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:50 +0000
Subject: [PATCH 019/199] fix: sign_change counts elements of the other sign
 instead of sign changes for nth_change above 1

---
 pystatsm/utilities/data_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/utilities/data_utils.py b/pystatsm/utilities/data_utils.py
index 84b5ffe..72d22a2 100644
--- a/pystatsm/utilities/data_utils.py
+++ b/pystatsm/utilities/data_utils.py
@@ -291,6 +291,7 @@ def _kth_sign_change_1d(arr, b, k=1):
     for i in range(1, n):
         if np.sign(arr[i]-b)!=s:
             j += 1
+            s = np.sign(arr[i]-b)
         if j==k:
             break
     return i-1
-- 
2.43.0


From 23f3ebf5fda1ef833b353a96abc7a5fb179e3a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:24 +0000
Subject: [PATCH 020/199] fix: second and fourth derivatives of the negative
 binomial link have the wrong sign

---
 pystatsm/pyglm/links.py  | 4 ++--
 pystatsm/pyglm2/links.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm/links.py b/pystatsm/pyglm/links.py
index 899b071..44b4df3 100644
--- a/pystatsm/pyglm/links.py
+++ b/pystatsm/pyglm/links.py
@@ -399,7 +399,7 @@ class NegativeBinomialLink(Link):
         return dmu
     
     def d2link(self, mu):
-        a = self.v * (self.v + 2.0 * mu)
+        a = -self.v * (self.v + 2.0 * mu)
         b = mu**2 * (self.v + mu)**2
         return a / b
         
@@ -411,7 +411,7 @@ class NegativeBinomialLink(Link):
     
     def d4link(self, mu):
         v = self.v
-        a = 6.0 * v * (v**3 + 4.0 * v**2 * mu + 6.0 * v * mu**2 + 4.0 * mu**3)
+        a = -6.0 * v * (v**3 + 4.0 * v**2 * mu + 6.0 * v * mu**2 + 4.0 * mu**3)
         b = mu**4 * (mu + v)**4
         return a / b
         
diff --git a/pystatsm/pyglm2/links.py b/pystatsm/pyglm2/links.py
index 353571c..41f078b 100644
--- a/pystatsm/pyglm2/links.py
+++ b/pystatsm/pyglm2/links.py
@@ -486,7 +486,7 @@ class NegativeBinomialLink(Link):
         return dmu
     
     def d2link(self, mu):
-        a = self.v * (self.v + 2.0 * mu)
+        a = -self.v * (self.v + 2.0 * mu)
         b = mu**2 * (self.v + mu)**2
         return a / b
         
@@ -498,7 +498,7 @@ class NegativeBinomialLink(Link):
     
     def d4link(self, mu):
         v = self.v
-        a = 6.0 * v * (v**3 + 4.0 * v**2 * mu + 6.0 * v * mu**2 + 4.0 * mu**3)
+        a = -6.0 * v * (v**3 + 4.0 * v**2 * mu + 6.0 * v * mu**2 + 4.0 * mu**3)
         b = mu**4 * (mu + v)**4
         return a / b
         
-- 
2.43.0


From 80ba8b7dbec30acd885666e31b56800097a61195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:24 +0000
Subject: [PATCH 021/199] fix: second derivative of the inverse power link has
 the wrong sign

---
 pystatsm/pyglm/links.py  | 2 +-
 pystatsm/pyglm2/links.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/links.py b/pystatsm/pyglm/links.py
index 44b4df3..c5e3a09 100644
--- a/pystatsm/pyglm/links.py
+++ b/pystatsm/pyglm/links.py
@@ -293,7 +293,7 @@ class PowerLink(Link):
         if alpha==0:
             d2mu = np.exp(eta)
         else:
-            d2mu = (alpha - 1.0) * eta**(1/alpha - 2.0) / alpha**2
+            d2mu = (1.0 - alpha) * eta**(1/alpha - 2.0) / alpha**2
         return d2mu
     
     def link(self, mu):
diff --git a/pystatsm/pyglm2/links.py b/pystatsm/pyglm2/links.py
index 41f078b..f7f1f82 100644
--- a/pystatsm/pyglm2/links.py
+++ b/pystatsm/pyglm2/links.py
@@ -372,7 +372,7 @@ class PowerLink(Link):
         if alpha==0:
             d2mu = np.exp(eta)
         else:
-            d2mu = (alpha - 1.0) * eta**(1/alpha - 2.0) / alpha**2
+            d2mu = (1.0 - alpha) * eta**(1/alpha - 2.0) / alpha**2
         return d2mu
     
     def link(self, mu):
-- 
2.43.0


From 83741fd0ae683f66468265f21ea5e2573a0a1c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:24 +0000
Subject: [PATCH 022/199] fix: fourth derivative of the probit link calls a
 function scipy does not have

---
 pystatsm/pyglm/links.py  | 2 +-
 pystatsm/pyglm2/links.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/links.py b/pystatsm/pyglm/links.py
index c5e3a09..e100a58 100644
--- a/pystatsm/pyglm/links.py
+++ b/pystatsm/pyglm/links.py
@@ -148,7 +148,7 @@ class ProbitLink(Link):
         return g
     
     def d4link(self, mu):
-        u = sp.special.erfinc(2.0 * mu - 1.0)
+        u = sp.special.erfinv(2.0 * mu - 1.0)
         c = 4.0 * np.sqrt(2.0) * np.pi**2
         g = c * np.exp(4.0 * u**2) * u * (12 * u**2 + 7)
         return g
diff --git a/pystatsm/pyglm2/links.py b/pystatsm/pyglm2/links.py
index f7f1f82..6c69428 100644
--- a/pystatsm/pyglm2/links.py
+++ b/pystatsm/pyglm2/links.py
@@ -201,7 +201,7 @@ class ProbitLink(Link):
     
     @staticmethod
     def d4link(mu):
-        u = sp.special.erfinc(2.0 * mu - 1.0)
+        u = sp.special.erfinv(2.0 * mu - 1.0)
         c = 4.0 * np.sqrt(2.0) * np.pi**2
         g = c * np.exp(4.0 * u**2) * u * (12 * u**2 + 7)
         return g
-- 
2.43.0


From 6b0b12e7b70bd4f798177a9839ff4d96f7d9bb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:24 +0000
Subject: [PATCH 023/199] fix: inverse logit link and its derivatives are nan
 for large linear predictors

---
 pystatsm/pyglm/links.py  | 11 +++++------
 pystatsm/pyglm2/links.py | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/pystatsm/pyglm/links.py b/pystatsm/pyglm/links.py
index e100a58..121ea75 100644
--- a/pystatsm/pyglm/links.py
+++ b/pystatsm/pyglm/links.py
@@ -72,18 +72,17 @@ class LogitLink(Link):
         self.fnc='logit'
         
     def inv_link(self, eta):
-        u = np.exp(eta)
-        mu = u / (u + 1)
+        mu = sp.special.expit(eta)
         return mu
     
     def dinv_link(self, eta):
-        u = np.exp(eta)
-        dmu = u / ((1 + u)**2)
+        mu = sp.special.expit(eta)
+        dmu = mu * sp.special.expit(-eta)
         return dmu
         
     def d2inv_link(self, eta):
-        u = np.exp(eta)
-        d2mu = -(u * (u - 1.0)) / ((1.0 + u)**3)
+        mu = sp.special.expit(eta)
+        d2mu = -mu * sp.special.expit(-eta) * np.tanh(eta / 2.0)
         return d2mu
     
     def link(self, mu):
diff --git a/pystatsm/pyglm2/links.py b/pystatsm/pyglm2/links.py
index 6c69428..74bc671 100644
--- a/pystatsm/pyglm2/links.py
+++ b/pystatsm/pyglm2/links.py
@@ -107,20 +107,19 @@ class LogitLink(Link):
     
     @staticmethod
     def inv_link(eta):
-        u = np.exp(eta)
-        mu = u / (u + 1)
+        mu = sp.special.expit(eta)
         return mu
     
     @staticmethod
     def dinv_link(eta):
-        u = np.exp(eta)
-        dmu = u / ((1 + u)**2)
+        mu = sp.special.expit(eta)
+        dmu = mu * sp.special.expit(-eta)
         return dmu
        
     @staticmethod
     def d2inv_link(eta):
-        u = np.exp(eta)
-        d2mu = -(u * (u - 1.0)) / ((1.0 + u)**3)
+        mu = sp.special.expit(eta)
+        d2mu = -mu * sp.special.expit(-eta) * np.tanh(eta / 2.0)
         return d2mu
     
     @staticmethod
-- 
2.43.0


From c865a04b9e282f4a29f69bbef4c8c1d88a3fd58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:49 +0000
Subject: [PATCH 024/199] fix: Pearson and signed residuals ignore the weights
 they are given

---
 pystatsm/pyglm/families.py  | 4 ++--
 pystatsm/pyglm2/families.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index 8708ca3..8dbc63c 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -77,7 +77,7 @@ class ExponentialFamily(object):
         weights = self.weights if weights is None else weights
         y, mu = self.cshape(y, mu)
         V = self.var_func(mu=mu, dispersion=dispersion)
-        w = np.sqrt(self.weights / V)
+        w = np.sqrt(weights / V)
         r_p = w * (y - mu)
         return r_p
     
@@ -98,7 +98,7 @@ class ExponentialFamily(object):
     def signed_resid(self, y, eta=None, mu=None, T=None, phi=1.0, dispersion=1.0, weights=None):
         mu = self._to_mean(eta=eta, T=T) if mu is None else mu
         y, mu = self.cshape(y, mu)
-        d = self.deviance(y, mu=mu, phi=phi, dispersion=dispersion)
+        d = self.deviance(y, mu=mu, phi=phi, dispersion=dispersion, weights=weights)
         r_s = np.sign(y - mu) * np.sqrt(d)
         return r_s
 
diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index 8a681ee..2809afe 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -116,7 +116,7 @@ class ExponentialFamily(metaclass=ABCMeta):
         return chi2
 
     def signed_resid(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
-        d = self.deviance(y, mu=mu, phi=phi, dispersion=dispersion)
+        d = self.deviance(y, mu=mu, phi=phi, dispersion=dispersion, weights=weights)
         r_s = np.sign(y - mu) * np.sqrt(d)
         return r_s
 
-- 
2.43.0


From 25a1946a9d172137bb8eea816ade9300935b72b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:50 +0000
Subject: [PATCH 025/199] fix: inverse Gaussian draws and quantiles use the
 wrong scale

---
 pystatsm/pyglm/families.py  | 4 ++--
 pystatsm/pyglm2/families.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index 8dbc63c..a0cef7e 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -425,10 +425,10 @@ class InverseGaussian(ExponentialFamily):
 
     def rvs(self, mu, phi=1.0, rng=None, seed=None):
         rng = np.random.default_rng(seed) if rng is None else rng
-        return rng.wald(mean=mu, scale=np.sqrt(phi))
+        return rng.wald(mean=mu, scale=1.0/phi)
 
     def ppf(self, q, mu, phi=1.0):
-        return sp.stats.wald(loc=mu, scale=np.sqrt(phi)).ppf(q)
+        return sp.stats.invgauss(mu=mu*phi, scale=1.0/phi).ppf(q)
 
 
 class Gamma(ExponentialFamily):
diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index 2809afe..bc1ecad 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -412,10 +412,10 @@ class InverseGaussian(ExponentialFamily):
 
     def rvs(self, mu, phi=1.0, rng=None, seed=None):
         rng = np.random.default_rng(seed) if rng is None else rng
-        return rng.wald(mean=mu, scale=np.sqrt(phi))
+        return rng.wald(mean=mu, scale=1.0/phi)
 
     def ppf(self, q, mu, phi=1.0):
-        return sp.stats.wald(loc=mu, scale=np.sqrt(phi)).ppf(q)
+        return sp.stats.invgauss(mu=mu*phi, scale=1.0/phi).ppf(q)
 
 
 class Gamma(ExponentialFamily):
-- 
2.43.0


From 8bc636afefa70cb4a773f5ee29f9f2c8b4f21376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:50 +0000
Subject: [PATCH 026/199] fix: Poisson quantiles pass a scale that the
 distribution does not have

---
 pystatsm/pyglm/families.py  | 2 +-
 pystatsm/pyglm2/families.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index a0cef7e..8bdf50b 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -758,7 +758,7 @@ class Poisson(ExponentialFamily):
         return y
 
     def ppf(self, q, mu, scale=1.0):
-        return sp.stats.poisson(mu=mu, scale=np.sqrt(scale)).ppf(q)
+        return sp.stats.poisson(mu=mu).ppf(q)
 
 
 class Binomial(ExponentialFamily):
diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index bc1ecad..846eb66 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -708,7 +708,7 @@ class Poisson(ExponentialFamily):
         return y
 
     def ppf(self, q, mu, scale=1.0):
-        return sp.stats.poisson(mu=mu, scale=np.sqrt(scale)).ppf(q)
+        return sp.stats.poisson(mu=mu).ppf(q)
 
 
 class Binomial(ExponentialFamily):
-- 
2.43.0


From 16ced37fe7796ce8bb9fae4ae9b85c92284e9e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:50 +0000
Subject: [PATCH 027/199] fix: expected weights count the prior weights twice

---
 pystatsm/pyglm2/families.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index 846eb66..dbe9886 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -171,7 +171,7 @@ class ExponentialFamily(metaclass=ABCMeta):
     def get_ehw(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
         den = self.variance(mu=mu, weights=weights, phi=phi, dispersion=dispersion) 
         den = den * self.dlink(mu)**2
-        w = weights / den
+        w = 1.0 / den
         return w
 
     def da_dmu(self, y, mu=None, weights=None, phi=1.0, dispersion=1.0, **kwargs):
-- 
2.43.0


From 70c895c345e4b728adc5b607a636dbb96b4b504e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:50 +0000
Subject: [PATCH 028/199] fix: working-weight derivatives call helpers that do
 not exist

---
 pystatsm/pyglm2/families.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index dbe9886..29f8a58 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -158,11 +158,11 @@ class ExponentialFamily(metaclass=ABCMeta):
         return a
 
     def get_g(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
-        g = self.dlink(mu) / self._get_a(y=y, mu=mu, phi=phi, dispersion=dispersion)
+        g = self.dlink(mu) / self.get_a(y=y, mu=mu, phi=phi, dispersion=dispersion)
         return g
     
     def get_w(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
-        a = self._get_a(y=y, mu=mu, weights=weights, phi=phi, dispersion=dispersion)
+        a = self.get_a(y=y, mu=mu, weights=weights, phi=phi, dispersion=dispersion)
         v = self.var_func(mu, dispersion)
         dmu = self.dlink(mu)
         res = a / (dmu**2 * v)
@@ -175,7 +175,6 @@ class ExponentialFamily(metaclass=ABCMeta):
         return w
 
     def da_dmu(self, y, mu=None, weights=None, phi=1.0, dispersion=1.0, **kwargs):
-        y, mu, weights = self._check_args(**dict(y=y, mu=mu, weights=weights, **kwargs))
         V0, V1, V2 = self.var_derivs(mu, dispersion, 2)
         g1, g2, g3 = self.dlink(mu), self.d2link(mu), self.d3link(mu)
         u = (V1 / V0 + g2 / g1)
@@ -184,7 +183,6 @@ class ExponentialFamily(metaclass=ABCMeta):
         return res
 
     def d2a_dmu2(self, y, mu=None, weights=None, phi=1.0, dispersion=1.0, **kwargs):
-        y, mu, weights = self._check_args(**dict(y=y, mu=mu, weights=weights, **kwargs))
         V0, V1, V2, V3 = self.var_derivs(mu, dispersion, 3)
         g1 = self.dlink(mu)
         g2 = self.d2link(mu)
@@ -197,7 +195,6 @@ class ExponentialFamily(metaclass=ABCMeta):
         return res
 
     def dw_deta(self, y, mu=None, weights=None, phi=1.0, dispersion=1.0, **kwargs):
-        y, mu, weights = self._check_args(**dict(y=y, mu=mu, weights=weights, **kwargs))
         a0 = self.get_a(y=y, mu=mu, dispersion=dispersion)
         a1 = self.da_dmu(y=y, mu=mu, dispersion=dispersion)
         w = self.get_w(y=y, mu=mu, dispersion=dispersion)
@@ -207,7 +204,6 @@ class ExponentialFamily(metaclass=ABCMeta):
         return res
 
     def d2w_deta2(self, y, mu=None, weights=None, phi=1.0, dispersion=1.0, **kwargs):
-        y, mu, weights = self._check_args(**dict(y=y, mu=mu, weights=weights, **kwargs))
         V0, V1, V2, V3 = self.var_derivs(mu, dispersion, 3)
         g1, g2, g3, g4 = self.dlink(mu), self.d2link(mu), self.d3link(mu), self.d4link(mu)
         g21 = g2 / g1
-- 
2.43.0


From 16bf136abf1baea40ad7bfeb0d85cb197c99e2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:08 +0000
Subject: [PATCH 029/199] fix: identity link slope is a static method that
 takes self

---
 pystatsm/pyglm2/links.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/links.py b/pystatsm/pyglm2/links.py
index 74bc671..035d2b4 100644
--- a/pystatsm/pyglm2/links.py
+++ b/pystatsm/pyglm2/links.py
@@ -68,7 +68,7 @@ class IdentityLink(Link):
         return mu
     
     @staticmethod
-    def dinv_link(self, eta):
+    def dinv_link(eta):
         dmu = 0.0*eta+1.0
         return dmu
        
-- 
2.43.0


From d059b12f53af97b1497f1f840246cc0fa0666fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:25 +0000
Subject: [PATCH 030/199] fix: second scale derivative of the inverse Gaussian
 saturated likelihood has the wrong sign

---
 pystatsm/pyglm2/families.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index 29f8a58..fb3ecbb 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -404,7 +404,7 @@ class InverseGaussian(ExponentialFamily):
 
     def d2llscale(self, phi, y):
         ls2 = -len(y) / (2.0 * phi**2)
-        return -ls2
+        return ls2
 
     def rvs(self, mu, phi=1.0, rng=None, seed=None):
         rng = np.random.default_rng(seed) if rng is None else rng
-- 
2.43.0


From a003cc6c450c37d2da3537c7c64539505d48b3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:25 +0000
Subject: [PATCH 031/199] fix: working-weight derivatives are nan where the
 working weight is zero

---
 pystatsm/pyglm/families.py  | 13 +++++--------
 pystatsm/pyglm2/families.py | 16 ++++++----------
 2 files changed, 11 insertions(+), 18 deletions(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index 8bdf50b..33b6d51 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -204,16 +204,14 @@ class ExponentialFamily(object):
         y, mu = self.cshape(y, mu)
         a0 = self.get_a(y=y, mu=mu, dispersion=dispersion)
         a1 = self.da_dmu(y=y, mu=mu, dispersion=dispersion)
-        w = self.get_w(y=y, mu=mu, dispersion=dispersion)
         V0 = self.var_func(mu=mu, dispersion=dispersion)
         V1 = self.dvar_dmu(mu=mu, dispersion=dispersion)
         g1, g2 = self.dlink(mu), self.d2link(mu)
-        res = (w / g1) * (a1 / a0 - V1 / V0 - 2.0 * g2 / g1)
+        res = (a1 - a0 * (V1 / V0 + 2.0 * g2 / g1)) / (g1**3 * V0)
         return res
 
     def d2w_deta2(self, y, mu, phi=1.0, dispersion=1.0):
         y, mu = self.cshape(y, mu)
-        w0 = self.get_w(y=y, mu=mu, dispersion=dispersion)
         w1 = self.dw_deta(y=y, mu=mu, dispersion=dispersion)
         a0 = self.get_a(y=y, mu=mu, dispersion=dispersion)
         a1 = self.da_dmu(y=y, mu=mu, dispersion=dispersion)
@@ -222,12 +220,11 @@ class ExponentialFamily(object):
         V0 = self.var_func(mu=mu, dispersion=dispersion)
         V1 =  self.dvar_dmu(mu=mu, dispersion=dispersion)
         V2 = self.d2var_dmu2(mu=mu, dispersion=dispersion)
-        t1 = w1**2 / w0
+        s0 = V1 / V0 + 2.0 * g2 / g1
+        s1 = V2 / V0 - (V1 / V0)**2 + 2.0 * (g3 / g1) - 2.0 * (g2 / g1)**2
+        t1 = (a2 - 2.0 * a1 * s0 + a0 * (s0**2 - s1)) / (g1**4 * V0)
         t2 = w1 * g2 / g1**2
-        t3 = a2 / a0 - (a1 / a0)**2 - V2 / V0 + (V1 / V0)**2 \
-            - 2.0 * (g3 / g1) + 2.0 * (g2 / g1)**2
-        t3 *= w0 / (g1**2)
-        res = t1 - t2 + t3
+        res = t1 - t2
         return res
 
 
diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index fb3ecbb..e43497c 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -197,10 +197,9 @@ class ExponentialFamily(metaclass=ABCMeta):
     def dw_deta(self, y, mu=None, weights=None, phi=1.0, dispersion=1.0, **kwargs):
         a0 = self.get_a(y=y, mu=mu, dispersion=dispersion)
         a1 = self.da_dmu(y=y, mu=mu, dispersion=dispersion)
-        w = self.get_w(y=y, mu=mu, dispersion=dispersion)
         V0, V1 = self.var_derivs(mu, dispersion, 1)
         g1, g2 = self.dlink(mu), self.d2link(mu)
-        res = (w / g1) * (a1 / a0 - V1 / V0 - 2.0 * g2 / g1)
+        res = (a1 - a0 * (V1 / V0 + 2.0 * g2 / g1)) / (g1**3 * V0)
         return res
 
     def d2w_deta2(self, y, mu=None, weights=None, phi=1.0, dispersion=1.0, **kwargs):
@@ -223,15 +222,12 @@ class ExponentialFamily(metaclass=ABCMeta):
         v2 = g4 / g1 - 3.0 * (g3 * g2) / g1**2 + 2.0 * g21_cb
         a2 = (y - mu) * (v1 + v2) - 2.0 * u
         
-        dmu = self.dlink(mu)
-        w0 = a0 / (dmu**2 * V0)
-        w1 = (w0 / g1) * (a1 / a0 - V10 - 2.0 * g21)
-        t1 = w1**2 / w0
+        s0 = V10 + 2.0 * g21
+        s1 = V20 - V10_sq + 2.0 * g31 - 2.0 * g21_sq
+        w1 = (a1 - a0 * s0) / (g1**3 * V0)
+        t1 = (a2 - 2.0 * a1 * s0 + a0 * (s0**2 - s1)) / (g1**4 * V0)
         t2 = w1 * g2 / g1**2
-        t3 = a2 / a0 - (a1 / a0)**2 - V2 / V0 + (V1 / V0)**2 \
-            - 2.0 * (g3 / g1) + 2.0 * (g2 / g1)**2
-        t3 *= w0 / (g1**2)
-        res = t1 - t2 + t3
+        res = t1 - t2
         return res
 
 
-- 
2.43.0


From 5b0440de035976f8b153370f069fc34058974e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:55 +0000
Subject: [PATCH 032/199] fix: moment scale estimate of a weighted GLM ignores
 the weights in the Hessian and standard errors

---
 pystatsm/pyglm2/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index 4834eb5..1b43534 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -135,7 +135,7 @@ class GLM(RegressionMixin, LikelihoodModel):
             dispersion = 1.0
 
         if scale_estimator == "M":
-            phi = f.pearson_chi2(y, mu=mu, dispersion=dispersion) / (X.shape[0] - X.shape[1])
+            phi = f.pearson_chi2(y, mu=mu, dispersion=dispersion, weights=weights) / (X.shape[0] - X.shape[1])
         elif scale_estimator != "NR":
             phi = 1.0
         return X, y, weights, mu, beta, phi, tau, dispersion
-- 
2.43.0


From daa1849976a03385293619f33d9ff562ae15df7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:55 +0000
Subject: [PATCH 033/199] fix: leverages and residuals of a weighted GLM ignore
 the weights

---
 pystatsm/pyglm2/glm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index 1b43534..c5c202b 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -324,13 +324,13 @@ class GLM(RegressionMixin, LikelihoodModel):
             phi = 1.0
         self.phi = phi
         self.dispersion = dispersion
-        WX = X * np.sqrt(f.get_ehw(y, mu, phi=phi, dispersion=dispersion).reshape(-1, 1))
+        WX = X * np.sqrt(f.get_ehw(y, mu, phi=phi, dispersion=dispersion, weights=weights).reshape(-1, 1))
         h = self._compute_leverage_qr(WX)
 
         self.resid_raw = y - mu
-        self.resid_pearson = self.f.pearson_resid(y, mu=mu, phi=1.0, dispersion=dispersion)
-        self.resid_deviance = self.f.deviance_resid(y, mu=mu, phi=1.0, dispersion=dispersion)
-        self.resid_signed = self.f.signed_resid(y, mu=mu, phi=1.0, dispersion=dispersion)
+        self.resid_pearson = self.f.pearson_resid(y, mu=mu, phi=1.0, dispersion=dispersion, weights=weights)
+        self.resid_deviance = self.f.deviance_resid(y, mu=mu, phi=1.0, dispersion=dispersion, weights=weights)
+        self.resid_signed = self.f.signed_resid(y, mu=mu, phi=1.0, dispersion=dispersion, weights=weights)
 
         self.resid_pearson_s = self.resid_pearson / np.sqrt(phi)
         self.resid_pearson_sst = self.resid_pearson_s / np.sqrt(1 - h)
-- 
2.43.0


From 5e4067ce7e0448ba161d074bb0dce088fc7b8321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:55 +0000
Subject: [PATCH 034/199] fix: cross derivative of the weighted negative
 binomial GLM ignores the weights

---
 pystatsm/pyglm2/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index c5c202b..d917c57 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -215,7 +215,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         gw, hw = f.get_ghw(y, mu=mu, phi=phi, dispersion=dispersion, weights=weights)
         H = np.dot((X * hw.reshape(-1, 1)).T, X)
         if isinstance(f, NegativeBinomial) or f.name=="NegativeBinomial":
-            dbdt = -np.dot(X.T, dispersion * (y - mu) /
+            dbdt = -np.dot(X.T, weights * dispersion * (y - mu) /
                            ((1 + dispersion * mu)**2 * f.dlink(mu)))
         else:
             dbdt = np.dot(X.T, gw)
-- 
2.43.0


From a6063ead31a597fce82c1615b3a95e7669b0037d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:55 +0000
Subject: [PATCH 035/199] fix: null model of a weighted GLM ignores the
 weights, and of a negative binomial GLM needs an estimated scale

---
 pystatsm/pyglm2/glm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index d917c57..2963676 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -367,13 +367,15 @@ class GLM(RegressionMixin, LikelihoodModel):
 
         self.llf = self.f.full_loglike(y, mu=mu, phi=phi, dispersion=dispersion, weights=weights)
         if self.f.name == "NegativeBinomial":
-            opt_null = self._optimize(t_init=np.zeros(
-                2), data=(np.ones((self.n, 1)), self.y, 1.0))
+            n_null = 2 if scale_estimator == "NR" else 1
+            opt_null = self._optimize(t_init=np.zeros(n_null),
+                                      data=(np.ones((self.n, 1)), self.y, weights))
             self.lln = self.full_loglike(
                 opt_null.x, data=(np.ones((self.n, 1)), self.y, weights))
         else:
             self.lln = self.f.full_loglike(
-                y, mu=np.ones(mu.shape[0])*y.mean(), phi=phi, weights=weights)
+                y, mu=np.ones(mu.shape[0])*np.average(y, weights=weights*np.ones(self.n)),
+                phi=phi, weights=weights)
 
         k = len(self.params)
         sumstats = {}
-- 
2.43.0


From 387e2051afb948b7a4902682c5a1878fca4f65bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:55 +0000
Subject: [PATCH 036/199] fix: robust covariance and resampling of a GLM use
 the family weights instead of the prior weights

---
 pystatsm/pyglm2/glm.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index 2963676..3f51b08 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -420,7 +420,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         
     def get_robust_res(self, grad_kws=None):
         default_kws = dict(params=self.params,
-                           data=(self.X, self.y, self.f.weights), 
+                           data=(self.X, self.y, self.weights), 
                            scale_estimator=self.scale_estimator,
                            f=self.f)
         grad_kws = handle_default_kws(grad_kws, default_kws)
@@ -471,10 +471,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         return res
     
     def _jacknife(self, method="optimize", verbose=True):
-        if type(self.f.weights) is np.ndarray:
-            weights = self.f.weights
-        else:
-            weights = np.ones(self.n_obs)
+        weights = self.weights * np.ones(self.n_obs)
         if method == "optimize":
             jacknife_samples = np.zeros((self.n_obs, self.n_params))
             ii = np.ones(self.n_obs, dtype=bool)
@@ -504,8 +501,7 @@ class GLM(RegressionMixin, LikelihoodModel):
     def _bootstrap(self, n_boot=1000, verbose=True, return_info=False, rng=None):
         rng = np.random.default_rng() if rng is None else rng 
         n, q = self.n_obs, self.n_params
-        weights = self.f.weights
-        w = weights if type(weights) is np.ndarray else np.ones(n)
+        w = self.weights * np.ones(n)
         X, y = self.X, self.y
         pbar = tqdm.tqdm(total=n_boot, smoothing=1e-6) if verbose else None
         boot_samples = np.zeros((n_boot, q))
-- 
2.43.0


From dc474968c7da882a51e59997cc8daab5dfca33a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:15 +0000
Subject: [PATCH 037/199] fix: prediction intervals of a GLM pass a scale the
 quantile functions do not take

---
 pystatsm/pyglm2/glm.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index 3f51b08..25a17f9 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -463,11 +463,16 @@ class GLM(RegressionMixin, LikelihoodModel):
 
         if predicted_ci:
             predicted_ci_level = symmetric_conf_int(predicted_ci_level)
-            v = f.variance(mu=mu, phi=phi, dispersion=dispersion)
+            if f.name == "NegativeBinomial":
+                ppf_kws = dict(dispersion=dispersion)
+            elif f.name in ["Binomial", "Poisson"]:
+                ppf_kws = {}
+            else:
+                ppf_kws = dict(phi=phi)
             res["predicted_lower_ci"] = f.ppf(
-                1-predicted_ci_level, mu=mu, scale=v)
+                1-predicted_ci_level, mu=mu, **ppf_kws)
             res["predicted_upper_ci"] = f.ppf(
-                predicted_ci_level, mu=mu, scale=v)
+                predicted_ci_level, mu=mu, **ppf_kws)
         return res
     
     def _jacknife(self, method="optimize", verbose=True):
-- 
2.43.0


From 6012466f13010e2bd13234334dee4d71353d132f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:15 +0000
Subject: [PATCH 038/199] fix: first-generation GLM reports an AIC with half
 the penalty and an adjusted R-squared above the unadjusted one

---
 pystatsm/pyglm/glm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/glm.py b/pystatsm/pyglm/glm.py
index 8406d24..7e98a1b 100644
--- a/pystatsm/pyglm/glm.py
+++ b/pystatsm/pyglm/glm.py
@@ -278,7 +278,7 @@ class GLM:
         k = len(params)
         N = self.X.shape[0]
         sumstats = {}
-        sumstats['aic'] = 2*llf + k
+        sumstats['aic'] = 2*llf + 2*k
         sumstats['aicc'] = 2*llf + (2 * k * N) / (N - k - 1)
         sumstats['bic'] = 2*llf + np.log(N)*k
         sumstats['caic'] = 2*llf + k*(np.log(N) + 1.0)
@@ -292,7 +292,7 @@ class GLM:
         LLR = 2*(lln - llf)
         sumstats['PseudoR2_N'] = sumstats['PseudoR2_CS'] / rmax
         sumstats['PseudoR2_MCF'] = 1 - self.LLA / self.LL0
-        sumstats['PseudoR2_MCFA'] = 1 - (self.LLA - k) / self.LL0
+        sumstats['PseudoR2_MCFA'] = 1 - (self.LLA + 2*k) / self.LL0
         sumstats['PseudoR2_MFA'] =  (LLR) / (LLR + N)
         
         self.sumstats = pd.DataFrame(sumstats, index=['Fit Statistic']).T
-- 
2.43.0


From 56bb3e90ad3141d92ee12e89c30b2191e1d0c1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:15 +0000
Subject: [PATCH 039/199] fix: Pearson residuals of a weighted first-generation
 GLM are scaled by the weight instead of its root

---
 pystatsm/pyglm/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/glm.py b/pystatsm/pyglm/glm.py
index 7e98a1b..4278c9c 100644
--- a/pystatsm/pyglm/glm.py
+++ b/pystatsm/pyglm/glm.py
@@ -258,7 +258,7 @@ class GLM:
         self.params = params
         mu = self.predict(params, kind="mean")
         y, mu = self.f.cshape(self.Y, mu)
-        presid = self.f.weights * (y - mu) / np.sqrt(self.f.var_func(mu=mu))
+        presid = self.f.pearson_resid(y, mu=mu)
         self.pearson_resid = presid
         self.mu = mu
         self.y = y
-- 
2.43.0


From 415b3a431086734987d5c8f7b9d11e1ffd0e1855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:15 +0000
Subject: [PATCH 040/199] fix: first-generation GLM Hessian mixes the given
 data with the fitted data

---
 pystatsm/pyglm/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/glm.py b/pystatsm/pyglm/glm.py
index 4278c9c..5134f23 100644
--- a/pystatsm/pyglm/glm.py
+++ b/pystatsm/pyglm/glm.py
@@ -155,7 +155,7 @@ class GLM:
         H = (X.T * w).dot(X)
         if self.scale_handling == 'NR':
             d2t = np.atleast_2d(self.f.d2tau(tau, Y, mu))
-            dbdt = -np.atleast_2d(self.gradient(params)[:-1])
+            dbdt = -np.atleast_2d(self.gradient(params, X=X, Y=Y)[:-1])
             H = np.block([[H, dbdt.T], [dbdt, d2t]])
         return H 
     
-- 
2.43.0


From a630908035b3b5b01afacf208079c1d60ca5c01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:15 +0000
Subject: [PATCH 041/199] fix: adjusted pseudo R-squared values reward
 parameters instead of penalising them

---
 pystatsm/pyglm2/likelihood_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm2/likelihood_model.py b/pystatsm/pyglm2/likelihood_model.py
index 8a08a6b..9033e52 100644
--- a/pystatsm/pyglm2/likelihood_model.py
+++ b/pystatsm/pyglm2/likelihood_model.py
@@ -181,9 +181,9 @@ class LikelihoodModel(metaclass=ABCMeta):
         r2_cs = 1-np.exp(2.0/n_obs * (ll_model - ll_null))
         r2_nk = r2_cs / (1-np.exp(2.0 / n_obs * -ll_null))
         r2_mc = 1.0 - ll_model / ll_null
-        r2_mb = 1.0 - (ll_model - n_params) / ll_null
+        r2_mb = 1.0 - (ll_model + n_params) / ll_null
         r2_es = 1.0 - np.exp((2*ll_null/n_obs) * np.log(1.0-2.0*(ll_null - ll_model) / (2 * ll_null)))
-        r2_ea = 1.0 - np.exp((2*ll_null/n_obs) * np.log((n_params - ll_model) / -ll_null))
+        r2_ea = 1.0 - np.exp((2*ll_null/n_obs) * np.log((n_params + ll_model) / ll_null))
         r2_an = 2.0 * (ll_null - ll_model) / (2.0 * (ll_null - ll_model) + n_obs)
         r2_vz = (2.0 * (ll_null - ll_model) * (2*ll_null+n_obs)) /\
                 (2.0 * (ll_null * (2 * (ll_null - ll_model) + n_obs)))
-- 
2.43.0


From 2c92ff6ee1b395e7598064024a7a728b4b1aa128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:53 +0000
Subject: [PATCH 042/199] fix: first-generation Gamma and inverse Gaussian GLMs
 do not accept a one-dimensional response

---
 pystatsm/pyglm/glm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/pyglm/glm.py b/pystatsm/pyglm/glm.py
index 5134f23..2f09e50 100644
--- a/pystatsm/pyglm/glm.py
+++ b/pystatsm/pyglm/glm.py
@@ -59,6 +59,7 @@ class GLM:
                 mu0 = (self.Y + self.Y.mean()) / 2.0
             else:
                 mu0 = self.Y
+            mu0 = _check_shape(mu0, 2)
             nu, gp, vmu = self.f.link(mu0), self.f.dlink(mu0), self.f.var_func(mu=mu0)
             w = 1 / (vmu[:, None] * gp**2)
             b0 = np.linalg.solve((self.X * w).T.dot(self.X), (self.X * w).T.dot(nu))
-- 
2.43.0


From 33172e99d7f503ab8320c894e6eb7a4fe1d313cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:20 +0000
Subject: [PATCH 043/199] fix: mixed-model tables report one-sided p-values for
 two-sided tests

---
 pystatsm/pylmm/lmm.py    | 2 +-
 pystatsm/pylmm/re_mod.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pylmm/lmm.py b/pystatsm/pylmm/lmm.py
index 8418970..9683148 100644
--- a/pystatsm/pylmm/lmm.py
+++ b/pystatsm/pylmm/lmm.py
@@ -655,7 +655,7 @@ class LMM(object):
         res = np.vstack((self.params, self.se_params)).T
         res = pd.DataFrame(res, index=param_names, columns=['estimate', 'SE'])
         res['t'] = res['estimate'] / res['SE']
-        res['p'] = sp.stats.t(self.X.shape[0]-self.X.shape[1]).sf(np.abs(res['t']))
+        res['p'] = sp.stats.t(self.X.shape[0]-self.X.shape[1]).sf(np.abs(res['t'])) * 2.0
         res['degfree'] = (self.X.shape[0] - self.X.shape[1])*1.0
         if adjusted_pvals:
             L = np.eye(self.X.shape[1])
diff --git a/pystatsm/pylmm/re_mod.py b/pystatsm/pylmm/re_mod.py
index a7686bc..c2646d3 100644
--- a/pystatsm/pylmm/re_mod.py
+++ b/pystatsm/pylmm/re_mod.py
@@ -1144,7 +1144,7 @@ class LMM2(object):
         res = pd.DataFrame(np.vstack([self.params, self.se_params]).T,
                            index=param_names, columns=['estimate', 'SE'])
         res['t'] = res['estimate'] / res['SE']
-        res['p'] = sp.stats.t(n_obs - n_fe).sf(np.abs(res['t']))
+        res['p'] = sp.stats.t(n_obs - n_fe).sf(np.abs(res['t'])) * 2.0
         res['degfree'] = float(n_obs - n_fe)
         self.res = res
         self.sumstats = pd.DataFrame(
-- 
2.43.0


From d98c91623add7a190d43cb334e16c739a6353748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:20 +0000
Subject: [PATCH 044/199] fix: Satterthwaite degrees of freedom of LMM2 are
 half of what they should be

---
 pystatsm/pylmm/re_mod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pylmm/re_mod.py b/pystatsm/pylmm/re_mod.py
index c2646d3..a83c8e2 100644
--- a/pystatsm/pylmm/re_mod.py
+++ b/pystatsm/pylmm/re_mod.py
@@ -1316,7 +1316,7 @@ class LMM2(object):
             f = float(np.sum(t2) / q)
             D = np.array([[float(x.dot(Ji).dot(x)) for Ji in J] for x in P[:q]])
             nu_d = np.array([D[i].dot(Vtheta).dot(D[i]) for i in range(q)])
-            nu_m = u[:q] ** 2 / np.maximum(nu_d, np.finfo(float).tiny)
+            nu_m = 2.0 * u[:q] ** 2 / np.maximum(nu_d, np.finfo(float).tiny)
             keep = nu_m > 2
             E = float(np.sum(nu_m[keep] / (nu_m[keep] - 2.0)))
             nu = float(2.0 * E / (E - q)) if E > q else np.nan
-- 
2.43.0


From 93a8a9845b8b574187d63b7ecae317396914d6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:24 +0000
Subject: [PATCH 045/199] fix: Hessian of a weighted ordinal regression ignores
 part of the weights

---
 pystatsm/pyglm2/clm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm2/clm.py b/pystatsm/pyglm2/clm.py
index 4bb7ea9..dea3cd1 100644
--- a/pystatsm/pyglm2/clm.py
+++ b/pystatsm/pyglm2/clm.py
@@ -261,8 +261,8 @@ class CLM(RegressionMixin, LikelihoodModel):
         
         w3 =  w / prob**2
         dprob = (B1 * d1eta1[:, None]) - (B2 * d1eta2[:, None])
-        T0 = (B1 * (d2eta1 / prob)[:, None]).T.dot(B1)
-        T1 = (B2 * (d2eta2 / prob)[:, None]).T.dot(B2)
+        T0 = (B1 * (w * d2eta1 / prob)[:, None]).T.dot(B1)
+        T1 = (B2 * (w * d2eta2 / prob)[:, None]).T.dot(B2)
         T2 = (dprob * w3[:, None]).T.dot(dprob)
         H = -(T0 - T1 - T2)
         g = -np.dot(dprob[:, :q].T, w / prob)
@@ -298,8 +298,8 @@ class CLM(RegressionMixin, LikelihoodModel):
         
         w3 =  w / prob**2
         dprob = (B1 * d1eta1[:, None]) - (B2 * d1eta2[:, None])
-        T0 = (B1 * (d2eta1 / prob)[:, None]).T.dot(B1)
-        T1 = (B2 * (d2eta2 / prob)[:, None]).T.dot(B2)
+        T0 = (B1 * (w * d2eta1 / prob)[:, None]).T.dot(B1)
+        T1 = (B2 * (w * d2eta2 / prob)[:, None]).T.dot(B2)
         T2 = (dprob * w3[:, None]).T.dot(dprob)
         H = -(T0 - T1 - T2)
         return H
-- 
2.43.0


From ec647b0e2f4105d5cc65e77fbf405ace5baadd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:24 +0000
Subject: [PATCH 046/199] fix: ordinal regression cannot be fitted with
 optimiser options

---
 pystatsm/pyglm2/clm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/clm.py b/pystatsm/pyglm2/clm.py
index dea3cd1..2bb673a 100644
--- a/pystatsm/pyglm2/clm.py
+++ b/pystatsm/pyglm2/clm.py
@@ -333,7 +333,7 @@ class CLM(RegressionMixin, LikelihoodModel):
         return params, opt
     
     def fit(self, method=None, opt_kws=None):
-        self.params, self.opt = self._fit(method, opt_kws)
+        self.params, self.opt = self._fit(opt_kws=opt_kws)
         n, n_params = self.n, len(self.params)
         q = self.q
         self.n_params = n_params
-- 
2.43.0


From 374b94b4fbc9c3d2a29336ce5733da4be37d801b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:24 +0000
Subject: [PATCH 047/199] fix: gradient of the weighted zero-inflated Poisson
 regression ignores part of the weights

---
 pystatsm/pyglm2/zinf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm2/zinf.py b/pystatsm/pyglm2/zinf.py
index 0d45188..ffe5702 100644
--- a/pystatsm/pyglm2/zinf.py
+++ b/pystatsm/pyglm2/zinf.py
@@ -118,7 +118,7 @@ class ZeroInflatedPoisson(RegressionMixin, LikelihoodModel):
         
         # Compute the gradient for the Bernoulli part
         u_bernoulli = np.zeros(len(y))
-        u_bernoulli[ix_zero] = -(w[ix_zero] * h1 - h1 * exlam[ix_zero]) / den
+        u_bernoulli[ix_zero] = -w[ix_zero] * (h1 - h1 * exlam[ix_zero]) / den
         u_bernoulli[~ix_zero] = w[~ix_zero] * zero_link.dinv_link(omega_lp[~ix_zero]) / (1.0 - omega[~ix_zero])
         g_bernoulli = np.dot(Z.T, u_bernoulli)         # FLOPs: n_bernoulli_params * len(y)
         
@@ -163,7 +163,7 @@ class ZeroInflatedPoisson(RegressionMixin, LikelihoodModel):
         t1 = t0 * exlam[ix]
         h1 = zero_link.dinv_link(omega_lp[ix])
         gw1 =  (w[ix] * t1 * link.dinv_link(lambda_lp[ix])) / (t1 + omega[ix]) 
-        gw2 = -(w[ix] * h1 - h1 * exlam[ix]) / (t1 + omega[ix])
+        gw2 = -w[ix] * (h1 - h1 * exlam[ix]) / (t1 + omega[ix])
 
         g[i1, j1] = X[ix] * (gw1)[:, None]
         g[i1, j2] = Z[ix] * (gw2)[:, None]
-- 
2.43.0


From 98ec98c4350118a5589e0dce7966cb8f8d02e0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:24 +0000
Subject: [PATCH 048/199] fix: zero-inflated Poisson log-likelihoods use the
 wrong factorial term

---
 pystatsm/pyglm/zimodels.py | 2 +-
 pystatsm/pyglm2/zinf.py    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyglm/zimodels.py b/pystatsm/pyglm/zimodels.py
index 2da5216..70631d2 100644
--- a/pystatsm/pyglm/zimodels.py
+++ b/pystatsm/pyglm/zimodels.py
@@ -50,7 +50,7 @@ class ZIP:
         self.X0, self.X1 = self.X[self.ix0], self.X[self.ix1]
         self.y0, self.y1 = self.y[self.ix0], self.y[self.ix1]
         self.Z0, self.Z1 = self.Z[self.ix0], self.Z[self.ix1]
-        self._llc = sp.special.gammaln(self.y1)
+        self._llc = sp.special.gammaln(self.y1 + 1.0)
     
     def _check_params(self, params, X):
         b, a = params[:X.shape[1]], params[X.shape[1]:]
diff --git a/pystatsm/pyglm2/zinf.py b/pystatsm/pyglm2/zinf.py
index ffe5702..d76c652 100644
--- a/pystatsm/pyglm2/zinf.py
+++ b/pystatsm/pyglm2/zinf.py
@@ -58,7 +58,7 @@ class ZeroInflatedPoisson(RegressionMixin, LikelihoodModel):
         ll[ix] = -w[ix] * np.log(mu2[ix] + (1 - mu2[ix]) * np.exp(-mu1[ix]))
         ix = ~ix
         ll[ix] = -w[ix] * (np.log(1 - mu2[ix]) + y[ix] * np.log(mu1[ix]) \
-                          - mu1[ix] - sp.special.gammaln(y[ix]))
+                          - mu1[ix] - sp.special.gammaln(y[ix] + 1.0))
         return ll
     
     def loglike_i(self, params, data=None, link=None, zero_link=None):
@@ -79,7 +79,7 @@ class ZeroInflatedPoisson(RegressionMixin, LikelihoodModel):
         ix = ~ix
         ll = ll + np.sum(-w[ix] * (np.log(1 - omega[ix]) \
                          + y[ix] * np.log(lambd[ix]) - lambd[ix]\
-                         - sp.special.gammaln(y[ix])))
+                         - sp.special.gammaln(y[ix] + 1.0)))
 
         return ll
     
-- 
2.43.0


From 1fa55744f59919dbe5d01eddd67f11eef59ad9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:24 +0000
Subject: [PATCH 049/199] fix: zero-inflated negative binomial regression
 cannot be constructed

---
 pystatsm/pyglm2/zinf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/zinf.py b/pystatsm/pyglm2/zinf.py
index d76c652..9ffc41c 100644
--- a/pystatsm/pyglm2/zinf.py
+++ b/pystatsm/pyglm2/zinf.py
@@ -17,7 +17,7 @@ from .likelihood_model import LikelihoodModel
 from .links import (CloglogLink, IdentityLink, Link, LogitLink, LogLink, #analysis:ignore
                     LogComplementLink, NegativeBinomialLink, ProbitLink,
                     PowerLink)
-from .families import NegativeBinomial
+from .families import ExponentialFamily, NegativeBinomial
 from ..utilities.func_utils import symmetric_conf_int, handle_default_kws
 
 from ..utilities.linalg_operations import wdiag_outer_prod, wls_qr, nwls   
-- 
2.43.0


From a7523020b5037f245f4c0d9bd4310385ddf9cd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:55 +0000
Subject: [PATCH 050/199] fix: prediction intervals of the zero-inflated
 negative binomial use the variance as the dispersion

---
 pystatsm/pyglm2/zinf.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyglm2/zinf.py b/pystatsm/pyglm2/zinf.py
index 9ffc41c..01f99a4 100644
--- a/pystatsm/pyglm2/zinf.py
+++ b/pystatsm/pyglm2/zinf.py
@@ -1089,11 +1089,10 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
                               ]).T
         if predicted_ci:
              predicted_ci_level = symmetric_conf_int(predicted_ci_level)
-             v = f.variance(mu=mu1, phi=1.0, dispersion=k)
              res["predicted_lower_ci"] = f.ppf(
-                 1-predicted_ci_level, mu=mu1, dispersion=v)
+                 1-predicted_ci_level, mu=mu1, dispersion=k)
              res["predicted_upper_ci"] = f.ppf(
-                 predicted_ci_level, mu=mu1, dispersion=v)
+                 predicted_ci_level, mu=mu1, dispersion=k)
         return res  
 
     def predict(self, X=None, Z=None, params=None, params_cov=None, **kws):
-- 
2.43.0


From 54c348aff0182aa5b224148c0a7f43cdaa9c6d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:55 +0000
Subject: [PATCH 051/199] fix: ordering constraints of the ordinal regression
 all refer to the last two thresholds

---
 pystatsm/pyglm/clm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/clm.py b/pystatsm/pyglm/clm.py
index 74cb009..afcbe55 100644
--- a/pystatsm/pyglm/clm.py
+++ b/pystatsm/pyglm/clm.py
@@ -31,7 +31,7 @@ class CLM:
         self.W = np.ones(self.X.shape[0])
         self.constraints = [dict(zip(
                 ['type', 'fun'], 
-                ['ineq', lambda params: params[i+1]-params[i]])) 
+                ['ineq', lambda params, i=i: params[i+1]-params[i]])) 
                 for i in range(self.n_cats-2)]
         self.A1, self.A2 = self.Y[:, :-1], self.Y[:, 1:]
         self.o1, self.o2 = self.Y[:, -1]*30e1, self.Y[:, 0]*-10e5
-- 
2.43.0


From 39ff6099430efae74e32d3489ffdf213cbd65646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:55 +0000
Subject: [PATCH 052/199] fix: likelihood-ratio test of the ordinal regression
 halves the statistic and adjusted R-squared rewards parameters

---
 pystatsm/pyglm/clm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/clm.py b/pystatsm/pyglm/clm.py
index afcbe55..6c77778 100644
--- a/pystatsm/pyglm/clm.py
+++ b/pystatsm/pyglm/clm.py
@@ -156,13 +156,13 @@ class CLM:
         degfree_r = len(paramsr)
         degfree_llr = degfree_f - degfree_r
         chi2_dist = sp.stats.chi2(degfree_llr)
-        LLR = LL0 - LLf
+        LLR = 2.0 * (LL0 - LLf)
         LLR_pvalue = chi2_dist.sf(LLR)
         n, p = self.X.shape
         rmax =  (1 - np.exp(-2.0/n * (LL0)))
         r2_coxsnell = 1 - np.exp(2.0/n*(LLf - LL0))
         r2_mcfadden = 1 - LLf / LL0
-        r2_mcfadden_adj = 1 - (LLf-p) / LL0
+        r2_mcfadden_adj = 1 - (LLf+p) / LL0
         r2_nagelkerke = r2_coxsnell / rmax
         
         statistic = dict(LLR=LLR, 
-- 
2.43.0


From 2993db11b3e469336f0e8e09002492c46bc57fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:55 +0000
Subject: [PATCH 053/199] fix: zero-inflated Poisson table uses the wrong
 degrees of freedom and fails for data frames

---
 pystatsm/pyglm/zimodels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/zimodels.py b/pystatsm/pyglm/zimodels.py
index 70631d2..4d339ed 100644
--- a/pystatsm/pyglm/zimodels.py
+++ b/pystatsm/pyglm/zimodels.py
@@ -175,11 +175,11 @@ class ZIP:
         self.params = self.opt.x
         self.se_params = np.diag(np.linalg.inv(self.hessian(self.params)))**0.5
         t = self.params / self.se_params
-        p = sp.stats.t(self.n_params).sf(np.abs(t))*2.0
+        p = sp.stats.t(self.n_obs - self.n_params).sf(np.abs(t))*2.0
         res = pd.DataFrame(np.vstack((self.params, self.se_params, 
                                       t, p)).T)
         res.columns = ['param', 'SE', 't', 'p']
-        res.index = self.xcols+self.zcols
+        res.index = list(self.xcols)+list(self.zcols)
         self.res = res
         self.aic = -2.0 * (self.ll_model - self.n_params)
         self.bic = self.n_params * np.log(self.n_obs) - 2.0 * self.ll_model
-- 
2.43.0


From c9200236c7f8bb2cc5f0e916e133b5a51c9070ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:55 +0000
Subject: [PATCH 054/199] fix: AICc and pseudo R-squared values of the
 zero-inflated Poisson do not follow their definitions

---
 pystatsm/pyglm/zimodels.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm/zimodels.py b/pystatsm/pyglm/zimodels.py
index 4d339ed..9ff16b4 100644
--- a/pystatsm/pyglm/zimodels.py
+++ b/pystatsm/pyglm/zimodels.py
@@ -183,17 +183,17 @@ class ZIP:
         self.res = res
         self.aic = -2.0 * (self.ll_model - self.n_params)
         self.bic = self.n_params * np.log(self.n_obs) - 2.0 * self.ll_model
-        self.aicc = self.aic + (self.n_params**2 + self.n_params)/(self.n_obs-self.n_params-1.0)
+        self.aicc = self.aic + 2.0 * (self.n_params**2 + self.n_params)/(self.n_obs-self.n_params-1.0)
         self.yhat, self.yhvar = self.predict(self.params)
         self.resids = self.y - self.yhat
         self.pearson_resids = self.resids / np.sqrt(self.yhvar)
         sumstats = dict(AIC=self.aic, AICc=self.aicc, BIC=self.bic, LLR=self.ll_ratio,
                         LLRp=self.ll_rpval)
-        sumstats['PseudoR2_CS'] = 1 - np.exp(1.0/ self.n_obs * (self.ll_null - self.ll_model))
-        rmax = 1-np.exp(1.0 / self.n_obs *(self.ll_null))
+        sumstats['PseudoR2_CS'] = 1 - np.exp(2.0/ self.n_obs * (self.ll_null - self.ll_model))
+        rmax = 1-np.exp(2.0 / self.n_obs *(self.ll_null))
         sumstats['PseudoR2_N'] = sumstats['PseudoR2_CS'] / rmax
         sumstats['PseudoR2_MCF'] =  1.0 - self.ll_model / self.ll_null
-        sumstats['PseudoR2_MCFA'] = 1.0 - (-self.ll_model - self.n_params) / -self.ll_null
+        sumstats['PseudoR2_MCFA'] = 1.0 - (self.ll_model - self.n_params) / self.ll_null
         sumstats['PseudoR2_MFA'] = (self.ll_ratio) / (self.ll_ratio + self.n_obs)
         self.sumstats = pd.DataFrame(sumstats, index=['Fit Statistic']).T
 
-- 
2.43.0


From c37d0e41def02bc21182c5f3acd75223bc73a4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:55 +0000
Subject: [PATCH 055/199] fix: information criteria and pseudo R-squared values
 of the beta regression use the log-likelihood with the wrong sign

---
 pystatsm/pyglm/betareg.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pystatsm/pyglm/betareg.py b/pystatsm/pyglm/betareg.py
index e2f043c..a0b19e5 100644
--- a/pystatsm/pyglm/betareg.py
+++ b/pystatsm/pyglm/betareg.py
@@ -167,18 +167,18 @@ class BetaReg:
         k = len(self.theta)
         N = self.n_obs
         sumstats = {}
-        sumstats['aic'] = -2.0*self.llf + k
-        sumstats['aicc'] = -2*self.llf + (2 * k * N) / (N - k - 1)
-        sumstats['bic'] = -2*self.llf + np.log(N)*k
-        sumstats['caic'] = -2*self.llf + k*(np.log(N) + 1.0)
+        sumstats['aic'] = 2.0*self.llf + 2.0*k
+        sumstats['aicc'] = 2.0*self.llf + (2 * k * N) / (N - k - 1)
+        sumstats['bic'] = 2.0*self.llf + np.log(N)*k
+        sumstats['caic'] = 2.0*self.llf + k*(np.log(N) + 1.0)
         sumstats['LLR'] = self.llr
 
         sumstats['PseudoR2_CS'] = 1 - np.exp(2.0/N * (self.llf - self.lln))
-        rmax = 1-np.exp(2.0 / N *self.lln)
+        rmax = 1-np.exp(-2.0 / N *self.lln)
         sumstats['PseudoR2_N'] = sumstats['PseudoR2_CS'] / rmax
-        sumstats['PseudoR2_MCF'] = 1 - self.lln / self.llf
-        sumstats['PseudoR2_MCFA'] = 1 - (self.lln - k) / (self.llf)
-        sumstats['PseudoR2_MFA'] = 1 - (self.llr) / (self.llr + N)
+        sumstats['PseudoR2_MCF'] = 1 - self.llf / self.lln
+        sumstats['PseudoR2_MCFA'] = 1 - (self.llf + k) / (self.lln)
+        sumstats['PseudoR2_MFA'] = (self.llr) / (self.llr + N)
         self.sumstats = sumstats
     
     def predict(self, theta=None, X=None, Z=None):
-- 
2.43.0


From 692753e095ed76a249a3d60d7506ed5f83b084be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:43 +0000
Subject: [PATCH 056/199] fix: prior weights of the zero-inflated negative
 binomial enter likelihood, scores and Hessian differently

---
 pystatsm/pyglm2/zinf.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm2/zinf.py b/pystatsm/pyglm2/zinf.py
index 01f99a4..597615a 100644
--- a/pystatsm/pyglm2/zinf.py
+++ b/pystatsm/pyglm2/zinf.py
@@ -561,6 +561,7 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
     @staticmethod
     def _loglike_i(params, data, link, f):
         X, Z, y, w = data
+        w, wts = np.ones_like(w), w
         coefs, k = params[:-1], np.exp(params[-1])
         eta1, eta2 = X.dot(coefs[:X.shape[1]]), Z.dot(coefs[X.shape[1]:])
         mu1, mu2 = f.inv_link(eta1), link.inv_link(eta2)
@@ -569,7 +570,7 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
         ll[ix] = - np.log(mu2[ix] + (1-mu2[ix]) * (1 + k / w[ix] * mu1[ix])**(-w[ix] / k))
         ix = ~ix
         ll[ix] = f._loglike(y[ix], weights=w[ix], mu=mu1[ix], phi=1.0, dispersion=k) -np.log(1.0 - mu2[ix])  
-        return ll
+        return wts * ll
     
     def loglike_i(self, params, data=None, link=None, f=None):
         data = self.model_data if data is None else data 
@@ -581,6 +582,7 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
     @staticmethod
     def _loglike(params, data, link, f):
       X, Z, y, w = data
+      w, wts = np.ones_like(w), w
       coefs, k = params[:-1], np.exp(params[-1])
       eta1, eta2 = X.dot(coefs[:X.shape[1]]), Z.dot(coefs[X.shape[1]:])
       mu1, mu2 = f.inv_link(eta1), link.inv_link(eta2)
@@ -589,7 +591,7 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
       ll[ix] = - np.log(mu2[ix] + (1-mu2[ix]) * (1 + k / w[ix] * mu1[ix])**(-w[ix] / k))
       ix = ~ix
       ll[ix] = f._full_loglike(y[ix], weights=w[ix], mu=mu1[ix], phi=1.0, dispersion=k) -np.log(1.0 - mu2[ix]) 
-      return np.sum(ll)
+      return np.sum(wts * ll)
     
     def loglike(self, params, data=None, link=None, f=None):
         data = self.model_data if data is None else data 
@@ -602,6 +604,7 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
     @staticmethod
     def _gradient(params, data, link, f):
         X, Z, y, w = data
+        w, wts = np.ones_like(w), w
         p, q = X.shape[1], Z.shape[1]
         coefs, k = params[:-1], np.exp(params[-1])
         # Compute lambda_lp, omega_lp, lambd, and omega
@@ -647,6 +650,7 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
         d1[i] = link.dinv_link(eta2[i]) / (x5 - 1.0)
         d2[i] = -x4 * x6 * (-x2 * x8 + x3 * x7 + x3 * x9)
                                
+        d0, d1, d2 = wts * d0, wts * d1, wts * d2
         g1 = np.dot(X.T, d0)
         g2 = np.dot(Z.T, d1)
         g3 = np.sum(d2)
@@ -666,6 +670,7 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
     @staticmethod
     def _gradient_i(params, data, link, f):
         X, Z, y, w = data
+        w, wts = np.ones_like(w), w
         p, q = X.shape[1], Z.shape[1]
         coefs, k = params[:-1], np.exp(params[-1])
         # Compute lambda_lp, omega_lp, lambd, and omega
@@ -741,6 +746,7 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
         d2[i] += w[i]*x4*sp.special.polygamma(0, x6) + x0*x2*x3*x6*x8 - \
                 x5*np.log(x7) - x5*sp.special.polygamma(0, x5) - y[i]
                                        
+        d0, d1, d2 = wts * d0, wts * d1, wts * d2
         g1 = d0.reshape(-1, 1) * X
         g2 = d1.reshape(-1, 1) * Z
         g3 = d2.reshape(-1, 1)
@@ -759,6 +765,7 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
     @staticmethod
     def _hessian_i(params, data, link,f):
         X, Z, y, w = data
+        w, wts = np.ones_like(w), w
         p, q = X.shape[1], Z.shape[1]
         coefs, k = params[:-1], np.exp(params[-1])
         eta1 = X.dot(coefs[:p])  
@@ -837,7 +844,7 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
             - x19 * sp.special.polygamma(1, x8) + x7 * np.log(x10) +\
                 x7 * sp.special.polygamma(0, x7) - x7 * sp.special.polygamma(0, x8)
                 
-        h = h0 + h1        
+        h = (h0 + h1) * wts        
       
         h00 = np.einsum("ij,ik->ijk", X*h[[0]].T, X)
         h10 = np.einsum("ij,ik->ijk", Z*h[[1]].T, X)
@@ -869,6 +876,7 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
     @staticmethod
     def _hessian(params, data, link,f):
         X, Z, y, w = data
+        w, wts = np.ones_like(w), w
         p, q = X.shape[1], Z.shape[1]
         coefs, k = params[:-1], np.exp(params[-1])
         eta1 = X.dot(coefs[:p])  
@@ -947,7 +955,7 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
             - x19 * sp.special.polygamma(1, x8) + x7 * np.log(x10) +\
                 x7 * sp.special.polygamma(0, x7) - x7 * sp.special.polygamma(0, x8)
                 
-        h = h0 + h1        
+        h = (h0 + h1) * wts        
       
         h00 = np.einsum("ij,ik->jk", X*h[[0]].T, X)
         h10 = np.einsum("ij,ik->jk", Z*h[[1]].T, X)
-- 
2.43.0


From 7bef90de6ef911a2e30a9836722ad6453f4cd323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:30 +0000
Subject: [PATCH 057/199] fix: compare absolute permutation statistics in
 OLS.permutation_test with stored samples

---
 pystatsm/pyglm/ols.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/ols.py b/pystatsm/pyglm/ols.py
index cb34e74..7560604 100644
--- a/pystatsm/pyglm/ols.py
+++ b/pystatsm/pyglm/ols.py
@@ -218,8 +218,8 @@ class OLS:
         L, Linv, X, y = self.L, self.Linv, self.X, self.y
         if store_samples:
             t_samples = self._permutation_test_store(n_perms, L, Linv, X, y, verbose)
-            abst = t_samples
-            p_values_fwer = (abst.max(axis=1)>np.abs(self.tvalues)).sum(axis=0)/n_perms
+            abst = np.abs(t_samples)
+            p_values_fwer = (abst.max(axis=1, keepdims=True)>np.abs(self.tvalues)).sum(axis=0)/n_perms
             p_values = (abst > np.abs(self.tvalues)).sum(axis=0) / n_perms
         else:
             p_values_fwer, p_values =  self._permutation_test(n_perms, L, Linv, X, y, verbose)
-- 
2.43.0


From 125c03814d947df9929fb4f5cc83a18a0e6990dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:30 +0000
Subject: [PATCH 058/199] fix: use consistent degrees of freedom and leverages
 in OLS.get_influence

---
 pystatsm/pyglm/ols.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/pystatsm/pyglm/ols.py b/pystatsm/pyglm/ols.py
index 7560604..81921ef 100644
--- a/pystatsm/pyglm/ols.py
+++ b/pystatsm/pyglm/ols.py
@@ -324,30 +324,24 @@ class OLS:
         h = self.h if h is None else h
         r = self.resids if r is None else r
         ssr = np.sum(r**2)
-        dfe = self.n - self.p - 1.0
-        msr = ssr / dfe
         n = self.n
         p = self.p
-        s = np.sqrt(msr)
-        s_i = np.sqrt((ssr-r**2) / (dfe-1))
+        s = np.sqrt(ssr / (n - p))
+        s_i = np.sqrt((ssr - r**2 / (1.0 - h)) / (n - p - 1.0))
         
         r_students = r / (s_i * np.sqrt(1.0 - h))
         dfbeta = r / (1.0 - h) * self.W
-        h_tilde = 1.0 / n + h
 
-        cov_ratio = (s_i / s)**(2 * p) * 1.0 / (1.0 - h_tilde)
+        cov_ratio = (s_i / s)**(2 * p) * 1.0 / (1.0 - h)
 
-        
-        d_residuals = r / (1.0 - h_tilde)
-        
-        s_star_i = 1/np.sqrt(n-p-1)*np.sqrt((n-p)*s**2/(1-h_tilde)-d_residuals**2)
-        s_i = s_star_i * np.sqrt(1.0 - h_tilde)
+        d_residuals = r / (1.0 - h)
+        s_star_i = s_i / np.sqrt(1.0 - h)
         
         studentized_d_residuals = d_residuals / s_star_i
                 
         dfits = r * np.sqrt(h) / (s_i * (1.0 -h))
         
-        cooks_distance = d_residuals**2 * h_tilde / (s**2 * (p + 1))
+        cooks_distance = d_residuals**2 * h / (s**2 * p)
         
         res = dict(r_students=r_students, cov_ratio=cov_ratio,
                    s_i=s_i, studentized_d_residuals=studentized_d_residuals,
-- 
2.43.0


From 59e0398d3d9753ae2e9be01e162a41ab8feaad48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:30 +0000
Subject: [PATCH 059/199] fix: compute the t statistics used by the second
 generation OLS permutation test

---
 pystatsm/pyglm2/ols.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm2/ols.py b/pystatsm/pyglm2/ols.py
index f0026cc..3623d20 100644
--- a/pystatsm/pyglm2/ols.py
+++ b/pystatsm/pyglm2/ols.py
@@ -503,7 +503,8 @@ class OLS(RegressionMixin, LikelihoodModel):
         pbar = tqdm.tqdm(total=n_perms, smoothing=0.001) if verbose else None
         p_values = np.zeros(len(vars_of_interest))
         p_values_fwer = np.zeros(len(vars_of_interest))
-        abst = np.abs(self.tvalues[vars_of_interest])
+        tvalues = self.params[:-1] / self.scale_unbiased / np.sqrt(np.diag(self.Ginv))
+        abst = np.abs(tvalues[vars_of_interest])
         
         n, p = self.n, self.p
         ixc = np.setdiff1d(np.arange(p), vars_of_interest)
@@ -525,7 +526,7 @@ class OLS(RegressionMixin, LikelihoodModel):
             z = u + r[rng.permutation(n)]
             c = X.T.dot(z)
             w = sp.linalg.solve_triangular(L, c, lower=True)
-            s2 =  (y.T.dot(y) - w.T.dot(w)) / (n - p)
+            s2 =  (z.T.dot(z) - w.T.dot(w)) / (n - p)
             beta = sp.linalg.solve_triangular(L.T, w, lower=False)
             beta_se = np.sqrt(s2 * Ginv)           
             abstp = np.abs(beta / beta_se)[vars_of_interest]
-- 
2.43.0


From dae35e57cbbe3794514471d1d1aeb885911d5d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:30 +0000
Subject: [PATCH 060/199] fix: avoid dividing by zero in the Hotelling-Lawley F
 approximation

---
 pystatsm/pyglm2/mvols.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyglm2/mvols.py b/pystatsm/pyglm2/mvols.py
index 5c78655..9154598 100644
--- a/pystatsm/pyglm2/mvols.py
+++ b/pystatsm/pyglm2/mvols.py
@@ -141,10 +141,10 @@ def _pillai_ftest(pillai, s, m_par, n_par):
 def _hotelling_ftest(hotelling, s, m_par, n_par, n_y, df_h):
     """F approximation for the Hotelling-Lawley trace."""
     if n_par > 0:
-        b = (n_y + 2.0 * n_par) * (df_h + 2.0 * n_par)
-        b = b / (2.0 * (2.0 * n_par + 1.0) * (n_par - 1.0))
+        b_num = (n_y + 2.0 * n_par) * (df_h + 2.0 * n_par)
+        b_den = 2.0 * (2.0 * n_par + 1.0) * (n_par - 1.0)
         num_df = n_y * df_h
-        den_df = 4.0 + (n_y * df_h + 2.0) / (b - 1.0)
+        den_df = 4.0 + (n_y * df_h + 2.0) * b_den / (b_num - b_den)
         c = (den_df - 2.0) / (2.0 * n_par)
         f = den_df / num_df * hotelling / c
     else:
-- 
2.43.0


From 76b9a3ec5436ce853ff630e6e45c44ed3845cce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:30 +0000
Subject: [PATCH 061/199] fix: correct the sign of the BCa bias correction

---
 pystatsm/utilities/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/output.py b/pystatsm/utilities/output.py
index 50f6938..b99830e 100644
--- a/pystatsm/utilities/output.py
+++ b/pystatsm/utilities/output.py
@@ -86,7 +86,7 @@ def compute_bias_corrected_bootstrap_intervals(params, jack_samples, boot_sample
     jack_samples = np.asarray(jack_samples)
     boot_samples = np.asarray(boot_samples)
 
-    z0 = sp.special.ndtri(np.mean(params < boot_samples, axis=0)).reshape(-1, 1)
+    z0 = sp.special.ndtri(np.mean(boot_samples < params, axis=0)).reshape(-1, 1)
     jack_mean = np.mean(jack_samples, axis=0)
     d = jack_mean - jack_samples
     d2 = d * d
-- 
2.43.0


From 0c38f1066a50eeba83c43ff806739adc8c1d95df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:11 +0000
Subject: [PATCH 062/199] fix: return an infinite AICc instead of dividing by
 zero

---
 pystatsm/pyglm2/likelihood_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/likelihood_model.py b/pystatsm/pyglm2/likelihood_model.py
index 9033e52..cad7b44 100644
--- a/pystatsm/pyglm2/likelihood_model.py
+++ b/pystatsm/pyglm2/likelihood_model.py
@@ -146,7 +146,8 @@ class LikelihoodModel(metaclass=ABCMeta):
         logn = np.log(n_obs)
         tll = 2 * ll
         aic = tll + 2 * n_params
-        aicc = tll + 2 * n_params * n_obs / (n_obs - n_params - 1)
+        aicc_dof = n_obs - n_params - 1
+        aicc = tll + 2 * n_params * n_obs / aicc_dof if aicc_dof != 0 else np.inf
         bic = tll + n_params * logn
         caic = tll + n_params * (logn + 1)
         return aic, aicc, bic, caic
-- 
2.43.0


From 87a45c09ae8fc030b148d89ec80ac34118a5d410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:20 +0000
Subject: [PATCH 063/199] fix: bind each equality constraint to its own
 parameter

---
 pystatsm/pyglm2/likelihood_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyglm2/likelihood_model.py b/pystatsm/pyglm2/likelihood_model.py
index cad7b44..2fd7de4 100644
--- a/pystatsm/pyglm2/likelihood_model.py
+++ b/pystatsm/pyglm2/likelihood_model.py
@@ -234,9 +234,9 @@ class LikelihoodModel(metaclass=ABCMeta):
         """
         constraints = []
         if np.asarray(fixed_indices).dtype==bool:
-            fixed_indices = np.where(fixed_indices)
+            fixed_indices = np.where(fixed_indices)[0]
         for i, xi in list(zip(fixed_indices, fixed_values)):
-            constraints.append({"type":"eq", "fun":lambda x: x[i] - xi})
+            constraints.append({"type":"eq", "fun":lambda x, i=i, xi=xi: x[i] - xi})
         return constraints
 
     @staticmethod
@@ -278,7 +278,7 @@ class LikelihoodModel(metaclass=ABCMeta):
         par, ind = np.atleast_1d(par), np.atleast_1d(ind)
         constraints = []
         for i, xi in list(zip(ind, par)):
-            constraints.append({"type":"eq", "fun":lambda x: x[i] - xi})
+            constraints.append({"type":"eq", "fun":lambda x, i=i, xi=xi: x[i] - xi})
         default_minimize_kws = dict(fun=loglike, jac=grad, hess=hess,
                                     method="trust-constr",
                                     constraints=constraints)
-- 
2.43.0


From 215bc542df61f27eb89c775ae15c9ebb57e13137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:00 +0000
Subject: [PATCH 064/199] fix: keep each endpoint of least squares profile
 intervals on its own side

---
 pystatsm/pyglm2/likelihood_model.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm2/likelihood_model.py b/pystatsm/pyglm2/likelihood_model.py
index 2fd7de4..37da45e 100644
--- a/pystatsm/pyglm2/likelihood_model.py
+++ b/pystatsm/pyglm2/likelihood_model.py
@@ -398,10 +398,12 @@ class LikelihoodModel(metaclass=ABCMeta):
         """
         # TODO: Try implement Venzon and Moolgavkar Method
         if method == "lstq":
-            left=sp.optimize.minimize(lambda x:(profile_loglike(x)-lli)**2,
-                                        par-2 * par_se)
-            right=sp.optimize.minimize(lambda x:(profile_loglike(x)-lli)**2,
-                                         par+2 * par_se)
+            # optimize the log distance so that each endpoint stays on its side
+            left=sp.optimize.minimize(lambda x:(profile_loglike(par-np.exp(x))-lli)**2,
+                                        np.log(2 * par_se))
+            right=sp.optimize.minimize(lambda x:(profile_loglike(par+np.exp(x))-lli)**2,
+                                         np.log(2 * par_se))
+            left.x, right.x = par - np.exp(left.x), par + np.exp(right.x)
             if return_info:
                 left, right = left, right
             else:
-- 
2.43.0


From 9934019dd8a577e3fba0b3e7a4a84dfc6bfa96a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:08 +0000
Subject: [PATCH 065/199] fix: let screened and dropped elastic net variables
 re-enter when they violate optimality

---
 pystatsm/pyglmnet/glmen2.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pystatsm/pyglmnet/glmen2.py b/pystatsm/pyglmnet/glmen2.py
index 133224f..6123de1 100644
--- a/pystatsm/pyglmnet/glmen2.py
+++ b/pystatsm/pyglmnet/glmen2.py
@@ -236,18 +236,21 @@ class ElasticNetGLM(object):
             z = eta + (y - mu) / dmu_deta
             v = wobs * dmu_deta**2 / var_mu
             r = z - eta
-            beta_new, i, xv = weighted_elnet(beta.copy(), r, v, X, Xsq, active, index,
+            beta_new, i, xv = weighted_elnet(beta.copy(), r, v, X, Xsq, active.copy(), index,
                                              lam, lam0, self.alpha, **inner_kws)
             eta_new = overflow_adjust(beta_new[0] + X.dot(beta_new[1:]), lower, upper)
             mu_new = self.family.inv_link(eta_new)
             f_new = self._obj_func_mu(mu_new, beta_new, lam, X, y, wobs)
             f_hist.append([f_new, i])
             fdiff = np.abs(f_new - f_curr) / (0.1 + np.abs(f_new))
+            eta, mu, beta, f_curr = eta_new, mu_new, beta_new, f_new
             if fdiff<ftol:
-                beta = beta_new
-                break
-            else:
-                eta, mu, beta, f_curr = eta_new, mu_new, beta_new, f_new
+                # screened variables must satisfy the optimality conditions
+                g = np.abs(np.dot(X.T, wobs * (y - mu)))
+                violations = ~active & (g > lam * self.alpha)
+                if not np.any(violations):
+                    break
+                active[violations] = True
         return beta, f_hist#, np.vstack(beta_hist)
     
     def _glm_elnet_path(self, X, Xsq, y, wobs, lambdas, progress_bar=None, 
-- 
2.43.0


From 1ce9cb72ab8c26dd799377675401ccb25aa20781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:08 +0000
Subject: [PATCH 066/199] fix: let Gaussian elastic net variables that were set
 to zero re-enter the active set

---
 pystatsm/pyglmnet/gaussian_eln.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyglmnet/gaussian_eln.py b/pystatsm/pyglmnet/gaussian_eln.py
index 73076b6..6a4a2bd 100644
--- a/pystatsm/pyglmnet/gaussian_eln.py
+++ b/pystatsm/pyglmnet/gaussian_eln.py
@@ -85,12 +85,14 @@ def eln_cd(X, y, Xsq, alpha, lambda_, b, active, n_iters=1000, dtol=1e-5, btol=1
         msr = np.sum(r**2)/ n2
         pen = elnet_penalty(b, alpha, lambda_)
         f_new = msr + pen
-        if (f_old - f_new)<dtol:
+        violations = (~active) & (np.abs(np.dot(X.T, r)) > la * (1.0 + 1e-9))
+        if (f_old - f_new)<dtol and not np.any(violations):
             fvals[i+1] = msr, pen, f_new
             break
         else:
             f_old = f_new
             beta_hat = b
+            active[violations] = True
     return beta_hat, fvals, active, i
 
 
-- 
2.43.0


From 667e84ccd87deb4a4d5ea7e9c224dffffb500e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:08 +0000
Subject: [PATCH 067/199] fix: use the sign of the coefficients in the elastic
 net gradient

---
 pystatsm/pyglmnet/gaussian_eln.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglmnet/gaussian_eln.py b/pystatsm/pyglmnet/gaussian_eln.py
index 6a4a2bd..ce142fd 100644
--- a/pystatsm/pyglmnet/gaussian_eln.py
+++ b/pystatsm/pyglmnet/gaussian_eln.py
@@ -113,7 +113,7 @@ def elnet(X, y, lambda_, alpha=0.99, b=None, active=None, n_iters=1000, dtol=1e-
 def elnet_grad(b, X, y, lambda_, alpha):
     n = y.shape[0]
     r = y - X.dot(b)
-    g = -1.0 / n * X.T.dot(r) + lambda_ * (1 - alpha) * b + lambda_*alpha
+    g = -1.0 / n * X.T.dot(r) + lambda_ * (1 - alpha) * b + lambda_*alpha*np.sign(b)
     return g
   
 
-- 
2.43.0


From 3e0c32371782fdfa28c8ac66b4910939f88bddc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:08 +0000
Subject: [PATCH 068/199] fix: drop binomial elastic net variables only when no
 re-entrance is requested

---
 pystatsm/pyglmnet/binomial_eln.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglmnet/binomial_eln.py b/pystatsm/pyglmnet/binomial_eln.py
index 926698e..ce0348d 100644
--- a/pystatsm/pyglmnet/binomial_eln.py
+++ b/pystatsm/pyglmnet/binomial_eln.py
@@ -272,7 +272,7 @@ def _binom_glmnet(b, X, Xsq, y, la, dla, acs, ix, n, n_iters=2000,
         r = y - mu
         fvals[i] = -2.0*np.sum(y * np.log(mu) + np.log(muconj) * yconj)/n
         b_new, b0, acs_new, xvd = binom_glm_cd(b.copy(), b0, X, Xsq, r, w, xv, la, dla, 
-                                               acs, ix, n)
+                                               acs.copy(), ix, n)
         
         if np.max(xvd) < btol:
             break
-- 
2.43.0


From a7693be5a2654258046ca2356850641d58d0c2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:08 +0000
Subject: [PATCH 069/199] fix: unpack the elastic net solver results in the
 order they are returned

---
 pystatsm/pyglmnet/glmen.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyglmnet/glmen.py b/pystatsm/pyglmnet/glmen.py
index 70b90ca..ca590ac 100644
--- a/pystatsm/pyglmnet/glmen.py
+++ b/pystatsm/pyglmnet/glmen.py
@@ -61,7 +61,10 @@ class GLMEN:
     def fit(self, lambda_, alpha=0.99, X=None, y=None, intercept=True, n_iters=1000, **kws):
         X = self.X if X is None else X
         y = self.y if y is None else y
-        beta, active, fvals, _ = self._fit(X, y, lambda_, alpha, **kws)
+        if self.family == "gaussian":
+            beta, fvals, active, _ = self._fit(X, y, lambda_, alpha, **kws)
+        else:
+            beta, self.b0, active, fvals, _ = self._fit(X, y, lambda_, alpha, **kws)
         self.beta = beta 
         self.active = active
         self.fvals = fvals
-- 
2.43.0


From 90b870cace023bd8266bcea8297abe7449c960b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:08 +0000
Subject: [PATCH 070/199] fix: keep each solution of the binomial elastic net
 path with its own penalty

---
 pystatsm/pyglmnet/binom_eln2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglmnet/binom_eln2.py b/pystatsm/pyglmnet/binom_eln2.py
index 20b3696..314a418 100644
--- a/pystatsm/pyglmnet/binom_eln2.py
+++ b/pystatsm/pyglmnet/binom_eln2.py
@@ -218,7 +218,7 @@ def binom_elnet_path(X, y, weights, alpha, lambdas=None, cd_kws=None, progress_b
     pbar = tqdm.tqdm(total=n_lambdas, smoothing=0.0001) if progress_bar is None else progress_bar
     for i, lam in enumerate(lambdas):
         active = np.ones(n_var, dtype=bool)
-        beta, fval, _, _ = _binom_elnet_cd(lam, betas[i], active, **cd_kws)
+        beta, fval, _, _ = _binom_elnet_cd(lam, betas[i].copy(), active, **cd_kws)
         betas[i+1] = beta
         fvals_hist.append(fval)
         fvals[i+1] = fval[-1]
-- 
2.43.0


From 0d97f8cf11cd136bdf2140ed30dcd14c89d885e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:08 +0000
Subject: [PATCH 071/199] fix: let binomial elastic net variables re-enter the
 active set

---
 pystatsm/pyglmnet/binom_eln2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglmnet/binom_eln2.py b/pystatsm/pyglmnet/binom_eln2.py
index 314a418..e7145f6 100644
--- a/pystatsm/pyglmnet/binom_eln2.py
+++ b/pystatsm/pyglmnet/binom_eln2.py
@@ -137,8 +137,8 @@ def _binom_elnet_cd(lam, beta, active, X, Xsq, y, weights, alpha, halc, index,
     r = (y - mu)
     fvals[0] = objective_function(y, mu, weights, beta[1:], alpha, halc, lam)
     for i in range(1, n_iters):
-        b, b0, active = _welnet_cd(X, Xsq, r, w , alpha, lam, beta.copy(),
-                                   active, index, max_iters, dtol)
+        b, b0, _ = _welnet_cd(X, Xsq, r, w , alpha, lam, beta.copy(),
+                                   active.copy(), index, max_iters, dtol)
         eta, mu, w = get_eta_mu(X, b, b0)
         r = (y - mu)
         fvals[i] = objective_function(y, mu, weights, b, alpha, halc, lam)
-- 
2.43.0


From 91c17d53d7a11d81089736128057001ccea3c933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:08 +0000
Subject: [PATCH 072/199] fix: use the observation weights in the binomial
 elastic net updates

---
 pystatsm/pyglmnet/binom_eln2.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pystatsm/pyglmnet/binom_eln2.py b/pystatsm/pyglmnet/binom_eln2.py
index e7145f6..69a07f0 100644
--- a/pystatsm/pyglmnet/binom_eln2.py
+++ b/pystatsm/pyglmnet/binom_eln2.py
@@ -134,13 +134,14 @@ def _binom_elnet_cd(lam, beta, active, X, Xsq, y, weights, alpha, halc, index,
         betas = None
     eta, mu, w = get_eta_mu(X, beta[1:], beta[0])
     weights = weights / np.sum(weights)
-    r = (y - mu)
+    nweights = weights * len(y)
+    r = nweights * (y - mu)
     fvals[0] = objective_function(y, mu, weights, beta[1:], alpha, halc, lam)
     for i in range(1, n_iters):
-        b, b0, _ = _welnet_cd(X, Xsq, r, w , alpha, lam, beta.copy(),
+        b, b0, _ = _welnet_cd(X, Xsq, r, nweights * w, alpha, lam, beta.copy(),
                                    active.copy(), index, max_iters, dtol)
         eta, mu, w = get_eta_mu(X, b, b0)
-        r = (y - mu)
+        r = nweights * (y - mu)
         fvals[i] = objective_function(y, mu, weights, b, alpha, halc, lam)
         ii = 0
         if fvals[i]>fvals[i-1]+1e-7:
@@ -151,7 +152,7 @@ def _binom_elnet_cd(lam, beta, active, X, Xsq, y, weights, alpha, halc, index,
                 b = (beta[1:] + b) / 2
                 b0 = (beta[0] + b0) / 2
                 eta, mu, w = get_eta_mu(X, b, b0)
-                r = (y - mu)
+                r = nweights * (y - mu)
                 fvals[i] = objective_function(y, mu, weights, b, alpha, halc, lam)
         step_halves[i] = ii
         if store_betas:
@@ -205,7 +206,6 @@ def binom_elnet_path(X, y, weights, alpha, lambdas=None, cd_kws=None, progress_b
     betas = np.zeros((n_lambdas+1, n_var+1))
     fvals_hist = []
     fvals, active, index = np.zeros(n_lambdas+1), np.ones(n_var, dtype=bool), np.arange(n_var)
-    weights = np.ones_like(y)
     betas[0, 0] = b0
     
     default_cd_kws = dict(X=X, Xsq=Xsq, y=y, weights=weights, alpha=alpha,
-- 
2.43.0


From 2c68d9a050195de36a972f7bdc058d58e9aad1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:08 +0000
Subject: [PATCH 073/199] fix: derive the binomial elastic net path from the
 standardized, weighted data

---
 pystatsm/pyglmnet/binom_eln2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglmnet/binom_eln2.py b/pystatsm/pyglmnet/binom_eln2.py
index 69a07f0..ddf5b01 100644
--- a/pystatsm/pyglmnet/binom_eln2.py
+++ b/pystatsm/pyglmnet/binom_eln2.py
@@ -190,15 +190,15 @@ def binom_elnet(X, y, lam, alpha=0.99, weights=None, cd_kws=None):
     
 
 def binom_elnet_path(X, y, weights, alpha, lambdas=None, cd_kws=None, progress_bar=None):
+    X = (X - X.mean(axis=0)) / X.std(axis=0)
     if (lambdas is None) or (type(lambdas) in [int, float]):
         if lambdas is None:
             n_lambdas = 150
         else:
             n_lambdas = int(lambdas)
-        lambdas = get_lambdas(X, y, np.ones_like(y), n_lambdas, alpha)
+        lambdas = get_lambdas(X, y, weights, n_lambdas, alpha)
     else:
         n_lambdas = len(lambdas)
-    X = (X - X.mean(axis=0)) / X.std(axis=0)
     b0, mu, eta = get_intercept(y, weights)
     halc = (1 - alpha) / 2.0
     Xsq = X**2
-- 
2.43.0


From 8343e29feb4bb3cbbfe4cb571b22d75560168f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:53 +0000
Subject: [PATCH 074/199] fix: add back screened elastic net variables that
 violate optimality

---
 pystatsm/pyglmnet/glmen2.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglmnet/glmen2.py b/pystatsm/pyglmnet/glmen2.py
index 6123de1..b6f1078 100644
--- a/pystatsm/pyglmnet/glmen2.py
+++ b/pystatsm/pyglmnet/glmen2.py
@@ -228,6 +228,7 @@ class ElasticNetGLM(object):
         mu = self.family.inv_link(eta)
         g = np.abs(np.dot(X.T, wobs * (y - mu)))
         active[g<(2.0 * lam - lam0)] = False
+        screened = ~active
         f_curr = self._obj_func_mu(mu, beta, lam, X, y, wobs)
         f_hist = [[f_curr, 0]]
         for i in range(n_iters):
@@ -236,7 +237,7 @@ class ElasticNetGLM(object):
             z = eta + (y - mu) / dmu_deta
             v = wobs * dmu_deta**2 / var_mu
             r = z - eta
-            beta_new, i, xv = weighted_elnet(beta.copy(), r, v, X, Xsq, active.copy(), index,
+            beta_new, i, xv = weighted_elnet(beta.copy(), r, v, X, Xsq, active, index,
                                              lam, lam0, self.alpha, **inner_kws)
             eta_new = overflow_adjust(beta_new[0] + X.dot(beta_new[1:]), lower, upper)
             mu_new = self.family.inv_link(eta_new)
@@ -247,10 +248,11 @@ class ElasticNetGLM(object):
             if fdiff<ftol:
                 # screened variables must satisfy the optimality conditions
                 g = np.abs(np.dot(X.T, wobs * (y - mu)))
-                violations = ~active & (g > lam * self.alpha)
+                violations = screened & (g > lam * self.alpha)
                 if not np.any(violations):
                     break
                 active[violations] = True
+                screened[violations] = False
         return beta, f_hist#, np.vstack(beta_hist)
     
     def _glm_elnet_path(self, X, Xsq, y, wobs, lambdas, progress_bar=None, 
-- 
2.43.0


From 8e79abb0c365c5cbc8b184f0e90d2f9f4461f71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:40 +0000
Subject: [PATCH 075/199] fix: downdate only the active block of the LARS
 Cholesky factor

---
 pystatsm/pyglmnet/lars.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglmnet/lars.py b/pystatsm/pyglmnet/lars.py
index 675f1e9..37a3023 100644
--- a/pystatsm/pyglmnet/lars.py
+++ b/pystatsm/pyglmnet/lars.py
@@ -46,8 +46,10 @@ def lars_add_var(cj_, j, G, L, C, active, s, ind):
 
 def lars_drop_var(L, betas, active, s, ind, drops, i):
     drop_ix, = np.where(drops)
-    for k in drop_ix:
-        L = chol_downdate(L, k)
+    n_active = len(active)
+    for k in drop_ix[::-1]:
+        L[:n_active, :n_active] = chol_downdate(L[:n_active, :n_active].copy(), k)
+        n_active -= 1
     active_ix = active[drop_ix]
     betas[i, active_ix] = 0.0
     active = active[~drops]
-- 
2.43.0


From a5e1dc4b577090dbb613482bad3dbb61fd4f172d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 076/199] fix: number of equispaced knots must not depend on
 rounding

---
 pystatsm/utilities/splines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/splines.py b/pystatsm/utilities/splines.py
index e284575..1bf780e 100644
--- a/pystatsm/utilities/splines.py
+++ b/pystatsm/utilities/splines.py
@@ -59,7 +59,7 @@ def equispaced_knots(x, degree, ndx):
     order = degree + 1
     lb = xl - order * dx
     ub = xr + order * dx
-    knots = np.arange(xl - order * dx, xr + order * dx, dx)
+    knots = xl + dx * (np.arange(ndx + 2 * order) - order)
     return knots, order, lb, ub
 
 def _bspline(x, knots, degree, deriv=0):
-- 
2.43.0


From c06d6775ebf53770c535fa0af81b5361e07ba39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 077/199] fix: B-spline penalty call order, polynomial order
 and derivative; smooths with kind='bs' construct

---
 pystatsm/utilities/splines.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pystatsm/utilities/splines.py b/pystatsm/utilities/splines.py
index 1bf780e..764ac4c 100644
--- a/pystatsm/utilities/splines.py
+++ b/pystatsm/utilities/splines.py
@@ -164,11 +164,16 @@ def ccspline_basis(x, knots, F):
     X = A * d1 + B * d2 - A * d3 - B * d4 + C * d5 + D * d6
     return X
 
-def bspline_penalty(all_knots, knots, degree, penalty=2, intercept=False):
-    pord = penalty-1
+def bspline_penalty(all_knots, knots, degree=3, penalty=2):
+    pord = degree - penalty
+    if pord == 0:
+        k1 = (knots[1:] + knots[:-1]) / 2
+        G = bspline_basis(k1, all_knots, deriv=penalty, degree=degree)
+        D = np.sqrt(np.diff(knots)).reshape(-1, 1) * G
+        return D, D.T.dot(D)
     h1 = np.repeat(np.diff(knots)/pord, pord)
     k1 = np.concatenate((np.array([knots[0]]), h1)).cumsum()
-    G = bspline_basis(k1, all_knots, degree, deriv=2, intercept=False)
+    G = bspline_basis(k1, all_knots, deriv=penalty, degree=degree)
     a = np.tile(np.linspace(-1, 1, pord+1), pord+1)
     b = np.repeat(np.arange(0, pord+1), pord+1)
     P = (a**b).reshape(pord+1, pord+1, order='F')
@@ -236,7 +241,7 @@ def _get_crsplines(x, df=10):
     
 def _get_bsplines(x, df=10):
     knots, inner_knots = bspline_knots(x, df)
-    F, S = bspline_penalty(knots, inner_knots)
+    _, S = bspline_penalty(knots, inner_knots)
     X = bspline_basis(x, knots, deriv=0)
     fkws = {"deriv":0}
     return X, S, knots, fkws
-- 
2.43.0


From 04b5d07fe6bc65e719fa12fb83f03aa7e85bd250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 078/199] fix: penalty log pseudo-determinant counts exactly
 the non-null eigenvalues

---
 pystatsm/pygam/smooth_setup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pygam/smooth_setup.py b/pystatsm/pygam/smooth_setup.py
index f152958..a9aeb7f 100644
--- a/pystatsm/pygam/smooth_setup.py
+++ b/pystatsm/pygam/smooth_setup.py
@@ -113,7 +113,7 @@ def get_smooth_matrices(Xp, smooths, n_smooth_terms, n_total_params):
         X.append(smooths[var]['X'])
         S[i] = Si
         ranks.append(np.linalg.matrix_rank(Si))
-        u = np.linalg.eigvals(s['S'])
-        ldS.append(np.log(u[u>np.finfo(float).eps]).sum())
+        u = np.linalg.eigvalsh(s['S'])
+        ldS.append(np.log(u[p_i-ranks[-1]:]).sum())
     return X, S, ranks, ldS
 
-- 
2.43.0


From b72fd2410d0ee12d17d6afef76db95f011d4b56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 079/199] fix: LogbLink uses the offset it is given

---
 pystatsm/pygam/gauls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pygam/gauls.py b/pystatsm/pygam/gauls.py
index eebf2ad..7de7c92 100644
--- a/pystatsm/pygam/gauls.py
+++ b/pystatsm/pygam/gauls.py
@@ -22,7 +22,7 @@ from ..utilities.optimizer_utils import MemoizeGradHess
 class LogbLink(Link):
 
     def __init__(self, b=0.01):
-        self.b = 0.01
+        self.b = b
 
     def link(self, mu):
         return np.log(1.0 / mu - self.b)
-- 
2.43.0


From 4c23291675983c89cc4644ca3eec7320c36f4387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 080/199] fix: location-scale penalty determinant without
 smooths in the mean model

---
 pystatsm/pygam/gauls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pygam/gauls.py b/pystatsm/pygam/gauls.py
index 7de7c92..b64d89b 100644
--- a/pystatsm/pygam/gauls.py
+++ b/pystatsm/pygam/gauls.py
@@ -661,7 +661,7 @@ class GauLS:
         for i, (r, lds) in enumerate(list(zip(self.m.ranks, self.m.ldS))):
             logdet += r * rho[i] + lds
         for j, (r, lds) in enumerate(list(zip(self.s.ranks, self.s.ldS))):
-            logdet += r * rho[j+i+1] + lds
+            logdet += r * rho[j+self.ns_m] + lds
         return logdet
 
     def reml(self, rho):
-- 
2.43.0


From dcd0a261e4df3efef5af36882e59facc3b951592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 081/199] fix: location-scale R squared uses the fitted mean
 rather than the linear predictor

---
 pystatsm/pygam/gauls.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pystatsm/pygam/gauls.py b/pystatsm/pygam/gauls.py
index b64d89b..28d41e0 100644
--- a/pystatsm/pygam/gauls.py
+++ b/pystatsm/pygam/gauls.py
@@ -1094,10 +1094,9 @@ class GauLS:
                                 columns=['param', f'CI{confint}-', f'CI{confint}+',
                                          'SE', 't', 'p'])
         yhat = self.m.X.dot(self.beta[self.ixm])
-        resids = self.y - yhat
-        ssr = np.sum(resids**2)
         sst =  np.sum((self.y - self.y.mean())**2)
         self.mu = self.m.link.inv_link(yhat)
+        ssr = np.sum((self.y - self.mu)**2)
         self.tau = self.s.link.inv_link(self.s.X.dot(self.beta[self.ixs]))
         self.resids = self.y - self.mu
         self.pearson_resids = self.resids * self.tau
-- 
2.43.0


From 0e5f1f6ca4d64d4309e0382481acd1e8ca5125c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 082/199] fix: scale intercept in component predictions depends
 on the scale model

---
 pystatsm/pygam/gauls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pygam/gauls.py b/pystatsm/pygam/gauls.py
index 28d41e0..23fe8e2 100644
--- a/pystatsm/pygam/gauls.py
+++ b/pystatsm/pygam/gauls.py
@@ -915,7 +915,7 @@ class GauLS:
             eta_s = s.evaluate_component_basis(comp, points).dot(self.beta[self.ixs][s.smooths[comp]['ix']])
         else:
             eta_s = np.zeros_like(points)
-        if "Intercept" in m.x_varnames:
+        if "Intercept" in s.x_varnames:
             eta_s = eta_s + self.res.loc["s(Intercept)", "param"]
 
 
-- 
2.43.0


From 91606e4f69588a7bc438077cedce81da858b006f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 083/199] fix: location-scale Newton step halves when the step
 overflows

---
 pystatsm/pygam/gauls.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pygam/gauls.py b/pystatsm/pygam/gauls.py
index 23fe8e2..6eeaf66 100644
--- a/pystatsm/pygam/gauls.py
+++ b/pystatsm/pygam/gauls.py
@@ -472,9 +472,9 @@ class GauLS:
             if fcond or gcond:
                 beta = beta - d
                 break
-            elif ll_curr > ll_prev:
+            elif not ll_curr <= ll_prev:
                 j = 0
-                while ((j < 15)&(ll_curr > ll_prev)):
+                while (j < 15) and not ll_curr <= ll_prev:
                     d = d / 2.0
                     ll_curr = self.penalized_loglike(beta - d, S)
                     j+=1
-- 
2.43.0


From 65c05e9a08c2cd51eb441ff09fbf5c535e84d7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 084/199] fix: Gaussian additive model frequentist covariance
 scale

---
 pystatsm/pygam/gaussian_additive_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pygam/gaussian_additive_model.py b/pystatsm/pygam/gaussian_additive_model.py
index aff5b45..ece5e88 100644
--- a/pystatsm/pygam/gaussian_additive_model.py
+++ b/pystatsm/pygam/gaussian_additive_model.py
@@ -268,7 +268,7 @@ class GaussianAdditiveModel:
         Jb = self.grad_beta_rho(beta, lambda_)
         C = Jb.dot(Vp[:-1, :-1]).dot(Jb.T)
         Vc = Vb + C
-        Vf = Vb.dot(XtX*scale).dot(Vb) + C
+        Vf = Vb.dot(XtX/scale).dot(Vb) + C
         self.Slambda = Slambda
         self.Vb, self.Vp, self.Vc, self.Vf = Vb, Vp, Vc, Vf
         self.opt, self.theta, self.scale = opt, theta, scale
-- 
2.43.0


From 44127866f4a822757ed7a4be13a6e4d9ebc6f799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 085/199] fix: Gaussian additive model effective degrees of
 freedom

---
 pystatsm/pygam/gaussian_additive_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pygam/gaussian_additive_model.py b/pystatsm/pygam/gaussian_additive_model.py
index ece5e88..8c1c80f 100644
--- a/pystatsm/pygam/gaussian_additive_model.py
+++ b/pystatsm/pygam/gaussian_additive_model.py
@@ -273,7 +273,7 @@ class GaussianAdditiveModel:
         self.Vb, self.Vp, self.Vc, self.Vf = Vb, Vp, Vc, Vf
         self.opt, self.theta, self.scale = opt, theta, scale
         self.beta, self.eta, self.dev = beta, eta, dev
-        self.edf = np.trace(np.linalg.inv(Vb*XtX/scale))
+        self.edf = np.trace(Vb.dot(XtX)) / scale
         
     def fit(self, opt_kws={}, confint=95):
         self.optimize_penalty(opt_kws=opt_kws)
-- 
2.43.0


From ecfdb45b616cae4dcfca5ee38cca3c04a607409a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 086/199] fix: Gaussian additive model penalty log
 pseudo-determinant counts exactly the non-null eigenvalues

---
 pystatsm/pygam/gaussian_additive_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pygam/gaussian_additive_model.py b/pystatsm/pygam/gaussian_additive_model.py
index 8c1c80f..61e0352 100644
--- a/pystatsm/pygam/gaussian_additive_model.py
+++ b/pystatsm/pygam/gaussian_additive_model.py
@@ -56,8 +56,8 @@ class GaussianAdditiveModel:
             S[i] = Si
             Sj.append(s['S'])
             ranks.append(np.linalg.matrix_rank(Si))
-            u = np.linalg.eigvals(s['S'])
-            ldS.append(np.log(u[u>np.finfo(float).eps]).sum())
+            u = np.linalg.eigvalsh(s['S'])
+            ldS.append(np.log(u[p_i-ranks[-1]:]).sum())
         self.X, self.Xp, self.y = np.concatenate(X, axis=1), Xp.values, y.values[:, 0]
         self.S, self.Sj, self.ranks, self.ldS = S, Sj, ranks, ldS
         self.f, self.smooths = family, smooths
-- 
2.43.0


From c48bfdfc3a4acffe3955201f11afba10628d6fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 087/199] fix: Gaussian additive model bounds its smoothing
 parameters so the penalised system stays solvable

---
 pystatsm/pygam/gaussian_additive_model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pystatsm/pygam/gaussian_additive_model.py b/pystatsm/pygam/gaussian_additive_model.py
index 61e0352..5d6b332 100644
--- a/pystatsm/pygam/gaussian_additive_model.py
+++ b/pystatsm/pygam/gaussian_additive_model.py
@@ -8,6 +8,7 @@ import patsy
 import numpy as np
 import scipy as sp
 import scipy.stats
+import scipy.optimize
 import pandas as pd
 import scipy.interpolate
 import matplotlib.pyplot as plt
@@ -254,6 +255,10 @@ class GaussianAdditiveModel:
     
     def optimize_penalty(self, opt_kws={}):
         x = self.theta.copy()
+        lb = np.concatenate([np.full(self.ns, -30.0), [-50.0]])
+        ub = np.concatenate([np.full(self.ns, 22.0), [50.0]])
+        opt_kws = dict(opt_kws)
+        opt_kws.setdefault("bounds", sp.optimize.Bounds(lb, ub))
         opt = sp.optimize.minimize(self.reml, x, jac=self.gradient, 
                                    hess=self.hessian, method='trust-constr',
                                    **opt_kws)
-- 
2.43.0


From bcfc97e11317686caaf7ff3e79cf205dfe2905a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:15 +0000
Subject: [PATCH 088/199] fix: GAM penalised IRLS falls back on Fisher scoring
 when the Newton system is indefinite and halves overflowing steps

---
 pystatsm/pygam/gam.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pygam/gam.py b/pystatsm/pygam/gam.py
index ddae4b4..6c857b9 100644
--- a/pystatsm/pygam/gam.py
+++ b/pystatsm/pygam/gam.py
@@ -123,7 +123,13 @@ class GAM:
             c, low = sp.linalg.cho_factor(XtWX + S, lower=True, check_finite=False)
             beta_new = sp.linalg.cho_solve((c, low), rhs, check_finite=False)
         except np.linalg.LinAlgError:
-            beta_new = np.linalg.solve(XtWX + S, rhs)
+            # not positive definite: fall back on a Fisher scoring step
+            mu = self.f.inv_link(eta)
+            g1 = self.f.dlink(mu)
+            w = 1.0 / (self.f.var_func(mu=mu) * g1**2)
+            z = eta + (self.y - mu) * g1
+            Xw = self.X * w[:, None]
+            beta_new = np.linalg.solve(Xw.T.dot(self.X) + S, Xw.T.dot(z))
         return beta_new
 
     def pirls(self, lam, n_iters=200, tol=1e-12):
@@ -179,13 +185,13 @@ class GAM:
             mu = self.f.inv_link(eta)
             dev = self.f.deviance(self.y, mu=mu).sum() + beta.dot(S).dot(beta)
             j = 0
-            while (j < 15) and (dev > dev_prev):
+            while (j < 15) and not (dev <= dev_prev):
                 beta = (beta + beta_prev) / 2.0
                 eta = self.X.dot(beta)
                 mu = self.f.inv_link(eta)
                 dev = self.f.deviance(self.y, mu=mu).sum() + beta.dot(S).dot(beta)
                 j += 1
-            if dev > dev_prev:
+            if not (dev <= dev_prev):
                 beta, eta, mu, dev = beta_prev, eta_prev, self.f.inv_link(eta_prev), dev_prev
                 break
             if abs(dev - dev_prev) / (abs(dev_prev) + 1e-6) < tol:
-- 
2.43.0


From 572c0ad423fe3de8f3db2d45c9bab1c2733e7dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 089/199] fix: GAM penalised IRLS starts from a Fisher scoring
 step, whose weights are positive

---
 pystatsm/pygam/gam.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pystatsm/pygam/gam.py b/pystatsm/pygam/gam.py
index 6c857b9..438b9b4 100644
--- a/pystatsm/pygam/gam.py
+++ b/pystatsm/pygam/gam.py
@@ -124,14 +124,17 @@ class GAM:
             beta_new = sp.linalg.cho_solve((c, low), rhs, check_finite=False)
         except np.linalg.LinAlgError:
             # not positive definite: fall back on a Fisher scoring step
-            mu = self.f.inv_link(eta)
-            g1 = self.f.dlink(mu)
-            w = 1.0 / (self.f.var_func(mu=mu) * g1**2)
-            z = eta + (self.y - mu) * g1
-            Xw = self.X * w[:, None]
-            beta_new = np.linalg.solve(Xw.T.dot(self.X) + S, Xw.T.dot(z))
+            beta_new = self.solve_fisher(eta, S)
         return beta_new
 
+    def solve_fisher(self, eta, S):
+        mu = self.f.inv_link(eta)
+        g1 = self.f.dlink(mu)
+        w = 1.0 / (self.f.var_func(mu=mu) * g1**2)
+        z = eta + (self.y - mu) * g1
+        Xw = self.X * w[:, None]
+        return np.linalg.solve(Xw.T.dot(self.X) + S, Xw.T.dot(z))
+
     def pirls(self, lam, n_iters=200, tol=1e-12):
         """
         Parameters
@@ -173,7 +176,7 @@ class GAM:
         # unconditionally so halving has a real previous iterate to fall back to.
         mu = (self.y + self.y.mean()) / 2.0
         eta = self.f.link(mu)
-        beta = self.solve_pls(eta, S)
+        beta = self.solve_fisher(eta, S)
         eta = self.X.dot(beta)
         mu = self.f.inv_link(eta)
         dev = self.f.deviance(self.y, mu=mu).sum() + beta.dot(S).dot(beta)
-- 
2.43.0


From 8ee8e86e9ef865cdccb7d52132d02153927cc970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 090/199] fix: location-scale coefficients start from the
 sample mean and standard deviation instead of zero

---
 pystatsm/pygam/gauls.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pygam/gauls.py b/pystatsm/pygam/gauls.py
index 6eeaf66..ce73459 100644
--- a/pystatsm/pygam/gauls.py
+++ b/pystatsm/pygam/gauls.py
@@ -453,7 +453,7 @@ class GauLS:
 
         """
         if beta_init is None:
-            beta_init = np.zeros(self.nx)
+            beta_init = self._initial_beta()
         beta = beta_init.copy()
         ll_prev = self.penalized_loglike(beta, S)
         convergence = False
@@ -485,6 +485,17 @@ class GauLS:
         convergence = fcond + gcond
         return beta, i, convergence
 
+    def _initial_beta(self):
+        """Coefficients reproducing the sample mean and standard deviation"""
+        beta = np.zeros(self.nx)
+        for part, ix, value in ((self.m, self.ixm, self.y.mean()),
+                                (self.s, self.ixs, 1.0 / self.y.std())):
+            with np.errstate(all="ignore"):
+                eta = part.link.link(value)
+            if np.isfinite(eta):
+                beta[ix] = np.linalg.lstsq(part.X, np.full(self.y.shape[0], eta), rcond=None)[0]
+        return beta
+
     def beta_rho(self, rho):
         """
         Parameters
-- 
2.43.0


From 3cd319c0486c745257b32e8d5e50cb0a38b0a96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 091/199] fix: SRMR includes the diagonal residuals its
 denominator counts

---
 pystatsm/pyfa/fit_measures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa/fit_measures.py b/pystatsm/pyfa/fit_measures.py
index 8bb11d7..6f9b9cd 100644
--- a/pystatsm/pyfa/fit_measures.py
+++ b/pystatsm/pyfa/fit_measures.py
@@ -25,7 +25,7 @@ def srmr(Sigma, S, df):
     y = 0.0
     t = (p + 1.0) * p
     for i in range(p):
-        for j in range(i):
+        for j in range(i+1):
             y += (Sigma[i, j]-S[i, j])**2/(S[i, i]*S[j, j])
     
     y = np.sqrt((2.0 / (t)) * y)      
-- 
2.43.0


From 8885010f3e205faf5c38fbc69360f5846c7982b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 092/199] fix: factor-analysis likelihood-ratio test uses the
 model degrees of freedom

---
 pystatsm/pyfa/fit_measures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa/fit_measures.py b/pystatsm/pyfa/fit_measures.py
index 6f9b9cd..926417d 100644
--- a/pystatsm/pyfa/fit_measures.py
+++ b/pystatsm/pyfa/fit_measures.py
@@ -38,7 +38,7 @@ def lr_test(Sigma, S, df, n):
     Sigma_inv = np.linalg.pinv(Sigma)
     chi2 = (lndSigma + np.trace(Sigma_inv.dot(S)) - lndS - p) * n
     chi2 = np.maximum(chi2, 1e-12)
-    pval = sp.stats.chi2.sf(chi2, (p + 1)*p/2)
+    pval = sp.stats.chi2.sf(chi2, df)
     return chi2, pval
 
 def gfi(Sigma, S):
-- 
2.43.0


From fe6d401d78e2d69c11bc7d21689567dec9c0b34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 093/199] fix: factor-analysis parameter count excludes
 rotational indeterminacy

---
 pystatsm/pyfa/factor_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa/factor_analysis.py b/pystatsm/pyfa/factor_analysis.py
index 52d7068..c4ed7f7 100644
--- a/pystatsm/pyfa/factor_analysis.py
+++ b/pystatsm/pyfa/factor_analysis.py
@@ -570,7 +570,7 @@ class FactorAnalysis(object):
 
         """
         t = (self.n_vars + 1.0) * self.n_vars / 2.0
-        k = len(self.theta)
+        k = len(self.theta) - self.n_facs * (self.n_facs - 1) // 2
         degfree = t  - k
         GFI = gfi(Sigma, self.S)
         AGFI = agfi(Sigma, self.S, degfree)
-- 
2.43.0


From 8913ed714771aae798fe5f10b92a81c1d47cae54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 094/199] fix: log-likelihood of obliquely rotated factor
 models uses the factor correlations

---
 pystatsm/pyfa/factor_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa/factor_analysis.py b/pystatsm/pyfa/factor_analysis.py
index c4ed7f7..dd2e395 100644
--- a/pystatsm/pyfa/factor_analysis.py
+++ b/pystatsm/pyfa/factor_analysis.py
@@ -578,7 +578,7 @@ class FactorAnalysis(object):
         stdchi2 = (chi2 - degfree) /  np.sqrt(2 * degfree)
         RMSEA = np.sqrt(np.maximum(chi2 -degfree, 0)/(degfree*(self.n_obs-1)))
         SRMR = srmr(Sigma, self.S, degfree)
-        llval = -(self.n_obs-1)*self.loglike(self.theta)/2
+        llval = -(self.n_obs-1)*self.loglike_augmented(self.params)/2
         BIC = k * np.log(self.n_obs) -2 * llval
         AIC = 2 * k - 2*llval
         sumstats = dict(GFI=GFI, AGFI=AGFI, chi2=chi2, chi2_pvalue=chi2p,
-- 
2.43.0


From 72213f9b74033e5538919519e10cdbcdc5902f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 095/199] fix: sign of the Hessian of the profiled
 factor-analysis discrepancy

---
 pystatsm/pyfa/factor_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa/factor_analysis.py b/pystatsm/pyfa/factor_analysis.py
index dd2e395..52df9c8 100644
--- a/pystatsm/pyfa/factor_analysis.py
+++ b/pystatsm/pyfa/factor_analysis.py
@@ -443,7 +443,7 @@ class FactorAnalysis(object):
             b1 = (2 * u[i] - 1) * A
             b2 = 2 * u[i] * (u[i] - 1) * np.linalg.pinv(u[i] * Ip - W)
             B+= (b1 + b2) * A
-        H = -Psi_inv.dot(B).dot(Psi_inv)
+        H = Psi_inv.dot(B).dot(Psi_inv)
         return H
 
     def loadings_from_psi(self, psi):
-- 
2.43.0


From 0c083997250e11a1a13ce3c817c369f631c6e2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 096/199] fix: factor-analysis Hessian must not depend on
 whether it was evaluated before

---
 pystatsm/pyfa/factor_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa/factor_analysis.py b/pystatsm/pyfa/factor_analysis.py
index 52df9c8..5c4a9b4 100644
--- a/pystatsm/pyfa/factor_analysis.py
+++ b/pystatsm/pyfa/factor_analysis.py
@@ -30,7 +30,7 @@ class FactorAnalysis(object):
         self._get_n_factors(n_factors, **n_factor_kws)
         self._make_params()
         self.p, self.m = self.n_vars, self.n_facs
-        self.E = np.eye(self.n_vars)
+        self.E = np.zeros((self.n_vars, self.n_vars))
         self.Ik = np.eye(self.n_facs)
         self.Nk = nmat(self.n_facs).toarray()
         self.Lk = lmat(self.n_facs).toarray()
-- 
2.43.0


From 6bc74c3e54bcbab1ceee55d25c2987746c9ed88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 097/199] fix: factor-analysis starting values on the scale of
 the covariance matrix

---
 pystatsm/pyfa/efa.py             | 2 +-
 pystatsm/pyfa/factor_analysis.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyfa/efa.py b/pystatsm/pyfa/efa.py
index a472700..275096b 100644
--- a/pystatsm/pyfa/efa.py
+++ b/pystatsm/pyfa/efa.py
@@ -85,7 +85,7 @@ class FactorAnalysis(object):
 
     def _init_psi(self):
         self.pix = np.arange(self.n_vars*self.n_facs, self.n_vars*self.n_facs+self.n_vars)
-        L = self.V[:, :self.n_facs]
+        L = self.V[:, :self.n_facs] * np.sqrt(self.u[:self.n_facs])
         psi = np.diag(self.S - np.dot(L, L.T))
         self.psi_init = psi
         self.rho_init = np.log(psi)
diff --git a/pystatsm/pyfa/factor_analysis.py b/pystatsm/pyfa/factor_analysis.py
index 5c4a9b4..2e7d6d3 100644
--- a/pystatsm/pyfa/factor_analysis.py
+++ b/pystatsm/pyfa/factor_analysis.py
@@ -88,7 +88,7 @@ class FactorAnalysis(object):
         self.theta = np.zeros(self.n_pars)
         self.lix = np.arange(self.n_vars*self.n_facs)
         self.pix = np.arange(self.n_vars*self.n_facs, self.n_vars*self.n_facs+self.n_vars)
-        L = self.V[:, :self.n_facs]
+        L = self.V[:, :self.n_facs] * np.sqrt(self.u[:self.n_facs])
         psi = np.diag(self.S - np.dot(L, L.T))
         self.theta[self.lix] = vec(L)
         self.theta[self.pix] = np.log(psi)
-- 
2.43.0


From a5ff7c723785892ffc162b50060c97c6267d7c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 098/199] fix: EFA parameter count subtracts the identification
 constraints

---
 pystatsm/pyfa/efa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa/efa.py b/pystatsm/pyfa/efa.py
index 275096b..0ffb3d7 100644
--- a/pystatsm/pyfa/efa.py
+++ b/pystatsm/pyfa/efa.py
@@ -107,7 +107,7 @@ class FactorAnalysis(object):
         ixr = np.arange(nl + ns, nl + ns + nr)
         self.ixa, self.ixl, self.ixs, self.ixr = ixa, ixl, ixs, ixr
         self.nl, self.ns, self.nr, self.nc, self.nt = nl, ns, nr, nc, nt
-        self.n_params = len(ixa) - nc
+        self.n_params = len(ixa) - 2 * nc
 
     def model_matrices_to_params(self, L, Phi, Psi):
         """
-- 
2.43.0


From b61c00eb6fce8ed3274161d6c7bd10983f38843c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 099/199] fix: EFA RMSEA uses the model degrees of freedom and
 is zero when the chi-square is below them

---
 pystatsm/pyfa/efa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa/efa.py b/pystatsm/pyfa/efa.py
index 0ffb3d7..4d75140 100644
--- a/pystatsm/pyfa/efa.py
+++ b/pystatsm/pyfa/efa.py
@@ -589,7 +589,7 @@ class FactorAnalysis(object):
         rni = ((chi2_null - df_null) - (chi2_full - df_full)) / (chi2_null - df_null)
         cfi = (np.maximum(chi2_null - df_null, 0) - np.maximum(chi2_full - df_full, 0))\
              /np.maximum(chi2_null - df_null, 0)
-        rmsea = np.sqrt(np.max(chi2_full - df_full, 0) / (df_null * (self.n_obs - 1)))
+        rmsea = np.sqrt(np.maximum(chi2_full - df_full, 0) / (df_full * (self.n_obs - 1)))
         gfi_ = gfi(Sigma, self.S)
         agfi_ = agfi(Sigma, self.S, df_full)
         srmr_ = srmr(Sigma, self.S, df_full)
-- 
2.43.0


From f880c04b11993699067108e0a78244ba43f2a625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 100/199] fix: reordered factors keep their own signs

---
 pystatsm/pyfa/efa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyfa/efa.py b/pystatsm/pyfa/efa.py
index 4d75140..11dbb1e 100644
--- a/pystatsm/pyfa/efa.py
+++ b/pystatsm/pyfa/efa.py
@@ -373,10 +373,11 @@ class FactorAnalysis(object):
         order = np.argsort(np.sum(L**2, axis=0))
         sign = np.sign(np.sum(L, axis=0))
         perm_mat = np.diag(sign)[:, order]
+        sign = sign[order]
         L = L[:, order] * sign
         T = T[:, order] * sign
         Phi = Phi[order, order[None].T]
-        Phi = sign[:,None] * Phi * sign[: None].T
+        Phi = sign[:,None] * Phi * sign
         return L, T, Phi, perm_mat
 
     def params_to_model_matrices(self, params):
-- 
2.43.0


From 8e578c1498dcd8454ed6db05197a6b37c3eb7ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:38 +0000
Subject: [PATCH 101/199] fix: Hessian of the profiled discrepancy inverts
 eigenvalue differences directly (pinv cutoff let round-off through)

---
 pystatsm/pyfa/efa.py             | 4 +++-
 pystatsm/pyfa/factor_analysis.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyfa/efa.py b/pystatsm/pyfa/efa.py
index 11dbb1e..2931493 100644
--- a/pystatsm/pyfa/efa.py
+++ b/pystatsm/pyfa/efa.py
@@ -233,8 +233,10 @@ class FactorAnalysis(object):
         Ip = np.eye(p)
         for i in range(q):
             A = np.outer(V[:, i], V[:, i])
+            d = u[i] - u
+            d = np.divide(1.0, d, out=np.zeros_like(d), where=np.abs(d) > 1e-12)
             b1 = (2 * u[i] - 1) * A
-            b2 = 2 * u[i] * (u[i] - 1) * np.linalg.pinv(u[i] * Ip - W)
+            b2 = 2 * u[i] * (u[i] - 1) * (V * d).dot(V.T)
             B+= (b1 + b2) * A
         H = Psi_inv.dot(B).dot(Psi_inv)
         return H
diff --git a/pystatsm/pyfa/factor_analysis.py b/pystatsm/pyfa/factor_analysis.py
index 2e7d6d3..b22cce0 100644
--- a/pystatsm/pyfa/factor_analysis.py
+++ b/pystatsm/pyfa/factor_analysis.py
@@ -440,8 +440,10 @@ class FactorAnalysis(object):
         Ip = np.eye(p)
         for i in range(q):
             A = np.outer(V[:, i], V[:, i])
+            d = u[i] - u
+            d = np.divide(1.0, d, out=np.zeros_like(d), where=np.abs(d) > 1e-12)
             b1 = (2 * u[i] - 1) * A
-            b2 = 2 * u[i] * (u[i] - 1) * np.linalg.pinv(u[i] * Ip - W)
+            b2 = 2 * u[i] * (u[i] - 1) * (V * d).dot(V.T)
             B+= (b1 + b2) * A
         H = Psi_inv.dot(B).dot(Psi_inv)
         return H
-- 
2.43.0


From 54bdbbe21834b18faab96066bf9fb1f405a2ea78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:09 +0000
Subject: [PATCH 102/199] fix: quartimax is the Crawford-Ferguson criterion
 with kappa zero (no column term)

---
 pystatsm/pyfa/rotation.py   | 4 ++--
 pystatsm/pyfa2/criterion.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyfa/rotation.py b/pystatsm/pyfa/rotation.py
index 856026c..a804083 100644
--- a/pystatsm/pyfa/rotation.py
+++ b/pystatsm/pyfa/rotation.py
@@ -175,7 +175,7 @@ def get_gcf_constants(method, p, m):
     if method == 'varimax':
         consts = dict(k1=0.0, k2=(p-1)/p, k3=1/p, k4=-1)
     elif method == 'quartimax':
-        consts = dict(k1=0.0, k2=1, k3=1, k4=-1)
+        consts = dict(k1=0.0, k2=1, k3=0, k4=-1)
     elif method == 'equamax':
         consts = dict(k1=0.0, k2=1-m/(2.0 * p), k3=m/(2.0 * p), k4=-1)
     elif method == 'parsimax':
@@ -197,7 +197,7 @@ class GeneralizedCrawfordFerguson(RotationMethod):
         elif method == 'quartimax':
             k1 = 0.0
             k2 = 1.0
-            k3 = 1.0
+            k3 = 0.0
             k4 = -1.0
         elif method == 'equamax':
             k1 = 0.0
diff --git a/pystatsm/pyfa2/criterion.py b/pystatsm/pyfa2/criterion.py
index 8cda5b7..3d8b71c 100644
--- a/pystatsm/pyfa2/criterion.py
+++ b/pystatsm/pyfa2/criterion.py
@@ -6,7 +6,7 @@ def _gcf_constants(method, p, m):
     if method == 'varimax':
         return (0.0, (p - 1) / p, 1 / p, -1.0)
     if method == 'quartimax':
-        return (0.0, 1.0, 1.0, -1.0)
+        return (0.0, 1.0, 0.0, -1.0)
     if method == 'equamax':
         return (0.0, 1 - m / (2.0 * p), m / (2.0 * p), -1.0)
     if method == 'parsimax':
-- 
2.43.0


From 94e1cd368006ce037cff05cd05000e2e8aad916b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:09 +0000
Subject: [PATCH 103/199] fix: target criterion value matches its gradient for
 weights other than zero and one

---
 pystatsm/pyfa/rotation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyfa/rotation.py b/pystatsm/pyfa/rotation.py
index a804083..8da8805 100644
--- a/pystatsm/pyfa/rotation.py
+++ b/pystatsm/pyfa/rotation.py
@@ -337,7 +337,7 @@ class TargetRotation(RotationMethod):
         self.W, self.H = W, H
 
     def Q(self, L):
-        f = np.sum((self.W * (L - self.H))**2) / 2
+        f = np.sum(self.W * (L - self.H)**2) / 2
         return f
 
     def dQ(self, L):
@@ -346,7 +346,7 @@ class TargetRotation(RotationMethod):
 
     def vgQ(self, L):
         Gq = self.W * (L - self.H)
-        fq = np.sum(Gq**2) / 2
+        fq = self.Q(L)
         return fq, Gq
 
 
-- 
2.43.0


From 1e1b14e161b8631b3750b645bc1ceab338522f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:09 +0000
Subject: [PATCH 104/199] fix: orthomax equamax uses half the number of factors

---
 pystatsm/pyfa/rotation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyfa/rotation.py b/pystatsm/pyfa/rotation.py
index 8da8805..750be32 100644
--- a/pystatsm/pyfa/rotation.py
+++ b/pystatsm/pyfa/rotation.py
@@ -490,7 +490,7 @@ def rotate_obli(A, vgq, T=None, alpha=1.0, gamma=0, tol=1e-9, n_iters=500):
         G = -np.linalg.multi_dot([L.T, Gq, Tinv]).T
     return T.T, G, Gq, opt_hist
 
-def get_gamma_ob(criterion, p, custom_gamma):
+def get_gamma_ob(criterion, p, custom_gamma, k=None):
     if (criterion == 'quartimin') or (criterion == 'quartimax'):
         gamma = 0.0
     elif (criterion == 'biquartimin') or (criterion == 'biquartimax'):
@@ -498,7 +498,7 @@ def get_gamma_ob(criterion, p, custom_gamma):
     elif (criterion == 'varimax') or (criterion == 'covarimin'):
         gamma = 1.0
     elif (criterion == 'equamax'):
-        gamma = p / 2.0
+        gamma = (p if k is None else k) / 2.0
     elif (criterion == 'oblique'):
         gamma = custom_gamma if custom_gamma is not None else -0.1
     else:
@@ -649,7 +649,7 @@ def rotate(A, criterion, method='oblimin', rotation_type='oblique', T=None,
     '''
     p, k = A.shape
     if method == 'oblimin':
-        gamma, vgq = get_gamma_ob(criterion, p, custom_gamma), vgq_ob
+        gamma, vgq = get_gamma_ob(criterion, p, custom_gamma, k), vgq_ob
     elif method == 'cf':
         gamma, vgq = get_gamma_cf(criterion, p, k), vgq_cf
 
-- 
2.43.0


From 51c537c93c08ce36a6b5edd3f65156277803bf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:09 +0000
Subject: [PATCH 105/199] fix: rotation line search keeps halving until the
 criterion does not get worse

---
 pystatsm/pyfa/rotation.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyfa/rotation.py b/pystatsm/pyfa/rotation.py
index 750be32..db31d65 100644
--- a/pystatsm/pyfa/rotation.py
+++ b/pystatsm/pyfa/rotation.py
@@ -79,7 +79,7 @@ class RotationMethod(object):
             if s<tol:
                 break
             alpha = 2.0 * alpha0
-            for c in range(10):
+            for c in range(60):
                 X = T - alpha * Gp
                 U, D, V = np.linalg.svd(X, full_matrices=False)
                 Tt = np.dot(U, V)
@@ -87,6 +87,8 @@ class RotationMethod(object):
                 ft_new, Gq = vgq(L)
                 if ft_new < (ft - 0.5*s**2*alpha):
                     break
+                elif c >= 9 and ft_new <= ft + 1e-14 * abs(ft):
+                    break
                 else:
                     alpha = alpha * 0.5
             #if abs(ft - ft_new) < 1e-16:
@@ -112,7 +114,7 @@ class RotationMethod(object):
             if s<tol:
                 break
             alpha = 2.0 * alpha
-            for c in range(10):
+            for c in range(60):
                 X = T - alpha * Gp
                 X2 = X**2
                 V = np.diag(1 / np.sqrt(np.sum(X2, axis=0)))
@@ -122,6 +124,8 @@ class RotationMethod(object):
                 ft_new, Gq = vgq(L)
                 if ft_new < (ft - 0.5*s**2*alpha):
                     break
+                elif c >= 9 and ft_new <= ft + 1e-14 * abs(ft):
+                    break
                 else:
                     alpha = alpha * 0.5
             if abs(ft - ft_new) <= ftol:
@@ -428,7 +432,7 @@ def rotate_ortho(A, vgq, T=None, alpha=1.0, gamma=0, tol=1e-9, n_iters=1000):
         if s<tol:
             break
         alpha = 2.0 * alpha0
-        for c in range(10):
+        for c in range(60):
             X = T - alpha * Gp
             U, D, V = np.linalg.svd(X, full_matrices=False)
             Tt = np.dot(U, V)
@@ -436,6 +440,8 @@ def rotate_ortho(A, vgq, T=None, alpha=1.0, gamma=0, tol=1e-9, n_iters=1000):
             ft_new, Gq = vgq(L, gamma)
             if ft_new < (ft - 0.5*s**2*alpha):
                 break
+            elif c >= 9 and ft_new <= ft + 1e-14 * abs(ft):
+                break
             else:
                 alpha = alpha * 0.5
         ft, T =ft_new, Tt
@@ -474,7 +480,7 @@ def rotate_obli(A, vgq, T=None, alpha=1.0, gamma=0, tol=1e-9, n_iters=500):
         if s<tol:
             break
         alpha = 2.0 * alpha
-        for c in range(10):
+        for c in range(60):
             X = T - alpha * Gp
             X2 = X**2
             V = np.diag(1 / np.sqrt(np.sum(X2, axis=0)))
@@ -484,6 +490,8 @@ def rotate_obli(A, vgq, T=None, alpha=1.0, gamma=0, tol=1e-9, n_iters=500):
             ft_new, Gq = vgq(L, gamma)
             if ft_new < (ft - 0.5*s**2*alpha):
                 break
+            elif c >= 9 and ft_new <= ft + 1e-14 * abs(ft):
+                break
             else:
                 alpha = alpha * 0.5
         ft, T =ft_new, Tt
-- 
2.43.0


From a76df71bbc2ac57d81d5fd0e13a0e0d6026b8748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:09 +0000
Subject: [PATCH 106/199] fix: aligning loadings assigns every factor exactly
 once

---
 pystatsm/pyfa/align_loadings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyfa/align_loadings.py b/pystatsm/pyfa/align_loadings.py
index 3b5cd3e..7aed35a 100644
--- a/pystatsm/pyfa/align_loadings.py
+++ b/pystatsm/pyfa/align_loadings.py
@@ -7,11 +7,12 @@ Created on Thu Apr 14 14:55:12 2022
 """
 
 import numpy as np
+from scipy.optimize import linear_sum_assignment
 
 
 def get_loadings_permutation(L_target, L):
     B, _, _, _ = np.linalg.lstsq(L_target, L, None)
-    j = np.argmax(np.abs(B), axis=1)
+    _, j = linear_sum_assignment(-np.abs(B))
     s = np.sign(np.diag(B[:, j]))
     return j, s
 
-- 
2.43.0


From 235855d442c8fc9fa8eb2d787cb54a97212c797a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 107/199] fix: rotation line search may shrink its step enough
 for loadings on a large scale

---
 pystatsm/pyfa2/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa2/solvers.py b/pystatsm/pyfa2/solvers.py
index f5c049a..9accf6d 100644
--- a/pystatsm/pyfa2/solvers.py
+++ b/pystatsm/pyfa2/solvers.py
@@ -9,7 +9,7 @@ class GPA:
     exhaustion keeps the oblique case stable (where column-normalization can
     amplify an over-ambitious step)."""
 
-    def __init__(self, crit, rot, alpha=1.0, tol=1e-6, n_iters=1000, ls_iters=30):
+    def __init__(self, crit, rot, alpha=1.0, tol=1e-6, n_iters=1000, ls_iters=60):
         self.crit = crit
         self.rot = rot
         self.alpha0 = alpha
-- 
2.43.0


From 44725b9ee3b7a4e7ca161b94eaf07212e5240220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:01 +0000
Subject: [PATCH 108/199] fix: constraint derivatives of unrotated solutions in
 the same parameters as the information matrix

---
 pystatsm/pyfa/factor_analysis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystatsm/pyfa/factor_analysis.py b/pystatsm/pyfa/factor_analysis.py
index b22cce0..8afd2a5 100644
--- a/pystatsm/pyfa/factor_analysis.py
+++ b/pystatsm/pyfa/factor_analysis.py
@@ -661,6 +661,8 @@ class FactorAnalysis(object):
                        np.arange(self.nl+self.ns, self.nl+self.ns+self.nr)]
             lix = vec(np.tril(np.ones((self.m, self.m)), -1)!=0)
             H[:nt, :nt] = self.H[ixp, ixp[:, None]]
+            # theta holds log uniquenesses, the information matrix is in the uniquenesses
+            dCdL[:, nl:] /= np.diag(self.Psi)
             if self.nc > 0:
                 H[nt:, :-nc] = dCdL
                 H[:-nc, nt:] = dCdL.T
-- 
2.43.0


From b56dd4294ac2c20f5219963a14930f910ff12dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:36 +0000
Subject: [PATCH 109/199] fix: factor-correlation labels follow the order of
 the parameters

---
 pystatsm/pyfa/efa.py             | 4 ++--
 pystatsm/pyfa/factor_analysis.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyfa/efa.py b/pystatsm/pyfa/efa.py
index 2931493..d4a8c79 100644
--- a/pystatsm/pyfa/efa.py
+++ b/pystatsm/pyfa/efa.py
@@ -352,8 +352,8 @@ class FactorAnalysis(object):
             for i in range(self.n_vars):
                 param_labels.append(f"L[{i}][{j}]")
         if self.rotation_type == "oblique":
-            for i in range(self.n_facs):
-                for j in range(i):
+            for j in range(self.n_facs):
+                for i in range(j + 1, self.n_facs):
                     param_labels.append(f"Phi[{i}][{j}]")
         for i in range(self.n_vars):
             param_labels.append(f"Psi[{i}]")
diff --git a/pystatsm/pyfa/factor_analysis.py b/pystatsm/pyfa/factor_analysis.py
index 8afd2a5..46b1e1b 100644
--- a/pystatsm/pyfa/factor_analysis.py
+++ b/pystatsm/pyfa/factor_analysis.py
@@ -729,8 +729,8 @@ class FactorAnalysis(object):
             for i in range(self.n_vars):
                 param_labels.append(f"L[{i}][{j}]")
         if self.rotation_type == "oblique":
-            for i in range(self.n_facs):
-                for j in range(i):
+            for j in range(self.n_facs):
+                for i in range(j + 1, self.n_facs):
                     param_labels.append(f"Phi[{i}][{j}]")
         for i in range(self.n_vars):
             param_labels.append(f"Psi[{i}]")
-- 
2.43.0


From d42543d6d68ef91b47ce190d74951cf7398b933e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 110/199] fix: rotation line search tolerates the criterion's
 rounding error instead of stalling

---
 pystatsm/pyfa/rotation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyfa/rotation.py b/pystatsm/pyfa/rotation.py
index db31d65..0b86b43 100644
--- a/pystatsm/pyfa/rotation.py
+++ b/pystatsm/pyfa/rotation.py
@@ -87,7 +87,7 @@ class RotationMethod(object):
                 ft_new, Gq = vgq(L)
                 if ft_new < (ft - 0.5*s**2*alpha):
                     break
-                elif c >= 9 and ft_new <= ft + 1e-14 * abs(ft):
+                elif c >= 9 and ft_new <= ft + 1e-12 * abs(ft):
                     break
                 else:
                     alpha = alpha * 0.5
@@ -124,7 +124,7 @@ class RotationMethod(object):
                 ft_new, Gq = vgq(L)
                 if ft_new < (ft - 0.5*s**2*alpha):
                     break
-                elif c >= 9 and ft_new <= ft + 1e-14 * abs(ft):
+                elif c >= 9 and ft_new <= ft + 1e-12 * abs(ft):
                     break
                 else:
                     alpha = alpha * 0.5
@@ -440,7 +440,7 @@ def rotate_ortho(A, vgq, T=None, alpha=1.0, gamma=0, tol=1e-9, n_iters=1000):
             ft_new, Gq = vgq(L, gamma)
             if ft_new < (ft - 0.5*s**2*alpha):
                 break
-            elif c >= 9 and ft_new <= ft + 1e-14 * abs(ft):
+            elif c >= 9 and ft_new <= ft + 1e-12 * abs(ft):
                 break
             else:
                 alpha = alpha * 0.5
@@ -490,7 +490,7 @@ def rotate_obli(A, vgq, T=None, alpha=1.0, gamma=0, tol=1e-9, n_iters=500):
             ft_new, Gq = vgq(L, gamma)
             if ft_new < (ft - 0.5*s**2*alpha):
                 break
-            elif c >= 9 and ft_new <= ft + 1e-14 * abs(ft):
+            elif c >= 9 and ft_new <= ft + 1e-12 * abs(ft):
                 break
             else:
                 alpha = alpha * 0.5
-- 
2.43.0


From 40307ab156d4cd9d235fd543c46be6abbd7c3e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:26 +0000
Subject: [PATCH 111/199] fix: multi-group and equality-constrained SEM
 parameters map to their own matrix entries (indices of free and reduced
 parameters were mixed)

---
 pystatsm/pysem2/model_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pysem2/model_base.py b/pystatsm/pysem2/model_base.py
index 79457b8..6356945 100644
--- a/pystatsm/pysem2/model_base.py
+++ b/pystatsm/pysem2/model_base.py
@@ -442,7 +442,7 @@ class ModelBase(ParameterTable, FixedValueManager, ParameterMapping):
         unique_values, inverse_mapping, indices = indexing_utils.unique(ftable["label"])
         unique_labels = pd.Series(unique_values)
         label_to_ind = pd.Series(unique_labels.index, index=unique_labels.values)
-        self.dfree_dtheta = equality_constraint_mat(indices)
+        self.dfree_dtheta = equality_constraint_mat(inverse_mapping).T
         self._unique_locs, self._first_locs = inverse_mapping, indices
         self.free_df = ftable
         self.free_df["theta_index"] = ftable["label"].map(label_to_ind)
@@ -450,7 +450,7 @@ class ModelBase(ParameterTable, FixedValueManager, ParameterMapping):
         self.dfree_dgroup = {}
         self.free_to_group_free = {}
         for i in range(self.n_groups):
-            ix = self.free_df.loc[self.free_df["group"] == i, "theta_index"]
+            ix = np.flatnonzero(self.free_df["group"] == i)
             cols = ix
             nrows = len(ix)
             ncols = self.free_df.shape[0]
-- 
2.43.0


From 15e3f8bfc93360c7a8cd002f043f801c8f2d22b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 112/199] fix: pysem: multi-group and equality-constrained
 parameters map to their own matrix entries

---
 pystatsm/pysem/param_table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pysem/param_table.py b/pystatsm/pysem/param_table.py
index c0f766c..f0c1f98 100644
--- a/pystatsm/pysem/param_table.py
+++ b/pystatsm/pysem/param_table.py
@@ -527,7 +527,7 @@ class BaseModel:
         unique_labels = pd.Series(unique_values)
         label_to_ind = pd.Series(
             unique_labels.index, index=unique_labels.values)
-        self.dfree_dtheta = equality_constraint_mat(indices)
+        self.dfree_dtheta = equality_constraint_mat(inverse_mapping).T
         self._unique_locs, self._first_locs = inverse_mapping, indices
         self.free_df = ftable
         self.free_df["theta_index"] = ftable["label"].map(label_to_ind)
@@ -535,7 +535,7 @@ class BaseModel:
         self.dfree_dgroup = {}
         self.free_to_group_free = {}
         for i in range(self.n_groups):
-            ix = self.free_df.loc[self.free_df["group"] == i, "theta_index"]
+            ix = np.flatnonzero(self.free_df["group"] == i)
             cols = ix
             nrows = len(ix)
             ncols = self.free_df.shape[0]
-- 
2.43.0


From 471490ca72e8d4646373f26d2879e76ac7ffa2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 113/199] fix: observed endogenous variables have no
 measurement error in the SEM templates

---
 pystatsm/pysem2/model_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pysem2/model_base.py b/pystatsm/pysem2/model_base.py
index 6356945..f6bc5c0 100644
--- a/pystatsm/pysem2/model_base.py
+++ b/pystatsm/pysem2/model_base.py
@@ -263,7 +263,7 @@ class ParameterMapping:
             elif i == 2:
                 mat_template = np.eye(mat_dims[i][0])
             elif i == 3:
-                inx = [ov_order[x] for x in var_names["onx"]]
+                inx = [ov_order[x] for x in var_names["obs"] - var_names["lav"]]
                 mat_template[inx, inx] = 1.0
             else:
                 mat_template = np.zeros(mat_dims[i])
-- 
2.43.0


From d98a7e89a0c6d64fbdbd824d5bc0f153f71db11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 114/199] fix: np.product was removed from numpy

---
 pystatsm/pylmm/glmm_mcmc.py  | 4 ++--
 pystatsm/pylmm/mlmm.py       | 2 +-
 pystatsm/pynmf/hfuncs.py     | 8 ++++----
 pystatsm/pysem/model_mats.py | 2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pystatsm/pylmm/glmm_mcmc.py b/pystatsm/pylmm/glmm_mcmc.py
index 622e0e3..cd9198a 100644
--- a/pystatsm/pylmm/glmm_mcmc.py
+++ b/pystatsm/pylmm/glmm_mcmc.py
@@ -616,12 +616,12 @@ class MixedMCMC(LMM):
         agg_samples = {}
         for name, ix in self.vnames.items():
             x = self.samples[:, burnin:, ix]
-            x = x.reshape(np.product(x.shape[:-1]), x.shape[-1])
+            x = x.reshape(np.prod(x.shape[:-1]), x.shape[-1])
             agg_samples[name] = x
 
         if 'u' in self.secondary_samples.keys():
             u = self.secondary_samples["u"][:, burnin:]
-            u = u.reshape(np.product(u.shape[:-1]), u.shape[-1])
+            u = u.reshape(np.prod(u.shape[:-1]), u.shape[-1])
         agg_samples['u'] = u
         return agg_samples
 
diff --git a/pystatsm/pylmm/mlmm.py b/pystatsm/pylmm/mlmm.py
index b3b0344..cc525d8 100644
--- a/pystatsm/pylmm/mlmm.py
+++ b/pystatsm/pylmm/mlmm.py
@@ -271,7 +271,7 @@ class MLMM:
         Rinv = self.update_rmat(theta, inverse=True).copy()
         R = self.update_rmat(theta, inverse=False).copy()
         M = self.update_mme(Ginv, Rinv)
-        if (M.nnz / np.product(M.shape) < 0.05) and use_sparse:
+        if (M.nnz / np.prod(M.shape) < 0.05) and use_sparse:
             L = cholesky(M.tocsc()).L().A
         else:
             L = np.linalg.cholesky(M.A)
diff --git a/pystatsm/pynmf/hfuncs.py b/pystatsm/pynmf/hfuncs.py
index 495f417..7bbe1a3 100644
--- a/pystatsm/pynmf/hfuncs.py
+++ b/pystatsm/pynmf/hfuncs.py
@@ -75,7 +75,7 @@ def conv2(A, B, mode='full'):
 
 def reconstruct(W, H):
     n, k, L = W.shape
-    t = int(np.product(H.shape[1:])) + 2 * L
+    t = int(np.prod(H.shape[1:])) + 2 * L
     H = np.pad(H, ((0, 0), (L, L)))
     X_hat = np.zeros((n, t))
     for tau in range(L):
@@ -85,7 +85,7 @@ def reconstruct(W, H):
     
 def seqnmf_objfunc(X, W, H):
     n, k, L = W.shape
-    t = int(np.product(H.shape[1:])) 
+    t = int(np.prod(H.shape[1:])) 
     X_hat = reconstruct(W, H)
     Sk = np.ones((1, 2*L-1))
     WtX = np.zeros((k, t))
@@ -296,7 +296,7 @@ class NMFSeq:
 #ax[1].plot(H2s.mean(axis=-1))
 #
 #fig, ax = plt.subplots(nrows=2, sharex=True)
-#ax[0].matshow(W1s.reshape(np.product(W1.shape[:2]), -1), aspect='auto')
-#ax[1].matshow(W2s.reshape(np.product(W2.shape[:2]), -1), aspect='auto')
+#ax[0].matshow(W1s.reshape(np.prod(W1.shape[:2]), -1), aspect='auto')
+#ax[1].matshow(W2s.reshape(np.prod(W2.shape[:2]), -1), aspect='auto')
 #
 #
diff --git a/pystatsm/pysem/model_mats.py b/pystatsm/pysem/model_mats.py
index d48e7b2..23421e9 100644
--- a/pystatsm/pysem/model_mats.py
+++ b/pystatsm/pysem/model_mats.py
@@ -75,7 +75,7 @@ class FlattenedIndicatorIndices(object):
             _size = triangular_number(shape[-1])
         else:
             v = _vec(array)
-            _size = np.product(shape[-2:])
+            _size = np.prod(shape[-2:])
         self._shape = shape
         self._size = _size
         self._symmetric = symmetric
-- 
2.43.0


From 27d145648c8a7aa8aff80749349f083d4735ca16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 115/199] fix: a variable that is both indicator and outcome
 takes one place in the latent ordering

---
 pystatsm/pysem/param_table.py        | 1 +
 pystatsm/pysem2/variable_ordering.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pystatsm/pysem/param_table.py b/pystatsm/pysem/param_table.py
index f0c1f98..b20369b 100644
--- a/pystatsm/pysem/param_table.py
+++ b/pystatsm/pysem/param_table.py
@@ -154,6 +154,7 @@ class BaseModel:
             key=_default_sort_key))
         u = set(g)
         g.extend(sorted(subset - u, key=_default_sort_key))
+        g = list(dict.fromkeys(g))  # an indicator may also be an endogenous variable
         return g
 
     @staticmethod
diff --git a/pystatsm/pysem2/variable_ordering.py b/pystatsm/pysem2/variable_ordering.py
index 17bbfee..7ba2395 100644
--- a/pystatsm/pysem2/variable_ordering.py
+++ b/pystatsm/pysem2/variable_ordering.py
@@ -48,6 +48,7 @@ class VariableOrder:
         g.extend(sorted(subset & var_names["nob"] - (var_names["nob"] & var_names["ind"]), key=_default_sort_key))
         u = set(g)
         g.extend(sorted(subset - u, key=_default_sort_key))
+        g = list(dict.fromkeys(g))  # an indicator may also be an endogenous variable
         return g
 
     @staticmethod
-- 
2.43.0


From 32e80a9db74f65be845eaaf6f248e52b1cb7afd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 116/199] fix: second derivative of the SEM means with respect
 to two regression coefficients has both orders of differentiation

---
 pystatsm/pysem/derivatives.py  | 2 +-
 pystatsm/pysem2/derivatives.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pysem/derivatives.py b/pystatsm/pysem/derivatives.py
index 00ee46b..54270df 100644
--- a/pystatsm/pysem/derivatives.py
+++ b/pystatsm/pysem/derivatives.py
@@ -86,7 +86,7 @@ def _d2sigma_mu(d2Sm, L, B, F, b, dA, m_size, m_type, d2_inds, vind, n, p2):
             dSij = LB.dot(t1 + t1.T + t3 + t4).dot(LB.T)
             d2Sm[:p2, i, j] += dSij.T.flatten()[vind]
             d2Sm[:p2, j, i] = d2Sm[:p2, i, j]
-            dmij = LB.dot(Ji).dot(B).dot(Jj).dot(Bb)
+            dmij = LB.dot(Ji.dot(B).dot(Jj) + Jj.dot(B).dot(Ji)).dot(Bb)
             d2Sm[p2:, i, j] += dmij.flatten()
             d2Sm[p2:, j, i] = d2Sm[p2:, i, j]
         elif kind == 5:
diff --git a/pystatsm/pysem2/derivatives.py b/pystatsm/pysem2/derivatives.py
index be669a9..10a4a56 100644
--- a/pystatsm/pysem2/derivatives.py
+++ b/pystatsm/pysem2/derivatives.py
@@ -81,7 +81,7 @@ def _d2sigma_mu(d2Sm, L, B, F, b, dA, m_size, m_type, d2_inds, vind, n, p2):
             dSij = LB.dot(t1 + t1.T + t3 + t4).dot(LB.T)
             d2Sm[:p2, i, j] += dSij.T.flatten()[vind]
             d2Sm[:p2, j, i] = d2Sm[:p2, i, j]
-            dmij = LB.dot(Ji).dot(B).dot(Jj).dot(Bb)
+            dmij = LB.dot(Ji.dot(B).dot(Jj) + Jj.dot(B).dot(Ji)).dot(Bb)
             d2Sm[p2:, i, j] += dmij.flatten()
             d2Sm[p2:, j, i] = d2Sm[p2:, i, j]
         elif kind == 5:
-- 
2.43.0


From 4918ef98d0e680346d67fa8e566c7a665dc630e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:12 +0000
Subject: [PATCH 117/199] fix: derivative of orthogonally rotated loadings
 solves for the rotation only (the full system can be singular)

---
 pystatsm/pyfa/rotation.py | 34 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/pystatsm/pyfa/rotation.py b/pystatsm/pyfa/rotation.py
index 0b86b43..8493c66 100644
--- a/pystatsm/pyfa/rotation.py
+++ b/pystatsm/pyfa/rotation.py
@@ -267,28 +267,18 @@ class GeneralizedCrawfordFerguson(RotationMethod):
         return J
 
     def dL_dA_Ortho(self, L, Phi):
-        AAt = np.dot(self.A, self.A.T)
-        B = L * L
-        k1, k2, k3, k4, p, m = self.k1, self.k2, self.k3, self.k4, self.p, self.m
-        Jm, Jp = np.ones((m, m)), np.ones((p, p))
-        Ip, Im, Kpm = np.eye(p), np.eye(m), kmat(p, m).toarray()
-        T1 = k1 * Jp.dot(B).dot(Jm)
-        T2 = k2 * (B).dot(Jm)
-        T3 = k3 * (Jp).dot(B)
-        T4 = k4 * B
-        Q = (T1 + T2 + T3 + T4) * L
-        V = vdg(L)
-        R1 = k1 * np.kron(Jm, Jp)
-        R2 = k2 * np.kron(Jm, Ip)
-        R3 = k3 * np.kron(Im, Jp)
-        R4 = k4 * V
-        D1 = V.dot(2.0 * (R1 + R2 + R3).dot(V) + 2.0 * R4)
-        D2 = vdg(T1 + T2 + T3 + T4)
-        Y = D1 + D2
-        Omega = np.kron(L.T, L).dot(Kpm) - np.kron(Im, AAt)
-        Xi = np.kron(L.T.dot(Q), Ip) + np.kron(Im, L.dot(Q.T))
-        Gamma = np.kron(Q.T.dot(self.A), Ip) + np.kron(Q.T, self.A).dot(Kpm)
-        G = np.linalg.solve(np.dot(Omega, Y) + Xi, Gamma)
+        # L = A T with T orthogonal, so dL = dA T + L K with K skew symmetric,
+        # and K is determined by the stationarity of the rotation criterion
+        p, m = self.p, self.m
+        T = np.linalg.lstsq(self.A, L, rcond=None)[0]
+        i, j = np.tril_indices(m, k=-1)
+        S = np.zeros((m * m, len(i)))
+        S[i + j * m, np.arange(len(i))] = 1.0
+        S[j + i * m, np.arange(len(i))] = -1.0
+        D0 = np.kron(T.T, np.eye(p))
+        N = np.kron(np.eye(m), L).dot(S)
+        J = np.asarray(self.dC_dL_Ortho(L, Phi))[i + j * m]
+        G = D0 - N.dot(np.linalg.solve(J.dot(N), J.dot(D0)))
         return G
 
     def dC_dL_Ortho(self, L, Phi):
-- 
2.43.0


From 3ee0e2078677a48eccf7731541b913a335598678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:31 +0000
Subject: [PATCH 118/199] fix: SEM: moments of observed predictors stated in
 the formula are not replaced by the sample moments

---
 pystatsm/pysem/param_table.py | 3 ++-
 pystatsm/pysem2/model_base.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pysem/param_table.py b/pystatsm/pysem/param_table.py
index b20369b..e89c83e 100644
--- a/pystatsm/pysem/param_table.py
+++ b/pystatsm/pysem/param_table.py
@@ -380,8 +380,9 @@ class BaseModel:
         lvx_vars = self.check_missing_covs(self.var_names["lvx"], fixed_df)
         is_cov = param_df["rel"] == "~~"
         is_reg = param_df["rel"] == "~"
+        is_default = (param_df["fixed"] == True) & param_df["mod"].isnull()
         for i in range(sample_stats.n_groups):
-            ix_group = param_df["group"] == i
+            ix_group = (param_df["group"] == i) & is_default
             covi = sample_stats.sample_cov_df[i]
             meani = sample_stats.sample_mean_df[i]
             for var in self.var_names["lox"]:
diff --git a/pystatsm/pysem2/model_base.py b/pystatsm/pysem2/model_base.py
index f6bc5c0..6cf1360 100644
--- a/pystatsm/pysem2/model_base.py
+++ b/pystatsm/pysem2/model_base.py
@@ -107,9 +107,9 @@ class FixedValueManager:
         pandas.DataFrame
             Updated DataFrame representing the parameter table.
         """
+        mask = mask & (param_df["fixed"] == True) & param_df["mod"].isnull()
         if np.any(mask):
             param_df.loc[mask, "fixedval"] = value
-            param_df.loc[mask, "fixed"] = True
         return param_df
 
     @staticmethod
-- 
2.43.0


From 9a9674f05e5e056953e963c6ba091b8d546af242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:54 +0000
Subject: [PATCH 119/199] fix: SEM: columns of the data that the model does not
 use no longer enter the objective

---
 pystatsm/pysem/model_data.py  | 5 +++++
 pystatsm/pysem2/model_data.py | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/pystatsm/pysem/model_data.py b/pystatsm/pysem/model_data.py
index 026c436..e1daf2e 100644
--- a/pystatsm/pysem/model_data.py
+++ b/pystatsm/pysem/model_data.py
@@ -44,11 +44,16 @@ class ModelData(object):
         if isinstance(variables, dict):
             variables = list(variables.keys())
 
+        if hasattr(self, "data_df"):
+            self.data_df = self.data_df.loc[:, variables]
+            self.data = self.data_df.values
         for i in range(self.n_groups):
             self.sample_cov_df[i] = self.sample_cov_df[i].loc[variables, variables]
             self.sample_mean_df[i] = self.sample_mean_df[i][variables]
             self.sample_cov[i] = self.sample_cov_df[i].values
             self.sample_mean[i] = self.sample_mean_df[i].values
+            lndS = np.linalg.slogdet(self.sample_cov[i])[1]
+            self.const[i] = -lndS - self.sample_cov[i].shape[0]
 
     @staticmethod
     def _convert_to_dict(data):
diff --git a/pystatsm/pysem2/model_data.py b/pystatsm/pysem2/model_data.py
index 61e946e..3d7e8e1 100644
--- a/pystatsm/pysem2/model_data.py
+++ b/pystatsm/pysem2/model_data.py
@@ -51,6 +51,8 @@ class ModelData(object):
             self.sample_mean_df[i] = self.sample_mean_df[i][variables]
             self.sample_cov[i] = self.sample_cov_df[i].values
             self.sample_mean[i] = self.sample_mean_df[i].values
+            lndS = np.linalg.slogdet(self.sample_cov[i])[1]
+            self.const[i] = -lndS - self.sample_cov[i].shape[0]
 
     @staticmethod
     def _convert_to_dict(data):
-- 
2.43.0


From ccb19a1c48c805956a3c8d841c388a8873e6f6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:54 +0000
Subject: [PATCH 120/199] fix: SEM: the lvx_cov and y_cov options take effect

---
 pystatsm/pysem2/model_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pysem2/model_builder.py b/pystatsm/pysem2/model_builder.py
index ff0d73e..88b1c8f 100644
--- a/pystatsm/pysem2/model_builder.py
+++ b/pystatsm/pysem2/model_builder.py
@@ -35,7 +35,7 @@ class ModelBuilder:
         """
         self.add_variances(fix_lv_cov=kwargs.get('fix_lv_var', False))
         self.fix_first(vars_to_fix=kwargs.get('fix_first', True))
-        self.add_covariances(lvx_cov=~kwargs.get('lvx_cov', False), y_cov=~kwargs.get('y_cov', True))
+        self.add_covariances(lvx_cov=kwargs.get('lvx_cov', True), y_cov=kwargs.get('y_cov', True))
         self.add_means(fix_lv_mean=kwargs.get('fix_lv_mean', True))
         self.add_latent_dummies()
         self.check_initital_loadings()
-- 
2.43.0


From 551db4a553d9f3e77b4dd5cb59a62ee1968de231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:54 +0000
Subject: [PATCH 121/199] fix: SEM: fix_first accepts False as documented

---
 pystatsm/pysem2/model_builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystatsm/pysem2/model_builder.py b/pystatsm/pysem2/model_builder.py
index 88b1c8f..51e7c79 100644
--- a/pystatsm/pysem2/model_builder.py
+++ b/pystatsm/pysem2/model_builder.py
@@ -286,6 +286,8 @@ class ModelBuilder:
         vnob = var_names["nob"]
         if vars_to_fix is None or vars_to_fix is True: #woof
             vars_to_fix = {v:True for v in vnob}
+        elif vars_to_fix is False:
+            vars_to_fix = {v:False for v in vnob}
         elif type(vars_to_fix) is not dict:
             raise ValueError("Expected dictionary or a a boolean")
         #else we have a dict
-- 
2.43.0


From 4f4fa3a02d6a2036e794224f8bd8719812ed23ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:54 +0000
Subject: [PATCH 122/199] fix: SEM: fixed latent variances have the value one

---
 pystatsm/pysem/param_table.py    | 1 +
 pystatsm/pysem2/model_builder.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pystatsm/pysem/param_table.py b/pystatsm/pysem/param_table.py
index e89c83e..0ee354f 100644
--- a/pystatsm/pysem/param_table.py
+++ b/pystatsm/pysem/param_table.py
@@ -242,6 +242,7 @@ class BaseModel:
                 row["fixed"] = True
             elif var in var_names["nob"] and fix_lv_cov:
                 row["fixed"] = True
+                row["fixedval"] = 1.0
             list_of_param_dicts.append(row)
         self.param_df = pd.DataFrame(list_of_param_dicts)
 
diff --git a/pystatsm/pysem2/model_builder.py b/pystatsm/pysem2/model_builder.py
index 51e7c79..ddffa0a 100644
--- a/pystatsm/pysem2/model_builder.py
+++ b/pystatsm/pysem2/model_builder.py
@@ -91,6 +91,7 @@ class ModelBuilder:
                 row["fixed"] = True
             elif var in var_names["nob"] and fix_lv_cov:
                 row["fixed"] = True
+                row["fixedval"] = 1.0
             else:
                 row["fixed"] = False
             list_of_param_dicts.append(row)
-- 
2.43.0


From 0f09cd70ae6d84780663f36a02ba90ba40083bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:33 +0000
Subject: [PATCH 123/199] fix: SEM: parameters sharing the label of a fixed
 marker loading take its value

---
 pystatsm/pysem/param_table.py    | 6 ++++++
 pystatsm/pysem2/model_builder.py | 9 +++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pysem/param_table.py b/pystatsm/pysem/param_table.py
index 0ee354f..d1ab30c 100644
--- a/pystatsm/pysem/param_table.py
+++ b/pystatsm/pysem/param_table.py
@@ -293,12 +293,18 @@ class BaseModel:
             param_df["lhs"].isin(var_names["nob"]))
         ltable = param_df.loc[ind1]
         ltable.groupby("lhs")
+        fixed_labels = set()
         for v in var_names["nob"]:
             ix = ltable["lhs"] == v
             if len(ltable.index[ix]) > 0:
                 if ~np.any(ltable.loc[ix, "fixed"]):
                     param_df.loc[ltable.index[ix][0], "fixed"] = True
                     param_df.loc[ltable.index[ix][0], "fixedval"] = 1.0
+                    fixed_labels.add(param_df.loc[ltable.index[ix][0], "label"])
+        # a parameter tied to the marker by its label has the marker's value
+        tied = param_df["label"].isin(fixed_labels) & ~param_df["label"].isnull()
+        param_df.loc[tied, "fixed"] = True
+        param_df.loc[tied, "fixedval"] = 1.0
         self.param_df = param_df
 
     @property
diff --git a/pystatsm/pysem2/model_builder.py b/pystatsm/pysem2/model_builder.py
index ddffa0a..1fbc2a2 100644
--- a/pystatsm/pysem2/model_builder.py
+++ b/pystatsm/pysem2/model_builder.py
@@ -27,7 +27,7 @@ class ModelBuilder:
         fix_lv_var : bool, optional
             whether to fix the latent variable variance to 1.0. Default is False.
         lvx_cov : bool, optional
-            whether to include covariances for all latent exogenous variables. Default is False.
+            whether to include covariances for all latent exogenous variables. Default is True.
         y_cov : bool, optional
             whether to include covariances for all observed variables. Default is True.
         fix_lv_mean : bool, optional
@@ -300,6 +300,7 @@ class ModelBuilder:
         ind1 = (param_df["rel"] == "=~") & (param_df["lhs"].isin(vnob))
         ltable = param_df.loc[ind1]
         ltable.groupby("lhs")
+        fixed_labels = set()
         for v in vnob:
             ix = ltable["lhs"] == v
             if vars_to_fix[v]:
@@ -307,7 +308,11 @@ class ModelBuilder:
                     if ~np.any(ltable.loc[ix, "fixed"]):
                         param_df.loc[ltable.index[ix][0], "fixed"] = True
                         param_df.loc[ltable.index[ix][0], "fixedval"] = 1.0
-                    
+                        fixed_labels.add(param_df.loc[ltable.index[ix][0], "label"])
+        # a parameter tied to the marker by its label has the marker's value
+        tied = param_df["label"].isin(fixed_labels) & ~param_df["label"].isnull()
+        param_df.loc[tied, "fixed"] = True
+        param_df.loc[tied, "fixedval"] = 1.0
         self.param_df = param_df
         
     def check_initital_loadings(self):
-- 
2.43.0


From e3c11604bb67ce2a3cf43958c980101ca7d1f781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 124/199] fix: SEM.fit works with its default arguments

---
 pystatsm/pysem2/sem.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pystatsm/pysem2/sem.py b/pystatsm/pysem2/sem.py
index 7f16f08..01cb04f 100644
--- a/pystatsm/pysem2/sem.py
+++ b/pystatsm/pysem2/sem.py
@@ -405,11 +405,9 @@ class SEM(ModelSpecification):
         else:
             hess = None
         theta = self.theta if theta_init is None else theta_init
-        if "method" in minimize_options:
-            if minimize_options["method"] == "trust-constr":
-                default_minimize_options = dict(initial_tr_radius=1.0, verbose=3)
-            else:
-                default_minimize_options = {}
+        method = "trust-constr" if minimize_kws is None else minimize_kws.get("method", "trust-constr")
+        if method == "trust-constr":
+            default_minimize_options = dict(initial_tr_radius=1.0, verbose=3)
         else:
             default_minimize_options = {}
         minimize_options = handle_default_kws(
-- 
2.43.0


From de6a03b7a1521230b02d130d9da5e55a3a604c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 125/199] fix: SEM chi-square p-value uses the degrees of
 freedom of the model

---
 pystatsm/pysem/sem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pysem/sem.py b/pystatsm/pysem/sem.py
index 17692b6..ec96dbd 100644
--- a/pystatsm/pysem/sem.py
+++ b/pystatsm/pysem/sem.py
@@ -477,7 +477,7 @@ class SEM:
         LLF = self.n_obs * LL + self.n_obs * self.p * np.log(2.0 * np.pi)
         fval =  LL - self.ldS - self.p
         Chi2 = (self.n_obs - 1) * fval
-        Chi2_pval = sp.stats.chi2(t).sf(Chi2)
+        Chi2_pval = sp.stats.chi2(df).sf(Chi2)
         GFI = 1.0 - np.trace((SV - self.Ip).dot(SV-self.Ip)) / np.trace(SV.dot(SV))
         if df!=0:
             AGFI = 1.0 - (self.df_cov / df) *  (1.0 - GFI)
-- 
2.43.0


From aea5ae21415c0bf71806a84f4e84cce89a28956c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 126/199] fix: SEM critical N at the 5 and 1 percent level were
 swapped

---
 pystatsm/pysem/sem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pysem/sem.py b/pystatsm/pysem/sem.py
index ec96dbd..b099dcb 100644
--- a/pystatsm/pysem/sem.py
+++ b/pystatsm/pysem/sem.py
@@ -487,7 +487,7 @@ class SEM:
             AGFI = np.nan
             Standardized_Chi2 = np.nan
             RMSEA = np.nan
-        CN01, CN05 = sp.stats.chi2(df).ppf([0.95, 0.99]) / fval + 1.0
+        CN05, CN01 = sp.stats.chi2(df).ppf([0.95, 0.99]) / fval + 1.0
 
         AIC = LLF + 2.0  * t
         BIC = LLF + np.log(self.n_obs) * t
-- 
2.43.0


From 68707d65b62db4105924a6a50e6b2154597c06e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 127/199] fix: SEM SRMR standardises the residuals by the
 standard deviations

---
 pystatsm/pysem/sem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pysem/sem.py b/pystatsm/pysem/sem.py
index b099dcb..895c9d5 100644
--- a/pystatsm/pysem/sem.py
+++ b/pystatsm/pysem/sem.py
@@ -494,7 +494,7 @@ class SEM:
         EVCI = LL + 2.0 * t / (self.n_obs - self.p - 2.0)
         resids = Sigma - self.S
         v = np.diag(np.sqrt(1.0 / np.diag(self.S)))
-        std_sq_resids = vech(v.dot(resids**2).dot(v))
+        std_sq_resids = vech(v.dot(resids).dot(v)**2)
         resids = vech(resids)
         
         RMR = np.sqrt(np.mean(resids**2))
-- 
2.43.0


From 0fb8e0e3c9818c552067b37d996ec3b33ed6df11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 128/199] fix: SEM labels of loadings and regressions follow
 the order of the parameters

---
 pystatsm/pysem/sem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pysem/sem.py b/pystatsm/pysem/sem.py
index 895c9d5..f76a770 100644
--- a/pystatsm/pysem/sem.py
+++ b/pystatsm/pysem/sem.py
@@ -118,10 +118,10 @@ class SEM:
                 
         ovn, svn = Lambda.index, Lambda.columns
         
-        ix1, ix2 = np.where(LAf)
+        ix2, ix1 = np.where(LAf.T)
         lambda_labels = [f"{x}<-{y}" for x,y in list(zip(ovn[ix1], svn[ix2]))]
         
-        ix1, ix2 = np.where(BEf)
+        ix2, ix1 = np.where(BEf.T)
         beta_labels = [f"{x}~{y}" for x,y in list(zip(svn[ix1], svn[ix2]))]
         
         ix1, ix2 = [], []
-- 
2.43.0


From 184e8c46aa75968bdf00c1313c01c6a7407fb024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:05 +0000
Subject: [PATCH 129/199] fix: SEM: variances stated in the formula start at
 one instead of at a singular zero

---
 pystatsm/pysem/param_table.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pystatsm/pysem/param_table.py b/pystatsm/pysem/param_table.py
index d1ab30c..a05262a 100644
--- a/pystatsm/pysem/param_table.py
+++ b/pystatsm/pysem/param_table.py
@@ -245,6 +245,12 @@ class BaseModel:
                 row["fixedval"] = 1.0
             list_of_param_dicts.append(row)
         self.param_df = pd.DataFrame(list_of_param_dicts)
+        if "start" in self.param_df:
+            # variances stated in the formula start where the default ones do
+            param_df = self.param_df
+            ix = ((param_df["lhs"] == param_df["rhs"]) & (param_df["rel"] == "~~")
+                  & param_df["start"].isnull())
+            param_df.loc[ix, "start"] = 1.0
 
     def add_covariances(self, lvx_cov=True, y_cov=True):
         var_names, param_df = self.var_names, self.param_df
-- 
2.43.0


From a83ae63b226dde10e8e2cbe6f7532d4b8f4b0387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:53 +0000
Subject: [PATCH 130/199] fix: bivariate normal functions accept integers and
 arguments of different shapes (the compiled loop read out of bounds)

---
 pystatsm/pylvcorr/statfuncs.py   | 6 ++++--
 pystatsm/utilities/func_utils.py | 9 ++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/pystatsm/pylvcorr/statfuncs.py b/pystatsm/pylvcorr/statfuncs.py
index 112a30c..a879ee3 100644
--- a/pystatsm/pylvcorr/statfuncs.py
+++ b/pystatsm/pylvcorr/statfuncs.py
@@ -277,7 +277,8 @@ def binorm_cdf(h, k, r):
         ret_float = False
     if np.ndim(r)>0:
         r = r[0]
-    h, k = np.atleast_1d(h), np.atleast_1d(k)
+    h, k = np.broadcast_arrays(np.atleast_1d(h), np.atleast_1d(k))
+    h, k = np.array(h, dtype=float), np.array(k, dtype=float)
     pr = _binorm_cdf_arr(h, k, r)
     if ret_float:
         pr = pr[0]
@@ -290,7 +291,8 @@ def binorm_pdf(h, k, r):
         ret_float = False
     if np.ndim(r)>0:
         r = r[0]
-    h, k = np.atleast_1d(h), np.atleast_1d(k)
+    h, k = np.broadcast_arrays(np.atleast_1d(h), np.atleast_1d(k))
+    h, k = np.array(h, dtype=float), np.array(k, dtype=float)
     p = _binorm_pdf_arr(h, k, r)
     if ret_float:
         p = p[0]
diff --git a/pystatsm/utilities/func_utils.py b/pystatsm/utilities/func_utils.py
index 3be3838..4bb72bb 100644
--- a/pystatsm/utilities/func_utils.py
+++ b/pystatsm/utilities/func_utils.py
@@ -809,7 +809,8 @@ def binorm_cdf(h, k, r):
         ret_float = False
     if np.ndim(r)>0:
         r = r[0]
-    h, k = np.atleast_1d(h), np.atleast_1d(k)
+    h, k = np.broadcast_arrays(np.atleast_1d(h), np.atleast_1d(k))
+    h, k = np.array(h, dtype=float), np.array(k, dtype=float)
     pr = _binorm_cdf_arr(h, k, r)
     if ret_float:
         pr = pr[0]
@@ -849,7 +850,8 @@ def binorm_pdf(h, k, r):
         ret_float = False
     if np.ndim(r)>0:
         r = r[0]
-    h, k = np.atleast_1d(h), np.atleast_1d(k)
+    h, k = np.broadcast_arrays(np.atleast_1d(h), np.atleast_1d(k))
+    h, k = np.array(h, dtype=float), np.array(k, dtype=float)
     p = _binorm_pdf_arr(h, k, r)
     if ret_float:
         p = p[0]
@@ -890,7 +892,8 @@ def binorm_cdf_region(lower, upper, r):
                   np.atleast_1d(lower[0]), np.atleast_1d(lower[0])])
     k = np.stack([np.atleast_1d(upper[1]), np.atleast_1d(lower[1]),
                   np.atleast_1d(upper[1]), np.atleast_1d(lower[1])])
-    p = _binorm_cdf_arr(h, k, r)
+    h, k = np.broadcast_arrays(h, k)
+    p = _binorm_cdf_arr(np.array(h, dtype=float), np.array(k, dtype=float), r)
     pr = p[0] - p[1] - p[2] + p[3]
     if np.ndim(upper[0]) == 0:
         pr = pr[0]
-- 
2.43.0


From 10671f5f947ae00b54fc6cbcff11343638f52844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:53 +0000
Subject: [PATCH 131/199] fix: bivariate normal distribution function is
 accurate for correlations near one

---
 pystatsm/pylvcorr/statfuncs.py   | 26 ++++++++++++++++----------
 pystatsm/utilities/func_utils.py | 14 +++++++++-----
 2 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/pystatsm/pylvcorr/statfuncs.py b/pystatsm/pylvcorr/statfuncs.py
index a879ee3..5db7c32 100644
--- a/pystatsm/pylvcorr/statfuncs.py
+++ b/pystatsm/pylvcorr/statfuncs.py
@@ -144,7 +144,8 @@ def binorm_l(h, k, r):
 
 @numba.jit(nopython=True)
 def binorm_l2_jit(h, k, r):
-    r2 = r/2.0
+    # Integrate over the angle asin(r), where the integrand has no singularity
+    a2 = np.arcsin(r) / 2.0
     
     weights = np.array(
         [[1,  0.0494723666239310, 0.0000000000000000],
@@ -180,21 +181,24 @@ def binorm_l2_jit(h, k, r):
          [31, 0.0042785083468638, 0.9962240127779701],
          [32, 0.0018398745955771, 0.9992829840291237]])
     
-    gsum = weights[0, 1] * binorm_dl_jit(h, k, (1.0 + weights[0, 2]) * r2)
+    x = np.sin((1.0 + weights[0, 2]) * a2)
+    gsum = weights[0, 1] * binorm_dl_jit(h, k, x) * np.sqrt(1.0 - x**2)
     for i in range(1, 32):
         w = weights[i, 1]
         root = weights[i, 2]
-        eq1 = w * binorm_dl_jit(h, k, (1-root) * r2)
-        eq2 = w * binorm_dl_jit(h, k, (1+root) * r2)
+        x1, x2 = np.sin((1-root) * a2), np.sin((1+root) * a2)
+        eq1 = w * binorm_dl_jit(h, k, x1) * np.sqrt(1.0 - x1**2)
+        eq2 = w * binorm_dl_jit(h, k, x2) * np.sqrt(1.0 - x2**2)
         eq = eq1 + eq2
         gsum += eq
         
-    likelihood = r2 * (gsum)
+    likelihood = a2 * (gsum)
     likelihood += norm_cdf_jit(-h) * norm_cdf_jit(-k)
     return likelihood
 
 def binorm_l2(h, k, r):
-    r2 = r/2.0
+    # Integrate over the angle asin(r), where the integrand has no singularity
+    a2 = np.arcsin(r) / 2.0
     
     weights = np.array(
         [[1,  0.0494723666239310, 0.0000000000000000],
@@ -230,16 +234,18 @@ def binorm_l2(h, k, r):
          [31, 0.0042785083468638, 0.9962240127779701],
          [32, 0.0018398745955771, 0.9992829840291237]])
     
-    gsum = weights[0, 1] * binorm_dl(h, k, (1.0 + weights[0, 2]) * r2)
+    x = np.sin((1.0 + weights[0, 2]) * a2)
+    gsum = weights[0, 1] * binorm_dl(h, k, x) * np.sqrt(1.0 - x**2)
     for i in range(1, 32):
         w = weights[i, 1]
         root = weights[i, 2]
-        eq1 = w * binorm_dl(h, k, (1-root) * r2)
-        eq2 = w * binorm_dl(h, k, (1+root) * r2)
+        x1, x2 = np.sin((1-root) * a2), np.sin((1+root) * a2)
+        eq1 = w * binorm_dl(h, k, x1) * np.sqrt(1.0 - x1**2)
+        eq2 = w * binorm_dl(h, k, x2) * np.sqrt(1.0 - x2**2)
         eq = eq1 + eq2
         gsum += eq
         
-    likelihood = r2 * (gsum)
+    likelihood = a2 * (gsum)
     likelihood += norm_cdf(-h) * norm_cdf(-k)
     return likelihood
 
diff --git a/pystatsm/utilities/func_utils.py b/pystatsm/utilities/func_utils.py
index 4bb72bb..97d32b9 100644
--- a/pystatsm/utilities/func_utils.py
+++ b/pystatsm/utilities/func_utils.py
@@ -680,14 +680,18 @@ def binorm_l2_jit(h, k, r):
          The value of the bivariate normal distribution function at the 
          specified `h` and `k` values, and the given correlation coefficient `r`.
      """
-    r2 = r / 2.0
-    gsum = _GL32_W[0] * binorm_dl_jit(h, k, (1.0 + _GL32_X[0]) * r2)
+    # Integrate over the angle asin(r), where the integrand has no singularity
+    a2 = np.arcsin(r) / 2.0
+    x = np.sin((1.0 + _GL32_X[0]) * a2)
+    gsum = _GL32_W[0] * binorm_dl_jit(h, k, x) * np.sqrt(1.0 - x**2)
     for i in range(1, 32):
         w = _GL32_W[i]
         root = _GL32_X[i]
-        gsum += w * binorm_dl_jit(h, k, (1.0 - root) * r2)
-        gsum += w * binorm_dl_jit(h, k, (1.0 + root) * r2)
-    likelihood = r2 * gsum
+        x = np.sin((1.0 - root) * a2)
+        gsum += w * binorm_dl_jit(h, k, x) * np.sqrt(1.0 - x**2)
+        x = np.sin((1.0 + root) * a2)
+        gsum += w * binorm_dl_jit(h, k, x) * np.sqrt(1.0 - x**2)
+    likelihood = a2 * gsum
     likelihood += norm_cdf_jit(-h) * norm_cdf_jit(-k)
     return likelihood
 
-- 
2.43.0


From 8513b7dc2788c030b548d405847ef8f5f4b62801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 132/199] fix: Polyserial standardises the continuous variable,
 whose latent scale is the standard normal

---
 pystatsm/pylvcorr/lvcorr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/pylvcorr/lvcorr.py b/pystatsm/pylvcorr/lvcorr.py
index 3896a13..64f806b 100644
--- a/pystatsm/pylvcorr/lvcorr.py
+++ b/pystatsm/pylvcorr/lvcorr.py
@@ -291,6 +291,7 @@ class Polyserial:
             else:
                 y = _check_np(y)
         
+        x = (x - np.mean(x)) / np.std(x)
         order = dict(zip(np.unique(y), np.unique(y).argsort()))
         marginal_counts = np.array([np.sum(y==z) for z in np.unique(y)]).astype(float)
         tau_arr = norm_qtf(marginal_counts.cumsum()/marginal_counts.sum())
-- 
2.43.0


From f1504286160440d5cc3f48ae105336916b1ae2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 133/199] fix: Polychoric leaves missing values out of
 thresholds and starting values

---
 pystatsm/pylvcorr/lvcorr.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pylvcorr/lvcorr.py b/pystatsm/pylvcorr/lvcorr.py
index 64f806b..107e48d 100644
--- a/pystatsm/pylvcorr/lvcorr.py
+++ b/pystatsm/pylvcorr/lvcorr.py
@@ -424,7 +424,7 @@ class Polychoric(object):
     def __init__(self, data):
         X = data.values
         n, p = X.shape
-        N_cats = np.array([len(np.unique(X[:, i])) for i in range(p)]).astype(int)
+        N_cats = np.array([len(np.unique(X[~np.isnan(X[:, i]), i])) for i in range(p)]).astype(int)
         Thresholds = {}
         for i in range(p):
             Thresholds[i] = self._get_threshold(X[:, i], outer=True)
@@ -441,7 +441,8 @@ class Polychoric(object):
                                                             Thresholds[i],
                                                             Thresholds[j]
                                                             )
-            rho_inits[ii] = corr(X[:,i], X[:, j])
+            not_nan = ~(np.isnan(X[:, i]) | np.isnan(X[:, j]))
+            rho_inits[ii] = corr(X[not_nan, i], X[not_nan, j])
             
             
         
@@ -457,7 +458,7 @@ class Polychoric(object):
         self.XThresholds, self.Xtab = XThresholds, Xtab
         
     def _get_threshold(self, x, outer=True):
-        vals, counts = np.unique(x, return_counts=True)
+        vals, counts = np.unique(x[~np.isnan(x)], return_counts=True)
         t_inner = sp.special.ndtri(np.cumsum(counts)[:-1] / np.sum(counts))
         if outer:
             t = np.r_[-1e6, t_inner, 1e6]
-- 
2.43.0


From 8ca901e55baed8a1111ca6009dad38504aa82ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:24 +0000
Subject: [PATCH 134/199] fix: polychoric pair and polyserial fits work in
 Fisher's scale, the bounded search stalled at the starting value for strong
 correlations

---
 pystatsm/pylvcorr/lvcorr.py | 38 +++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/pystatsm/pylvcorr/lvcorr.py b/pystatsm/pylvcorr/lvcorr.py
index 107e48d..c99e521 100644
--- a/pystatsm/pylvcorr/lvcorr.py
+++ b/pystatsm/pylvcorr/lvcorr.py
@@ -219,13 +219,22 @@ class _Polychor(object):
         default_opt_kws = dict(method='trust-constr')
         opt_kws = {} if opt_kws is None else opt_kws
         opt_kws = {**default_opt_kws, **opt_kws}
-        bounds =[(-1.0+1e-16, 1.0-1e-16)]
-        x0 = self.rho_init
-        opt = sp.optimize.minimize(self.loglike, x0, jac=self.gradient,
-                                   hess=self.hessian, bounds = bounds,
-                                   **opt_kws)
+        def func(z):
+            return self.loglike(np.tanh(z[0]))
+
+        def grad(z):
+            r = np.tanh(z[0])
+            return np.atleast_1d(self.gradient(r) * (1.0 - r**2))
+
+        def hess(z):
+            r = np.tanh(z[0])
+            H = self.hessian(r) * (1.0 - r**2)**2 - 2.0 * r * grad(z)
+            return np.atleast_2d(H)
+
+        x0 = np.arctanh(self.rho_init)
+        opt = sp.optimize.minimize(func, x0, jac=grad, hess=hess, **opt_kws)
         self.optimizer = opt
-        self.rho_hat = opt.x[0]
+        self.rho_hat = np.tanh(opt.x[0])
         self.observed_information = self.hessian(self.rho_hat)
         self.se_rho = np.sqrt(1.0 / self.observed_information)
 
@@ -405,14 +414,19 @@ class Polyserial:
         verbose : int
              The verbosity of the otpimizer
         """
-        bounds =[(-1.0+1e-16, 1.0-1e-16)]
-        x0 = np.atleast_1d(np.corrcoef(self.x, self.y)[0, 1])
-        opt = sp.optimize.minimize(self.loglike, x0, jac=self.gradient,
+        def func(z):
+            return self.loglike(np.tanh(z[0]))
+
+        def grad(z):
+            r = np.tanh(z[0])
+            return np.atleast_1d(self.gradient(r) * (1.0 - r**2))
+
+        x0 = np.arctanh(np.atleast_1d(np.corrcoef(self.x, self.y)[0, 1]))
+        opt = sp.optimize.minimize(func, x0, jac=grad,
                                    options=dict(verbose=verbose),
-                                   method='trust-constr',
-                                   bounds = bounds)
+                                   method='trust-constr')
         self.optimizer = opt
-        self.rho_hat = opt.x[0]
+        self.rho_hat = np.tanh(opt.x[0])
         self.observed_information = self.hessian(self.rho_hat)
         self.se_rho = np.sqrt(1.0 / self.observed_information)
 
-- 
2.43.0


From 4a91a9bf8f25d23bfd8e92b36e89f038e7764ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:05 +0000
Subject: [PATCH 135/199] fix: Huber and RobustLM use the tuning constant they
 are given

---
 pystatsm/pyrobust/m_estimators.py | 2 +-
 pystatsm/pyrobust/rls.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyrobust/m_estimators.py b/pystatsm/pyrobust/m_estimators.py
index 6c00a6d..838acb9 100644
--- a/pystatsm/pyrobust/m_estimators.py
+++ b/pystatsm/pyrobust/m_estimators.py
@@ -86,7 +86,7 @@ class MEstimator(object):
 class Huber(MEstimator):
     
     def __init__(self, c=1.345):
-        self.c = 1.345
+        self.c = c
 
         
     def rho(self, x, c=None):
diff --git a/pystatsm/pyrobust/rls.py b/pystatsm/pyrobust/rls.py
index 5f7800e..ccf548f 100644
--- a/pystatsm/pyrobust/rls.py
+++ b/pystatsm/pyrobust/rls.py
@@ -33,7 +33,7 @@ class RobustLM:
         scale_init = np.log(mad(self.y - self.X.dot(beta_init)))
         self.theta_init = np.r_[beta_init, scale_init]
         self.a = 0.5
-        self.f = Huber()
+        self.f = Huber(c)
 
         
     def _update_y(self, y):
-- 
2.43.0


From 9d39b75411fed300830bb37d26ca707039e8d2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:05 +0000
Subject: [PATCH 136/199] fix: M-estimator E_psi integrates the influence
 function instead of the loss

---
 pystatsm/pyrobust/m_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyrobust/m_estimators.py b/pystatsm/pyrobust/m_estimators.py
index 838acb9..810e17c 100644
--- a/pystatsm/pyrobust/m_estimators.py
+++ b/pystatsm/pyrobust/m_estimators.py
@@ -26,7 +26,7 @@ class MEstimator(object):
         return self._normal_ev(f)
     
     def E_psi(self, c=None):
-        f = lambda x: self.rho(x, c) * norm_pdf(x)
+        f = lambda x: self.psi(x, c) * norm_pdf(x)
         return self._normal_ev(f)
         
     def E_phi(self, c=None):
-- 
2.43.0


From 36a01fcc5ace4d1363064853730ff2f576ada8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:05 +0000
Subject: [PATCH 137/199] fix: M-estimator functions of integers are not
 truncated to integers

---
 pystatsm/pyrobust/m_estimators.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pystatsm/pyrobust/m_estimators.py b/pystatsm/pyrobust/m_estimators.py
index 810e17c..8546925 100644
--- a/pystatsm/pyrobust/m_estimators.py
+++ b/pystatsm/pyrobust/m_estimators.py
@@ -91,7 +91,7 @@ class Huber(MEstimator):
         
     def rho(self, x, c=None):
         c = self.c if c is None else c
-        x = np.asarray(x)
+        x = np.asarray(x, dtype=float)
         abs_x = np.abs(x)
         ix = abs_x <= c
         y = np.zeros_like(x)
@@ -101,7 +101,7 @@ class Huber(MEstimator):
     
     def psi(self, x, c=None):
         c = self.c if c is None else c
-        x = np.asarray(x)
+        x = np.asarray(x, dtype=float)
         abs_x = np.abs(x)
         ix = abs_x <= c
         y = np.zeros_like(x)
@@ -111,7 +111,7 @@ class Huber(MEstimator):
     
     def phi(self, x, c=None):
         c = self.c if c is None else c
-        x = np.asarray(x)
+        x = np.asarray(x, dtype=float)
         abs_x = np.abs(x)
         ix = abs_x <= c
         y = np.zeros_like(x)
@@ -120,7 +120,7 @@ class Huber(MEstimator):
     
     def weights(self, x, c=None):
         c = self.c if c is None else c
-        x = np.asarray(x)
+        x = np.asarray(x, dtype=float)
         abs_x = np.abs(x)
         ix = abs_x <= c
         y = np.zeros_like(x)
@@ -163,7 +163,7 @@ class Bisquare(MEstimator):
         self.c = c
     
     def rho(self, x, c=None):
-        x = np.atleast_1d(x)
+        x = np.atleast_1d(np.asarray(x, dtype=float))
         c = self.c if c is None else c
         abs_x = np.abs(x)
         ix = abs_x <= c
@@ -176,7 +176,7 @@ class Bisquare(MEstimator):
         return y
         
     def psi(self, x, c=None):
-        x = np.asarray(x)
+        x = np.asarray(x, dtype=float)
         c = self.c if c is None else c
         abs_x = np.abs(x)
         ix = abs_x <= c
@@ -187,7 +187,7 @@ class Bisquare(MEstimator):
         return y
 
     def phi(self, x, c=None):
-        x = np.asarray(x)
+        x = np.asarray(x, dtype=float)
         c = self.c if c is None else c
         abs_x = np.abs(x)
         ix = abs_x <= c
@@ -198,7 +198,7 @@ class Bisquare(MEstimator):
         return y
         
     def weights(self, x, c=None):
-        x = np.asarray(x)
+        x = np.asarray(x, dtype=float)
         c = self.c if c is None else c
         abs_x = np.abs(x)
         ix = abs_x <= c
-- 
2.43.0


From 4dadc4e6d8873ab3385d4c49952882209c8565a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:05 +0000
Subject: [PATCH 138/199] fix: simultaneous M-estimates of location and scale
 called methods no estimator has

---
 pystatsm/pyrobust/m_estimators.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyrobust/m_estimators.py b/pystatsm/pyrobust/m_estimators.py
index 8546925..aba85e2 100644
--- a/pystatsm/pyrobust/m_estimators.py
+++ b/pystatsm/pyrobust/m_estimators.py
@@ -223,7 +223,7 @@ def estimate_simultaneous(x, func=Huber(), d=0.5, n_iters=200, tol=1e-6,
    
     mu, sd = np.median(x, axis=0), dispersion_est(x)
     r = (x - mu) / sd
-    f_prev = func.rho_func(r).sum()
+    f_prev = func.rho(r).sum()
     
     mu_vec = np.zeros(n_iters)
     sd_vec = np.ones(n_iters)
@@ -235,15 +235,14 @@ def estimate_simultaneous(x, func=Huber(), d=0.5, n_iters=200, tol=1e-6,
     
     for i in range(n_iters):
         w_mu = func.weights(r)
-        w_sd =func.scale_weights(r)
         
         mu = np.sum((w_mu * x)) / np.sum(w_mu)
-        sd = np.sqrt((sd**2) / (d * n) * np.sum(w_sd * r**2))
+        sd = np.sqrt((sd**2) / (d * n) * np.sum(func.rho(r)))
         mu_vec[i] = mu
         sd_vec[i] = sd
         r = (x - mu) / sd
         
-        f_new = func.rho_func(r).sum()
+        f_new = func.rho(r).sum()
         fvals[i] = f_new
         if np.abs(f_new - f_prev)<tol:
             break
-- 
2.43.0


From 92d59b136bfc306e575cd530d3f86cf30a5c9a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:05 +0000
Subject: [PATCH 139/199] fix: robust regression IRLS solves the estimating
 equation (weights were rooted twice) and its proposal-2 scale works

---
 pystatsm/pyrobust/rls.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyrobust/rls.py b/pystatsm/pyrobust/rls.py
index ccf548f..5b77714 100644
--- a/pystatsm/pyrobust/rls.py
+++ b/pystatsm/pyrobust/rls.py
@@ -116,10 +116,10 @@ class RobustLM:
             if scale == "mad":
                 s = mad(r)
             else:
-                v = (u * self.f.psi(u) -  self.f.rho(u)) * s**2
-                s = np.sqrt(np.sum(v) / ((self.n_obs - self.n_var) * self.E_psi2))
+                v = 2.0 * (u * self.f.psi(u) -  self.f.rho(u)) * s**2
+                s = np.sqrt(np.sum(v) / ((self.n_obs - self.n_var) * self.f.E_psi2()))
             u = r /s
-            w = np.sqrt(self.f.psi(u) / u)
+            w = self.f.weights(u)
             b_new = nwls(self.X, self.y, w)
             r_new = self.y - self.X.dot(b_new)
             
-- 
2.43.0


From 81283a10033602262ee362d48c630aa706935620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:05 +0000
Subject: [PATCH 140/199] fix: robust regression standard errors use scaled
 residuals

---
 pystatsm/pyrobust/rls.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyrobust/rls.py b/pystatsm/pyrobust/rls.py
index 5b77714..4b0304c 100644
--- a/pystatsm/pyrobust/rls.py
+++ b/pystatsm/pyrobust/rls.py
@@ -145,8 +145,8 @@ class RobustLM:
         self.scale = np.exp(self.theta[-1])
         self.resids = self.y - self.X.dot(self.beta)
         
-        self.psi_r = self.f.psi(self.resids)
-        self.phi_r = self.f.phi(self.resids)
+        self.psi_r = self.f.psi(self.resids / self.scale) * self.scale
+        self.phi_r = self.f.phi(self.resids / self.scale)
         
         self.dfe = (self.n_obs-self.n_var)
         
@@ -185,7 +185,7 @@ class RobustLM:
         self._rho_yh = np.sum(self.f.rho(self.resids / self.scale))
         self.rsquared = (self._rho_mu - self._rho_yh) / self._rho_mu
         self.deviance = 2.0 * self.scale**2 * self._rho_yh
-        self.pdim = 2.0 * self.E_psi_sq / self.E_phi
+        self.pdim = 2.0 * self.E_psi_sq / self.E_phi / self.scale**2
         self.aicr = 2.0 * self._rho_yh + self.pdim * self.n_var
         self.bicr = 2.0 * self._rho_yh + np.log(self.n_obs) * self.n_var
         self.sumstats = pd.DataFrame(np.array([self.rsquared,
-- 
2.43.0


From 8c096025f031ceb7b288b54355f7cd3ba3ccca1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:05 +0000
Subject: [PATCH 141/199] fix: Qn is the k-th order statistic of the pairwise
 distances, k = C(n//2+1, 2)

---
 pystatsm/pyrobust/dispersion_estimators.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pystatsm/pyrobust/dispersion_estimators.py b/pystatsm/pyrobust/dispersion_estimators.py
index 1125479..1e589a0 100644
--- a/pystatsm/pyrobust/dispersion_estimators.py
+++ b/pystatsm/pyrobust/dispersion_estimators.py
@@ -107,9 +107,9 @@ def qn_estimator(x, corrected=True, *args):
     n = len(x)
     a, b = np.tril_indices(n, -1)
     m = np.fabs(x[a] - x[b])
-    h = np.ceil(n / 2) + 1
-    k = int((h * (h - 1)) / 2)
-    m = m[np.argsort(m)[k]]
+    h = n // 2 + 1
+    k = (h * (h - 1)) // 2
+    m = np.sort(m)[k - 1]
     if corrected:
         m = m*PHI58
     return m
@@ -117,10 +117,10 @@ def qn_estimator(x, corrected=True, *args):
 
 def qn_estimator2(x, corrected=True):
     n = len(x)
-    m = vech(np.fabs(np.subtract.outer(x, x)))
-    h = np.ceil(n / 2) + 1
-    k = int((h * (h - 1)) / 2)
-    m = m[np.argsort(m)[k]]
+    m = np.fabs(np.subtract.outer(x, x))[np.tril_indices(n, -1)]
+    h = n // 2 + 1
+    k = (h * (h - 1)) // 2
+    m = np.sort(m)[k - 1]
     if corrected:
         m = m*PHI58
     return m
-- 
2.43.0


From 001acba9387b8ae180696e67acf73d0c48358046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:56 +0000
Subject: [PATCH 142/199] fix: S-estimation starts from the scale of the
 residuals, not its logarithm (singular weights)

---
 pystatsm/pyrobust/rls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyrobust/rls.py b/pystatsm/pyrobust/rls.py
index 4b0304c..d3e5765 100644
--- a/pystatsm/pyrobust/rls.py
+++ b/pystatsm/pyrobust/rls.py
@@ -211,7 +211,7 @@ class RobustSLM:
         self.n_obs, self.n_var = self.X.shape
         
         self.beta_init = lsqr(self.X, self.y)
-        self.scale_init = np.log(mad(self.y - self.X.dot(self.beta_init)))
+        self.scale_init = mad(self.y - self.X.dot(self.beta_init))
         self.f = Bisquare(c=c)
     
     def _s_est_eq(self, r, s, bd=0.5):
-- 
2.43.0


From 30df73fc28bfbee295d4f0bedc055b4c74485312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:30 +0000
Subject: [PATCH 143/199] fix: starting scale of S-estimation steps is measured
 around zero, residuals far off zero gave singular weights

---
 pystatsm/pyrobust/m_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyrobust/m_estimators.py b/pystatsm/pyrobust/m_estimators.py
index aba85e2..cf3e816 100644
--- a/pystatsm/pyrobust/m_estimators.py
+++ b/pystatsm/pyrobust/m_estimators.py
@@ -63,7 +63,7 @@ class MEstimator(object):
     
     def irls_step(self, X, y,  beta, scale=None, bd=0.5, n_iters=50, tol=1e-12):
         r = y - X.dot(beta)
-        scale = mad(r) if scale is None else scale
+        scale = np.median(np.abs(r)) / QTF75 if scale is None else scale
         for i in range(n_iters):
             ss = np.mean(self.rho(r / scale)) / bd
             scale = np.sqrt(scale**2 * ss)
-- 
2.43.0


From f6aee108226e30eff194610111b8debf36702688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:28 +0000
Subject: [PATCH 144/199] fix: starting scale of the S-estimator is measured
 around zero

---
 pystatsm/pyrobust/rls.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyrobust/rls.py b/pystatsm/pyrobust/rls.py
index d3e5765..d7d3791 100644
--- a/pystatsm/pyrobust/rls.py
+++ b/pystatsm/pyrobust/rls.py
@@ -14,7 +14,7 @@ from ..utilities.data_utils import _check_type, _check_shape
 from ..utilities.linalg_operations import lsqr, nwls
 from .dispersion_estimators import mad
 
-from .m_estimators import (Huber, Bisquare) # analysis:ignore
+from .m_estimators import (Huber, Bisquare, QTF75) # analysis:ignore
 
 
 
@@ -211,7 +211,7 @@ class RobustSLM:
         self.n_obs, self.n_var = self.X.shape
         
         self.beta_init = lsqr(self.X, self.y)
-        self.scale_init = mad(self.y - self.X.dot(self.beta_init))
+        self.scale_init = np.median(np.abs(self.y - self.X.dot(self.beta_init))) / QTF75
         self.f = Bisquare(c=c)
     
     def _s_est_eq(self, r, s, bd=0.5):
-- 
2.43.0


From eaec41cb9dbb4c87e97cb887b0bcd2e2fb7f84c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:04 +0000
Subject: [PATCH 145/199] fix: sample designs with categorical strata or
 clusters do not count unobserved combinations

---
 pystatsm/utilities/complexdesign/sample_design.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pystatsm/utilities/complexdesign/sample_design.py b/pystatsm/utilities/complexdesign/sample_design.py
index da9d63b..000245d 100644
--- a/pystatsm/utilities/complexdesign/sample_design.py
+++ b/pystatsm/utilities/complexdesign/sample_design.py
@@ -46,16 +46,16 @@ def _ensure_columns(df, strata, psuind):
 
 
 def _has_singletons(df, strata, psuind):
-    sizes = df.groupby([strata, psuind]).size()
-    return bool((sizes.groupby(strata).size() == 1).any())
+    sizes = df.groupby([strata, psuind], observed=True).size()
+    return bool((sizes.groupby(strata, observed=True).size() == 1).any())
 
 
 def _aggregate_singletons(df, strata, psuind):
     # Each stratum that has exactly one PSU gets folded into a single new
     # stratum, with its sole PSU re-numbered 0..k-1 to guarantee no collision
     # with existing PSU ids in the new stratum.
-    sizes = df.groupby([strata, psuind]).size()
-    n_psu_per_str = sizes.groupby(strata).size()
+    sizes = df.groupby([strata, psuind], observed=True).size()
+    n_psu_per_str = sizes.groupby(strata, observed=True).size()
     singletons = n_psu_per_str[n_psu_per_str == 1].index
     if len(singletons) == 0:
         return df
@@ -69,8 +69,8 @@ def _aggregate_singletons(df, strata, psuind):
 
 
 def _build_layout(df, strata, psuind, fpc):
-    sizes = df.groupby([strata, psuind]).size().reset_index(name="n")
-    n_psu_per_str = sizes.groupby(strata).size().to_numpy(dtype=np.int64)
+    sizes = df.groupby([strata, psuind], observed=True).size().reset_index(name="n")
+    n_psu_per_str = sizes.groupby(strata, observed=True).size().to_numpy(dtype=np.int64)
     n_psu_obs = sizes["n"].to_numpy(dtype=np.int64)
     n_str = n_psu_per_str.size
     n_grp = n_psu_obs.size
-- 
2.43.0


From 79ec5a8ceeca141d2e80c847f43a6224af739963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:04 +0000
Subject: [PATCH 146/199] fix: singleton strata with string, boolean or
 categorical labels are aggregated

---
 pystatsm/utilities/complexdesign/sample_design.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pystatsm/utilities/complexdesign/sample_design.py b/pystatsm/utilities/complexdesign/sample_design.py
index 000245d..85df818 100644
--- a/pystatsm/utilities/complexdesign/sample_design.py
+++ b/pystatsm/utilities/complexdesign/sample_design.py
@@ -60,6 +60,13 @@ def _aggregate_singletons(df, strata, psuind):
     if len(singletons) == 0:
         return df
     df = df.copy()
+    for col in (strata, psuind):
+        dtype = df[col].dtype
+        if not pd.api.types.is_numeric_dtype(dtype) or pd.api.types.is_bool_dtype(dtype):
+            labels = df[col]
+            df[col] = pd.factorize(labels, sort=True)[0]
+            if col == strata:
+                singletons = df.loc[labels.isin(singletons), col].unique()
     new_stratum = df[strata].max() + 1
     new_psu = {s: i for i, s in enumerate(singletons)}
     mask = df[strata].isin(singletons)
-- 
2.43.0


From abb544e2b7a6a6c332229acacf68a3cd98c9c7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:04 +0000
Subject: [PATCH 147/199] fix: finite population corrections may be given as a
 list

---
 pystatsm/utilities/complexdesign/sample_design.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pystatsm/utilities/complexdesign/sample_design.py b/pystatsm/utilities/complexdesign/sample_design.py
index 85df818..34dcd70 100644
--- a/pystatsm/utilities/complexdesign/sample_design.py
+++ b/pystatsm/utilities/complexdesign/sample_design.py
@@ -83,7 +83,9 @@ def _build_layout(df, strata, psuind, fpc):
     n_grp = n_psu_obs.size
     if fpc is None:
         fpc = np.zeros(n_str)
-    elif np.shape(fpc) != (n_str,):
+    else:
+        fpc = np.asarray(fpc, dtype=np.float64)
+    if np.shape(fpc) != (n_str,):
         raise ValueError(f"fpc must have shape ({n_str},), got {np.shape(fpc)}")
     # ssf = (1 - f_h) * n_h / (n_h - 1); singleton strata (n_h == 1) cannot
     # contribute within-stratum variation, so zero out their scaling. This
-- 
2.43.0


From b90180a72420af589a1ebab57fca96d5ff6a3536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:04 +0000
Subject: [PATCH 148/199] fix: replication study of a single parameter has a
 covariance matrix

---
 pystatsm/utilities/complexdesign/replication.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/complexdesign/replication.py b/pystatsm/utilities/complexdesign/replication.py
index 67d7750..d3b3067 100644
--- a/pystatsm/utilities/complexdesign/replication.py
+++ b/pystatsm/utilities/complexdesign/replication.py
@@ -83,7 +83,7 @@ class ReplicationResult:
         return self.params.mean(axis=0) - self.theta_true
 
     def empirical_cov(self):
-        return np.cov(self.params.T, ddof=1)
+        return np.atleast_2d(np.cov(self.params.T, ddof=1))
 
     def mean_analytical_cov(self):
         return self.Vs.mean(axis=0)
-- 
2.43.0


From b1cace710bab47bf14c18d8179a2ac65ff946117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:14 +0000
Subject: [PATCH 149/199] fix: GLM observations with zero weight contribute
 nothing to the likelihood (domain fits of Gaussian models never converged)

---
 pystatsm/pyglm2/families.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index e43497c..e7146e6 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -93,10 +93,12 @@ class ExponentialFamily(metaclass=ABCMeta):
         
     def loglike(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
         ll_i = self._loglike(y, mu, weights, phi, dispersion)
+        ll_i = np.where(np.asarray(weights) > 0, ll_i, 0.0)
         return np.sum(ll_i)
 
     def full_loglike(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
         ll_i = self._full_loglike(y, mu, weights, phi, dispersion)
+        ll_i = np.where(np.asarray(weights) > 0, ll_i, 0.0)
         return np.sum(ll_i)
     
     def pearson_resid(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
@@ -259,6 +261,7 @@ class Gaussian(ExponentialFamily):
     def dtau(self, tau, y, mu, weights=1.0, reduce=True):
         phi = np.exp(tau)
         g = -(weights * np.power((y - mu), 2) / phi - 1) / 2
+        g = np.where(np.asarray(weights) > 0, g, 0.0)
         if reduce:
             g = np.sum(g)
         return g
@@ -266,6 +269,7 @@ class Gaussian(ExponentialFamily):
     def d2tau(self, tau, y, mu, weights=1.0, reduce=True):
         phi = np.exp(tau)
         h = weights * np.power((y - mu), 2) / (2 * phi)
+        h = np.where(np.asarray(weights) > 0, h, 0.0)
         if reduce:
             h = np.sum(h)
         return h
@@ -367,6 +371,7 @@ class InverseGaussian(ExponentialFamily):
         num = weights * np.power((y - mu), 2)
         den = (phi * y * np.power(mu, 2))
         g = -(num / den - 1) / 2
+        g = np.where(np.asarray(weights) > 0, g, 0.0)
         if reduce:
             g = np.sum(g)
         return g
@@ -374,6 +379,7 @@ class InverseGaussian(ExponentialFamily):
     def d2tau(self, tau, y, mu, weights=1.0, reduce=True):
         phi = np.exp(tau)
         h = weights * np.power((y - mu), 2) / (2 * phi * y * mu**2)
+        h = np.where(np.asarray(weights) > 0, h, 0.0)
         if reduce:
             h = np.sum(h)
         return h
@@ -442,6 +448,7 @@ class Gamma(ExponentialFamily):
         T1 = (1 - y / mu)
         T2 = -sp.special.digamma(weights / phi)
         g = (weights / phi) * (T0 + T1 + T2)
+        g = np.where(np.asarray(weights) > 0, g, 0.0)
         if reduce:
             g = np.sum(g)
         return g
@@ -453,6 +460,7 @@ class Gamma(ExponentialFamily):
         T2 = sp.special.digamma(weights / phi)
         T3 = weights / phi * sp.special.polygamma(1, weights / phi)
         h = weights / phi * (T3+T2-T1-T0)
+        h = np.where(np.asarray(weights) > 0, h, 0.0)
         if reduce:
             h = np.sum(h)
         return h
-- 
2.43.0


From f47677292a24bd6501452a5d439cde188efba96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:14 +0000
Subject: [PATCH 150/199] fix: seqNMF shift moves the array instead of zeroing
 its edges (the reported penalty was not the cross-orthogonality penalty)

---
 pystatsm/pynmf/hfuncs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pynmf/hfuncs.py b/pystatsm/pynmf/hfuncs.py
index 7bbe1a3..58e93ca 100644
--- a/pystatsm/pynmf/hfuncs.py
+++ b/pystatsm/pynmf/hfuncs.py
@@ -55,8 +55,8 @@ def shift(arr, n_shift, constant_value=0.0):
     if iterable(n_shift):
         n_shift = _check_n_shift(n_shift)
     for i, (nl, nr) in enumerate(n_shift):
-        arr = arr[_slice_at_axis(slice(nl, None), i)]
-        arr = arr[_slice_at_axis(slice(None, arr.shape[i]-nr), i)]
+        arr = arr[_slice_at_axis(slice(nr, None), i)]
+        arr = arr[_slice_at_axis(slice(None, arr.shape[i]-nl), i)]
         
     res[:] = np.pad(arr, n_shift, mode='constant', 
                     constant_values=constant_value)
-- 
2.43.0


From c8b3f96da04c9741ec2c19e264c20b82ca3af61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:14 +0000
Subject: [PATCH 151/199] fix: seqNMF penalty is the elementwise L1 norm of the
 off-diagonal terms, not the largest column sum

---
 pystatsm/pynmf/hfuncs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pynmf/hfuncs.py b/pystatsm/pynmf/hfuncs.py
index 58e93ca..434ccde 100644
--- a/pystatsm/pynmf/hfuncs.py
+++ b/pystatsm/pynmf/hfuncs.py
@@ -95,7 +95,7 @@ def seqnmf_objfunc(X, W, H):
     WtXSHt = (sp.signal.convolve2d(WtX, Sk, 'same').dot(H.T))
     WtXSHt = WtXSHt * (1 - np.eye(WtXSHt.shape[0])) # probably not very effecient
     fval = np.linalg.norm(X - X_hat)
-    penalty = np.linalg.norm(WtXSHt, 1)
+    penalty = np.sum(np.abs(WtXSHt))
     return fval, penalty, WtX
 
 def _initparams(X, k, L):
-- 
2.43.0


From b01655159d416fa5a87340aaad50279aa2ee3728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:14 +0000
Subject: [PATCH 152/199] fix: seqNMF factor centering returns both shifted
 factors instead of raising

---
 pystatsm/pynmf/hfuncs.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pystatsm/pynmf/hfuncs.py b/pystatsm/pynmf/hfuncs.py
index 434ccde..712e0b0 100644
--- a/pystatsm/pynmf/hfuncs.py
+++ b/pystatsm/pynmf/hfuncs.py
@@ -114,14 +114,13 @@ def center_factors(W, H):
     center = np.maximum(np.floor(L / 2), 1)
     W_pad  = np.pad(W, ((0, 0), (0, 0), (L, L)))
     for i in range(k):
-        tmp = np.sum(np.squeeze(W[:, i]), axis=0)
+        tmp = np.sum(W[:, i], axis=0)
         v = np.arange(1, len(tmp)+1)
         cmass = np.maximum(np.floor(np.sum(tmp*v)/np.sum(tmp)), 1)
-        W_pad[:, i] = np.roll(np.squeeze(W_pad[:, i]), int(center-cmass), 
-                              axis=1)
-        H[i] = np.roll(H[i], int(cmass-center), axis=1)
+        W_pad[:, i] = np.roll(W_pad[:, i], int(center-cmass), axis=1)
+        H[i] = np.roll(H[i], int(cmass-center))
     W = W_pad[:, :, L:-L]
-    return W
+    return W, H
 
 
 
-- 
2.43.0


From df29ac4c7cdb895d3f2f8f9431637734ad8b99d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:14 +0000
Subject: [PATCH 153/199] fix: FastICA update weights each component by its own
 E[g'] (columns of W are the components)

---
 pystatsm/pyica/ica.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyica/ica.py b/pystatsm/pyica/ica.py
index 4e80424..7a5ee41 100644
--- a/pystatsm/pyica/ica.py
+++ b/pystatsm/pyica/ica.py
@@ -53,7 +53,7 @@ def _fast_ica(Xw, W_init, maxiters=500):
     for i in range(maxiters):    
         Gy, dGy = gfunc(Y)
         E_XtGY, E_dGy = cov(Xw, Gy), np.diag(np.mean(dGy, axis=0))
-        W_new = symmetric_decorr(E_XtGY - (E_dGy).dot(W))
+        W_new = symmetric_decorr(E_XtGY - W.dot(E_dGy))
         dW_hist.append(convergence_check(W_new, W, W.shape[1]))
         if dW_hist[-1]<1e-6:
             break
-- 
2.43.0


From 45fd34821324292212310f7f28769674b49d5648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:14 +0000
Subject: [PATCH 154/199] fix: maximum-likelihood ICA update uses the sign and
 orientation of the estimating equations it solves

---
 pystatsm/pyica/ica.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyica/ica.py b/pystatsm/pyica/ica.py
index 7a5ee41..d540a3b 100644
--- a/pystatsm/pyica/ica.py
+++ b/pystatsm/pyica/ica.py
@@ -72,10 +72,10 @@ def _fast_ica2(Xw, W_init, maxiters=500):
         Gy, dGy = gfunc(Y)
         EGYYt = cov(Y, Gy)
         beta = np.diag(EGYYt)
-        alpha = -1.0 / (beta + np.mean(dGy, axis=0))
+        alpha = 1.0 / (beta - np.mean(dGy, axis=0))
         A = np.diag(alpha)
         B = np.diag(beta)
-        W_new = symmetric_decorr(W + (A.dot(B+EGYYt)).dot(W))
+        W_new = symmetric_decorr(W + W.dot((EGYYt - B).dot(A)))
         dW_hist.append(convergence_check(W_new, W, W.shape[1]))
         if dW_hist[-1]<1e-6:
             break
-- 
2.43.0


From 61262cae7727de881c83a459396d46c81a6c6b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:14 +0000
Subject: [PATCH 155/199] fix: ICA convergence compares components up to sign

---
 pystatsm/pyica/ica.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyica/ica.py b/pystatsm/pyica/ica.py
index d540a3b..9f894e8 100644
--- a/pystatsm/pyica/ica.py
+++ b/pystatsm/pyica/ica.py
@@ -37,7 +37,7 @@ def cov(X, Y=None):
 def _convergence_check(W_new, W_old, n):
     prods = np.zeros((n))
     for i in range(n):
-        prods[i] = np.dot(W_new[i], W_old[i])
+        prods[i] = np.sum(W_new[:, i] * W_old[:, i])
     return prods
     
 def convergence_check(W_new, W_old, n):
-- 
2.43.0


From 8302cef8c0da343a5468407ea95efb127659a22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:14 +0000
Subject: [PATCH 156/199] fix: CCA fits data with more x than y variables

---
 pystatsm/pyscca/base_cca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyscca/base_cca.py b/pystatsm/pyscca/base_cca.py
index afbcfaf..bf74881 100644
--- a/pystatsm/pyscca/base_cca.py
+++ b/pystatsm/pyscca/base_cca.py
@@ -70,7 +70,7 @@ class CCA(object):
         return Zx, Zy
         
     def _fit(self, n_comps=None, compute_projections=True, compute_canvars=True):
-        n_comps = self.p if n_comps is None else n_comps
+        n_comps = min(self.p, self.q) if n_comps is None else n_comps
         Wx, Wy, rhos = self._cca_svd(self.Sxy, self.Sxx_isq, self.Syy_isq)
         Wx, Wy = Wx[:, :n_comps], Wy[:, :n_comps]
         Lx, Ly = self.Sxx.dot(Wx), self.Syy.dot(Wy)
-- 
2.43.0


From 4b06dc885610774087d0874eb7a80434ac7a506b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:14 +0000
Subject: [PATCH 157/199] fix: CCA of collinear variables ignores the
 directions without variance (rounding noise was scaled up and counted as
 correlation)

---
 pystatsm/pyscca/base_cca.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyscca/base_cca.py b/pystatsm/pyscca/base_cca.py
index bf74881..2de7723 100644
--- a/pystatsm/pyscca/base_cca.py
+++ b/pystatsm/pyscca/base_cca.py
@@ -18,9 +18,9 @@ class CCA(object):
     @staticmethod
     def _eig_isq(S):
         u, V = eighs(S)
-        u_mask = u > 1e-16
-        u_isq = u.copy()
-        u_isq[u_mask] = 1.0 / np.sqrt(u_isq[u_mask])
+        u_mask = u > len(u) * np.finfo(float).eps * np.max(u)
+        u_isq = np.zeros_like(u)
+        u_isq[u_mask] = 1.0 / np.sqrt(u[u_mask])
         S_isq = (V * u_isq).dot(V.T)
         return u, u_mask, u_isq, V, S_isq
     
-- 
2.43.0


From 09b40ae4a2443ee9fdaf00eb764087b598a5d761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:14 +0000
Subject: [PATCH 158/199] fix: sparse CCA selects the penalty from the
 canonical correlations for any number of components

---
 pystatsm/pyscca/scca.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyscca/scca.py b/pystatsm/pyscca/scca.py
index b78e73b..0143ff0 100644
--- a/pystatsm/pyscca/scca.py
+++ b/pystatsm/pyscca/scca.py
@@ -579,7 +579,9 @@ class SCCA:
         self.Wxcv, self.Wycv, self.rf, self.rt, self.lambdas, optinfo = self.crossval(ncv,
                                                                                       n_comps,
                                                                                       **cv_kws)
-        self.lmax = np.argmax(self.rt.mean(axis=1)[:, [0, 2]].mean(axis=1))
+        k = self.Wxcv.shape[-1]
+        diag_inds = np.cumsum(np.r_[0, np.arange(k, 1, -1)])
+        self.lmax = np.argmax(self.rt.mean(axis=1)[:, diag_inds].mean(axis=1))
         self.lam = self.lambdas[self.lmax]
         self.Wx, self.Wy, self.rho, self.optinfo = self._fit(self.lam, self.lam,
                                                              n_comps,
-- 
2.43.0


From 38b6e9a7aaa1e5f4c8e10c7e8566095a8788ddb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:32 +0000
Subject: [PATCH 159/199] fix: sparse CCA labels its weights after
 orthogonalising them instead of raising

---
 pystatsm/pyscca/scca.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyscca/scca.py b/pystatsm/pyscca/scca.py
index 0143ff0..5ef544f 100644
--- a/pystatsm/pyscca/scca.py
+++ b/pystatsm/pyscca/scca.py
@@ -431,11 +431,17 @@ class SCCA:
         if Y is None:
             Y = self.Y.copy()
         Wx, Wy, optinfo = self._fit_symdef_d(lambda_x, lambda_y, n_comps, X,
-                                             Y, wx_init, wy_init, pdout
+                                             Y, wx_init, wy_init, False
                                              , cca_kws)
         if ortho:
             Wx, Wy = self.orthogonalize_components(Wx, Wy, X=X, Y=Y)
         rho = vech(_corr(X.dot(Wx), Y.dot(Wy)))
+        if pdout:
+            comps = ['V%i'%i for i in range(1, Wx.shape[1]+1)]
+            if self.x_is_pd:
+                Wx = pd.DataFrame(Wx, index=self.xcols, columns=comps)
+            if self.y_is_pd:
+                Wy = pd.DataFrame(Wy, index=self.ycols, columns=comps)
         return Wx, Wy, rho, optinfo
     
     def orthogonalize_components(self, Wx, Wy, X=None, Y=None):
-- 
2.43.0


From 23c8a8e572dffc4c97eda2b660729c45f062d7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:20 +0000
Subject: [PATCH 160/199] fix: seqNMF factor centering leaves factors that died
 out alone

---
 pystatsm/pynmf/hfuncs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystatsm/pynmf/hfuncs.py b/pystatsm/pynmf/hfuncs.py
index 712e0b0..ff7ca15 100644
--- a/pystatsm/pynmf/hfuncs.py
+++ b/pystatsm/pynmf/hfuncs.py
@@ -115,6 +115,8 @@ def center_factors(W, H):
     W_pad  = np.pad(W, ((0, 0), (0, 0), (L, L)))
     for i in range(k):
         tmp = np.sum(W[:, i], axis=0)
+        if not np.sum(tmp) > 0:
+            continue
         v = np.arange(1, len(tmp)+1)
         cmass = np.maximum(np.floor(np.sum(tmp*v)/np.sum(tmp)), 1)
         W_pad[:, i] = np.roll(W_pad[:, i], int(center-cmass), axis=1)
-- 
2.43.0


From c70e34cf3208afae1ea1c8d82e7453c023ce958b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:23 +0000
Subject: [PATCH 161/199] fix: SkewNorm class methods take the three parameters
 of the distribution

---
 pystatsm/misc/skewnorm_dist.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pystatsm/misc/skewnorm_dist.py b/pystatsm/misc/skewnorm_dist.py
index 6d3f955..288f6e9 100644
--- a/pystatsm/misc/skewnorm_dist.py
+++ b/pystatsm/misc/skewnorm_dist.py
@@ -14,24 +14,24 @@ RT2 = np.sqrt(2.0)
 class SkewNorm:
     
     @staticmethod
-    def loglike(y, mu, sigma, nu, tau):
-        return _logpdf(y, mu, sigma, nu, tau)
+    def loglike(y, mu, sigma, nu):
+        return _logpdf(y, mu, sigma, nu)
     
     @staticmethod
-    def d1loglike(y, mu, sigma, nu, tau):
-        return _d1logpdf(y, mu, sigma, nu, tau)
+    def d1loglike(y, mu, sigma, nu):
+        return _d1logpdf(y, mu, sigma, nu)
     
     @staticmethod
-    def d2loglike(y, mu, sigma, nu, tau):
-        return _d2logpdf(y, mu, sigma, nu, tau)
+    def d2loglike(y, mu, sigma, nu):
+        return _d2logpdf(y, mu, sigma, nu)
 
     @staticmethod
-    def d3loglike(y, mu, sigma, nu, tau):
-        return _d3logpdf(y, mu, sigma, nu, tau)
+    def d3loglike(y, mu, sigma, nu):
+        return _d3logpdf(y, mu, sigma, nu)
 
     @staticmethod
-    def d4loglike(y, mu, sigma, nu, tau):
-        return _d4logpdf(y, mu, sigma, nu, tau)
+    def d4loglike(y, mu, sigma, nu):
+        return _d4logpdf(y, mu, sigma, nu)
 
     
 def _expand_arrs(*arrs):
-- 
2.43.0


From 9de292022e00a537b4bac10e739ac96fa7ba8918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:23 +0000
Subject: [PATCH 162/199] fix: skewness of the skew-normal is defined for zero
 shape

---
 pystatsm/misc/skewnorm_dist.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/misc/skewnorm_dist.py b/pystatsm/misc/skewnorm_dist.py
index 288f6e9..7950f0b 100644
--- a/pystatsm/misc/skewnorm_dist.py
+++ b/pystatsm/misc/skewnorm_dist.py
@@ -308,8 +308,8 @@ def _variance(m, s, v):
     return var
 
 def _skewness(m, s, v):
-    u = np.pi / 2.0 * (1 + 1/v**2) - 1.0
-    skew = 0.5 * (4.0 - np.pi) * u**(-3.0/2.0) * np.sign(v)
+    u = v / np.sqrt(np.pi / 2.0 * (1 + v**2) - v**2)
+    skew = 0.5 * (4.0 - np.pi) * u**3
     return skew
 
     
\ No newline at end of file
-- 
2.43.0


From ddec1a43763de3988854841f29c2ec08fab67a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:23 +0000
Subject: [PATCH 163/199] fix: skew-normal derivatives are finite and exact in
 the tails

---
 pystatsm/misc/skewnorm_dist.py | 35 ++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/pystatsm/misc/skewnorm_dist.py b/pystatsm/misc/skewnorm_dist.py
index 7950f0b..a50178f 100644
--- a/pystatsm/misc/skewnorm_dist.py
+++ b/pystatsm/misc/skewnorm_dist.py
@@ -7,7 +7,7 @@ Created on Tue Jun 15 20:06:58 2021
 
 import numpy as np
 import scipy as sp
-from scipy.special import erf
+import scipy.special
 
 RT2 = np.sqrt(2.0)
 
@@ -39,6 +39,10 @@ def _expand_arrs(*arrs):
     return y
 
 
+def _half_mills(u):
+    # exp(-u^2 / 2) / (1 + erf(u / sqrt(2))) without underflow in the tails
+    return np.exp(-u**2 / 2.0 - sp.special.log_ndtr(u)) / 2.0
+
 def _d1logpdf(x, m, s, v):
     x0 = s**(-2)
     x1 = (1/2)*x0
@@ -47,7 +51,7 @@ def _d1logpdf(x, m, s, v):
     x4 = v*x2*x3
     x5 = -m + x
     x6 = x5**2
-    x7 = np.exp(-v**2*x1*x6)/(np.sqrt(np.pi)*(erf((1/2)*x4*x5) + 1))
+    x7 = _half_mills(v*x2*x5)/np.sqrt(np.pi)
     x8 = x3*x5*x7
     m1 = -x1*(2*m - 2*x) - x4*x7
     s1 = -v*x0*x8 - x2 + x6/s**3
@@ -63,15 +67,16 @@ def _d2logpdf(x, m, s, v):
     x4 = m - x
     x5 = x3*x4
     x6 = v*x5
-    x7 = erf((1/2)*x2*x6) - 1
+    h = _half_mills(-x6)
+    x7 = -1.0
     x8 = x0*x4**2
     x9 = x1*x8
-    x10 = np.exp(-x9)/np.pi
+    x10 = h**2/np.pi
     x11 = 2.0*x10/x7**2
     x12 = x1*x11
     x13 = v**3
     x14 = x7**(-1)
-    x15 = x2*np.exp(-1/2*x9)/np.sqrt(np.pi)
+    x15 = x2*h/np.sqrt(np.pi)
     x16 = 1.0*x15
     x17 = x14*x16
     x18 = x13*x17
@@ -96,7 +101,8 @@ def _d3logpdf(x, m, s, v):
     x3 = x2/s
     x4 = v*x3
     x5 = x1*x4
-    x6 = erf((1/2)*x5) - 1
+    h = _half_mills(-x4)
+    x6 = -1.0
     x7 = x6**(-2)
     x8 = np.pi**(-3/2)
     x9 = v**2
@@ -104,12 +110,12 @@ def _d3logpdf(x, m, s, v):
     x11 = x2**2
     x12 = x10*x11
     x13 = x12*x9
-    x14 = np.exp(-3/2*x13)
+    x14 = h**3
     x15 = 4*x1*x14*x8
     x16 = x15*x7
-    x17 = x1*np.exp(-1/2*x13)/np.sqrt(np.pi)
+    x17 = x1*h/np.sqrt(np.pi)
     x18 = x13*x17
-    x19 = np.exp(-x13)/np.pi
+    x19 = h**2/np.pi
     x20 = 6*x3
     x21 = x6**(-1)
     x22 = v*x21
@@ -170,7 +176,8 @@ def _d4logpdf(x, m, s, v):
     x5 = x4**2
     x6 = x3*x5
     x7 = x2*x6
-    x8 = x1*np.exp(-1/2*x7)/np.sqrt(np.pi)
+    h = _half_mills(-v*x4/s)
+    x8 = x1*h/np.sqrt(np.pi)
     x9 = 3*x8
     x10 = x4/s
     x11 = v*x10
@@ -181,20 +188,20 @@ def _d4logpdf(x, m, s, v):
     x16 = x12*x15
     x17 = x16*x8
     x18 = x1*x11
-    x19 = erf((1/2)*x18) - 1
+    x19 = -1.0
     x20 = x19**(-3)
     x21 = 24*x20
-    x22 = np.exp(-2*x7)/np.pi**2
+    x22 = h**4/np.pi**2
     x23 = x21*x22
     x24 = x19**(-1)
-    x25 = np.exp(-x7)/np.pi
+    x25 = h**2/np.pi
     x26 = x24*x25
     x27 = 8*x26
     x28 = 24*x10
     x29 = v*x28
     x30 = x19**(-2)
     x31 = np.pi**(-3/2)
-    x32 = np.exp(-3/2*x7)
+    x32 = h**3
     x33 = x1*x31*x32
     x34 = x30*x33
     x35 = x29*x34
-- 
2.43.0


From 01efd40e45e619601ebf678f661e2a6e205f3c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:23 +0000
Subject: [PATCH 164/199] fix: central moments of the sinh-arcsinh distribution
 (skewness and excess kurtosis)

---
 pystatsm/misc/shash1.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pystatsm/misc/shash1.py b/pystatsm/misc/shash1.py
index fce3a8e..5e7824b 100644
--- a/pystatsm/misc/shash1.py
+++ b/pystatsm/misc/shash1.py
@@ -33,16 +33,17 @@ def variance(m, s, v, t):
 
 def skewness(m, s, v, t):
     E_Z = np.sinh(v / t) * P(1 / t)
-    Var_Z = (np.cosh(2 * v / t) * P(2 / t) - 1) / 2
+    E_Z_2 = (np.cosh(2 * v / t) * P(2 / t) - 1) / 2
     E_Z_3 = (1 / 4) * (np.sinh(3 * v / t) * P(3 / t) - 3 * np.sinh(v / t) * P(1 / t))
-    mu_3_Y = s**3 * (E_Z_3 - 3 * Var_Z * E_Z - E_Z**3)
+    mu_3_Y = s**3 * (E_Z_3 - 3 * E_Z_2 * E_Z + 2 * E_Z**3)
     return mu_3_Y / variance(m, s, v, t)**1.5
 
 def excess_kurtosis(m, s, v, t):
     E_Z = np.sinh(v / t) * P(1 / t)
-    Var_Z = (np.cosh(2 * v / t) * P(2 / t) - 1) / 2
+    E_Z_2 = (np.cosh(2 * v / t) * P(2 / t) - 1) / 2
+    E_Z_3 = (1 / 4) * (np.sinh(3 * v / t) * P(3 / t) - 3 * np.sinh(v / t) * P(1 / t))
     E_Z_4 = (1 / 8) * (np.cosh(4 * v / t) * P(4 / t) - 4 * np.cosh(2 * v / t) * P(2 / t) + 3)
-    mu_4_Y = s**4 * (E_Z_4 - 4 * E_Z**3 + 6 * Var_Z * E_Z**2 + 3 * E_Z**4)
+    mu_4_Y = s**4 * (E_Z_4 - 4 * E_Z_3 * E_Z + 6 * E_Z_2 * E_Z**2 - 3 * E_Z**4)
     return mu_4_Y / variance(m, s, v, t)**2 - 3
 
 def pdf(y, m, s, v, t):
-- 
2.43.0


From d1df571caffab3f52e656ce820ad80ea5fc09f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:41 +0000
Subject: [PATCH 165/199] fix: sinh-arcsinh log density and derivatives do not
 cancel when the location is large relative to the scale

---
 pystatsm/misc/shash1.py       | 2 +-
 pystatsm/misc/shash_lpdf1.py  | 4 ++--
 pystatsm/misc/shash_lpdf2.py  | 4 ++--
 pystatsm/misc/shash_lpdf3.py  | 4 ++--
 pystatsm/misc/shash_lpdf4.py  | 4 ++--
 pystatsm/misc/shashr.py       | 2 +-
 pystatsm/misc/shashr_lpdf1.py | 4 ++--
 pystatsm/misc/shashr_lpdf2.py | 4 ++--
 pystatsm/misc/shashr_lpdf3.py | 4 ++--
 pystatsm/misc/shashr_lpdf4.py | 4 ++--
 10 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/pystatsm/misc/shash1.py b/pystatsm/misc/shash1.py
index 5e7824b..0c724a5 100644
--- a/pystatsm/misc/shash1.py
+++ b/pystatsm/misc/shash1.py
@@ -117,7 +117,7 @@ def logpdf(y, params=None, m=None, s=None, t=None, v=None, derivs=0):
     
     if derivs==0:
         x0 = t*np.arcsinh((m - y)/s) + v
-        lnp = np.log(t) - 1/2*np.log(m**2 - 2*m*y + s**2 + y**2) +\
+        lnp = np.log(t) - 1/2*np.log((m - y)**2 + s**2) +\
               np.log(np.cosh(x0)) - 1/2*np.sinh(x0)**2 + CONST# -1/2*np.log(np.pi) - 1/2*np.log(2)
         return lnp
     elif derivs==1:
diff --git a/pystatsm/misc/shash_lpdf1.py b/pystatsm/misc/shash_lpdf1.py
index 57f11ef..02ee2d5 100644
--- a/pystatsm/misc/shash_lpdf1.py
+++ b/pystatsm/misc/shash_lpdf1.py
@@ -12,12 +12,12 @@ CONST = -1/2*np.log(np.pi) - 1/2*np.log(2)
 
 def _logpdf1(y, m, s, t, v):  
     x0 = t*np.arcsinh((m - y)/s) + v
-    lnp = np.log(t) - 1/2*np.log(m**2 - 2*m*y + s**2 + y**2) +\
+    lnp = np.log(t) - 1/2*np.log((m - y)**2 + s**2) +\
           np.log(np.cosh(x0)) - 1/2*np.sinh(x0)**2 + CONST# -1/2*np.log(np.pi) - 1/2*np.log(2)
     
     x1 = 2*y
     x2 = s**2
-    x3 = 1/(m**2 - m*x1 + x2 + y**2)
+    x3 = 1/((m - y)**2 + x2)
     x4 = 1/s
     x5 = m - y
     x6 = np.arcsinh(x4*x5)
diff --git a/pystatsm/misc/shash_lpdf2.py b/pystatsm/misc/shash_lpdf2.py
index 7b078ae..4adec4d 100644
--- a/pystatsm/misc/shash_lpdf2.py
+++ b/pystatsm/misc/shash_lpdf2.py
@@ -10,12 +10,12 @@ CONST = -1/2*np.log(np.pi) - 1/2*np.log(2)
 
 def _logpdf2(y, m, s, t, v):  
     x0 = t*np.arcsinh((m - y)/s) + v
-    lnp = np.log(t) - 1/2*np.log(m**2 - 2*m*y + s**2 + y**2) +\
+    lnp = np.log(t) - 1/2*np.log((m - y)**2 + s**2) +\
           np.log(np.cosh(x0)) - 1/2*np.sinh(x0)**2 + CONST# -1/2*np.log(np.pi) - 1/2*np.log(2)
     
     x1 = s**2
     x2 = 2*y
-    x3 = m**2 - m*x2 + x1 + y**2
+    x3 = (m - y)**2 + x1
     x4 = 1/x3
     x5 = 2*m - x2
     x6 = (1/2)*x5
diff --git a/pystatsm/misc/shash_lpdf3.py b/pystatsm/misc/shash_lpdf3.py
index e2c92df..5fa0982 100644
--- a/pystatsm/misc/shash_lpdf3.py
+++ b/pystatsm/misc/shash_lpdf3.py
@@ -10,12 +10,12 @@ CONST = -1/2*np.log(np.pi) - 1/2*np.log(2)
 
 def _logpdf3(y, m, s, t, v):  
     x0 = t*np.arcsinh((m - y)/s) + v
-    lnp = np.log(t) - 1/2*np.log(m**2 - 2*m*y + s**2 + y**2) +\
+    lnp = np.log(t) - 1/2*np.log((m - y)**2 + s**2) +\
           np.log(np.cosh(x0)) - 1/2*np.sinh(x0)**2 + CONST# -1/2*np.log(np.pi) - 1/2*np.log(2)
     
     x1 = s**2
     x2 = 2*y
-    x3 = m**2 - m*x2 + x1 + y**2
+    x3 = (m - y)**2 + x1
     x4 = 1/x3
     x5 = 2*m - x2
     x6 = (1/2)*x5
diff --git a/pystatsm/misc/shash_lpdf4.py b/pystatsm/misc/shash_lpdf4.py
index f4c5a21..e8fb7ea 100644
--- a/pystatsm/misc/shash_lpdf4.py
+++ b/pystatsm/misc/shash_lpdf4.py
@@ -11,12 +11,12 @@ CONST = -1/2*np.log(np.pi) - 1/2*np.log(2)
 
 def _logpdf4(y, m, s, t, v):  
     x0 = t*np.arcsinh((m - y)/s) + v
-    lnp = np.log(t) - 1/2*np.log(m**2 - 2*m*y + s**2 + y**2) +\
+    lnp = np.log(t) - 1/2*np.log((m - y)**2 + s**2) +\
           np.log(np.cosh(x0)) - 1/2*np.sinh(x0)**2 + CONST# -1/2*np.log(np.pi) - 1/2*np.log(2)
 
     x1 = s**2
     x2 = 2*y
-    x3 = m**2 - m*x2 + x1 + y**2
+    x3 = (m - y)**2 + x1
     x4 = 1/x3
     x5 = 2*m - x2
     x6 = (1/2)*x5
diff --git a/pystatsm/misc/shashr.py b/pystatsm/misc/shashr.py
index c97df00..68e9d7c 100644
--- a/pystatsm/misc/shashr.py
+++ b/pystatsm/misc/shashr.py
@@ -107,7 +107,7 @@ def logpdf(y, params=None, m=None, s=None, t=None, v=None, derivs=0):
     if derivs==0:
         t, s = np.exp(t), np.exp(s)
         x0 = t*np.arcsinh((m - y)/s) + v
-        lnp = np.log(t) - 1/2*np.log(m**2 - 2*m*y + s**2 + y**2) +\
+        lnp = np.log(t) - 1/2*np.log((m - y)**2 + s**2) +\
               np.log(np.cosh(x0)) - 1/2*np.sinh(x0)**2 + CONST# -1/2*np.log(np.pi) - 1/2*np.log(2)
         return lnp
     elif derivs==1:
diff --git a/pystatsm/misc/shashr_lpdf1.py b/pystatsm/misc/shashr_lpdf1.py
index 12ed297..fb659c6 100644
--- a/pystatsm/misc/shashr_lpdf1.py
+++ b/pystatsm/misc/shashr_lpdf1.py
@@ -11,13 +11,13 @@ CONST = -1/2*np.log(np.pi) - 1/2*np.log(2)
 
 def _logpdf1(y, m, s, t, v):  
     x0 = v + np.exp(t)*np.arcsinh((m - y)*np.exp(-s))
-    lnp = t - 1/2*np.log(m**2 - 2*m*y + y**2 + np.exp(2*s)) +\
+    lnp = t - 1/2*np.log((m - y)**2 + np.exp(2*s)) +\
            np.log(np.cosh(x0)) - 1/2*np.sinh(x0)**2 + CONST# -1/2*np.log(np.pi) - 1/2*np.log(2)
                   
     x1 = 2*y
     x2 = 2*s
     x3 = np.exp(x2)
-    x4 = 1/(m**2 - m*x1 + x3 + y**2)
+    x4 = 1/((m - y)**2 + x3)
     x5 = np.exp(t)
     x6 = np.exp(-s)
     x7 = m - y
diff --git a/pystatsm/misc/shashr_lpdf2.py b/pystatsm/misc/shashr_lpdf2.py
index ba9db0d..00ba826 100644
--- a/pystatsm/misc/shashr_lpdf2.py
+++ b/pystatsm/misc/shashr_lpdf2.py
@@ -11,13 +11,13 @@ CONST = -1/2*np.log(np.pi) - 1/2*np.log(2)
 
 def _logpdf2(y, m, s, t, v):  
     x0 = v + np.exp(t)*np.arcsinh((m - y)*np.exp(-s))
-    lnp = t - 1/2*np.log(m**2 - 2*m*y + y**2 + np.exp(2*s)) +\
+    lnp = t - 1/2*np.log((m - y)**2 + np.exp(2*s)) +\
            np.log(np.cosh(x0)) - 1/2*np.sinh(x0)**2 + CONST# -1/2*np.log(np.pi) - 1/2*np.log(2)
                    
     x1 = 2*y
     x2 = 2*s
     x3 = np.exp(x2)
-    x4 = m**2 - m*x1 + x3 + y**2
+    x4 = (m - y)**2 + x3
     x5 = 1/x4
     x6 = 2*m - x1
     x7 = (1/2)*x6
diff --git a/pystatsm/misc/shashr_lpdf3.py b/pystatsm/misc/shashr_lpdf3.py
index c673d6c..18acc35 100644
--- a/pystatsm/misc/shashr_lpdf3.py
+++ b/pystatsm/misc/shashr_lpdf3.py
@@ -10,13 +10,13 @@ CONST = -1/2*np.log(np.pi) - 1/2*np.log(2)
 
 def _logpdf3(y, m, s, t, v):  
     x0 = v + np.exp(t)*np.arcsinh((m - y)*np.exp(-s))
-    lnp = t - 1/2*np.log(m**2 - 2*m*y + y**2 + np.exp(2*s)) +\
+    lnp = t - 1/2*np.log((m - y)**2 + np.exp(2*s)) +\
            np.log(np.cosh(x0)) - 1/2*np.sinh(x0)**2 + CONST# -1/2*np.log(np.pi) - 1/2*np.log(2)
             
     x1 = 2*y
     x2 = 2*s
     x3 = np.exp(x2)
-    x4 = m**2 - m*x1 + x3 + y**2
+    x4 = (m - y)**2 + x3
     x5 = 1/x4
     x6 = 2*m - x1
     x7 = (1/2)*x6
diff --git a/pystatsm/misc/shashr_lpdf4.py b/pystatsm/misc/shashr_lpdf4.py
index 8ac60ec..38960cb 100644
--- a/pystatsm/misc/shashr_lpdf4.py
+++ b/pystatsm/misc/shashr_lpdf4.py
@@ -11,13 +11,13 @@ CONST = -1/2*np.log(np.pi) - 1/2*np.log(2)
 
 def _logpdf4(y, m, s, t, v):  
     x0 = v + np.exp(t)*np.arcsinh((m - y)*np.exp(-s))
-    lnp = t - 1/2*np.log(m**2 - 2*m*y + y**2 + np.exp(2*s)) +\
+    lnp = t - 1/2*np.log((m - y)**2 + np.exp(2*s)) +\
            np.log(np.cosh(x0)) - 1/2*np.sinh(x0)**2 + CONST# -1/2*np.log(np.pi) - 1/2*np.log(2)
             
     x1 = 2*y
     x2 = 2*s
     x3 = np.exp(x2)
-    x4 = m**2 - m*x1 + x3 + y**2
+    x4 = (m - y)**2 + x3
     x5 = 1/x4
     x6 = 2*m - x1
     x7 = (1/2)*x6
-- 
2.43.0


From 02408a84f5f7593be714188318566d2b71814727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:25 +0000
Subject: [PATCH 166/199] fix: permutation p-values count ties and the observed
 arrangement and divide by the number of permutations

---
 pystatsm/misc/independence_tests.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pystatsm/misc/independence_tests.py b/pystatsm/misc/independence_tests.py
index 60112bc..b545635 100644
--- a/pystatsm/misc/independence_tests.py
+++ b/pystatsm/misc/independence_tests.py
@@ -79,8 +79,8 @@ def _dcorr_permutation_test(X, Y, n_perms=1000, unbiased=True):
     c = 0.0
     for i in numba.prange(n_perms):
         rp =  _dcorr(X, Y[np.random.permutation(n)], unbiased=unbiased)
-        c += abs(rp)>abs(r)
-    p = c / n
+        c += abs(rp)>=abs(r)*(1.0 - 1e-10)
+    p = (c + 1.0) / (n_perms + 1.0)
     return r, p
     
 @numba.jit(nopython=True, parallel=True)
@@ -93,6 +93,11 @@ def _dcorr_permutation_dist(X, Y, n_perms=1000, unbiased=True):
         permutation_dist[i] = rp
     return r, permutation_dist
     
+def _permutation_pvalue(stat, samples):
+    # the observed arrangement is one of the permutations, ties count
+    count = np.sum(np.abs(samples) >= np.abs(stat) * (1.0 - 1e-10))
+    return (count + 1.0) / (len(samples) + 1.0)
+
 def dcorr_permutation_test(X, Y, n_perms=100, unbiased=True, return_samples=True):
     if X.ndim==1:
         X = X.reshape(-1, 1)
@@ -100,7 +105,7 @@ def dcorr_permutation_test(X, Y, n_perms=100, unbiased=True, return_samples=True
         Y = Y.reshape(-1, 1)
     if return_samples:
         r, permutation_dist = _dcorr_permutation_dist(X, Y, n_perms, unbiased)
-        p_value = (np.abs(r)<np.abs(permutation_dist)).mean()
+        p_value = _permutation_pvalue(r, permutation_dist)
     else:
         r, p_value = _dcorr_permutation_test(X, Y, n_perms, unbiased)
         permutation_dist = None
@@ -175,7 +180,7 @@ def dhsic_test(X, Y, bw='median', n_perms=200):
         Y = Y.reshape(-1, 1)
     stat, bwx, bwy = dhsic(X, Y, bw=bw)
     samples = dhsic_permutation_test(X, Y, bwx, bwy, n_perms)
-    return stat, bwx, bwy, samples, (np.abs(samples)>np.abs(stat)).mean()
+    return stat, bwx, bwy, samples, _permutation_pvalue(stat, samples)
    
 
 
-- 
2.43.0


From 06e82122c32416d3489a1951e6d66ba840a91af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:25 +0000
Subject: [PATCH 167/199] fix: kernel independence criterion of samples with
 mostly tied values is defined

---
 pystatsm/misc/independence_tests.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystatsm/misc/independence_tests.py b/pystatsm/misc/independence_tests.py
index b545635..9684b4e 100644
--- a/pystatsm/misc/independence_tests.py
+++ b/pystatsm/misc/independence_tests.py
@@ -134,6 +134,8 @@ def _median_bandwith(X):
             w[k] = ((X[i] - X[j])**2).sum()
             k+=1
     bw = np.sqrt(np.median(w)*0.5)
+    if bw == 0.0:
+        bw = 0.001
     return bw
 
 
-- 
2.43.0


From 1d3eba8a2091c3cb9f2a80525cc0cf7b016afc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:36 +0000
Subject: [PATCH 168/199] fix: truncated normal draws without bounds have the
 requested mean and scale

---
 pystatsm/utilities/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/random.py b/pystatsm/utilities/random.py
index 68ffbdc..13263e7 100644
--- a/pystatsm/utilities/random.py
+++ b/pystatsm/utilities/random.py
@@ -128,7 +128,7 @@ def scalar_truncnorm(mu, sd, lb, ub):
     sample = 1
     if (lb < -1e16) or (ub>1e16):
         if (lb < -1e16) and (ub>1e16):
-            z = np.random.normal(mu, sd)
+            z = np.random.normal(0.0, 1.0)
         else:
             if ub > 1e16:
                 tr = (lb - mu) / sd
-- 
2.43.0


From 2a8f50b0f1ac5e1f6c1127c86b477e7ba8f82d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:36 +0000
Subject: [PATCH 169/199] fix: truncated normal draws are double precision and
 stay inside their bounds

---
 pystatsm/utilities/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/random.py b/pystatsm/utilities/random.py
index 13263e7..e1be7bd 100644
--- a/pystatsm/utilities/random.py
+++ b/pystatsm/utilities/random.py
@@ -179,7 +179,7 @@ def scalar_truncnorm(mu, sd, lb, ub):
 @numba.jit(nopython=True)
 def trnorm(mu, sd, lb, ub):
     n = len(mu)
-    z = np.zeros((n, ), dtype=numba.float32)
+    z = np.zeros((n, ), dtype=numba.float64)
     for i in range(n):
         z[i] = scalar_truncnorm(mu[i], sd[i], lb[i], ub[i])
     return z
-- 
2.43.0


From 14307e3b52a1a98075c0bdfcea3bfb6e1b2d4925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:37 +0000
Subject: [PATCH 170/199] fix: multivariate t draws are centred at the
 requested location

---
 pystatsm/utilities/random.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/utilities/random.py b/pystatsm/utilities/random.py
index e1be7bd..0b22800 100644
--- a/pystatsm/utilities/random.py
+++ b/pystatsm/utilities/random.py
@@ -196,8 +196,8 @@ def cauchy(loc, scale, size=None, rng=None):
 
 def multivariate_t(mean, cov, nu=1, size=None, rng=None):
     rng = np.random.default_rng() if rng is None else rng
-    u = np.sqrt(nu / rng.chisquare(df=nu, size=size))[:, np.newaxis]
-    Y = rng.multivariate_normal(mean=mean, cov=cov, size=size)
+    u = np.sqrt(nu / rng.chisquare(df=nu, size=size))[..., np.newaxis]
+    Y = rng.multivariate_normal(mean=np.zeros(len(cov)), cov=cov, size=size)
     X = mean + u * Y
     return X
 
-- 
2.43.0


From e62ebe6c0aaa12be77dc0d68613cc222cbf08330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:37 +0000
Subject: [PATCH 171/199] fix: one-dimensional LKJ draws are the one by one
 identity

---
 pystatsm/utilities/random.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystatsm/utilities/random.py b/pystatsm/utilities/random.py
index 0b22800..18c9614 100644
--- a/pystatsm/utilities/random.py
+++ b/pystatsm/utilities/random.py
@@ -205,6 +205,8 @@ def r_lkj_cholesky(eta=1.0, n=1, dim=1, rng=None, seed=None):
     rng = np.random.default_rng(seed) if rng is None else rng
 
     eta = np.atleast_1d(eta)
+    if dim == 1:
+        return np.ones((n,) + np.shape(eta) + (1, 1))
     batch_shape = np.concatenate([[n], np.shape(eta)], axis=0).astype(np.int32)
     beta = eta + (dim - 2.) / 2.
     dimension_range = np.arange(1., dim)
-- 
2.43.0


From 3838f4eed35d2e306c3dde1c50204333bebafc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:37 +0000
Subject: [PATCH 172/199] fix: random factor correlations are a matrix, not a
 stack of one matrix

---
 pystatsm/pyfa/simulate_factor_model.py | 2 +-
 pystatsm/pyfa2/simulation.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyfa/simulate_factor_model.py b/pystatsm/pyfa/simulate_factor_model.py
index 6bee17f..604ff6c 100644
--- a/pystatsm/pyfa/simulate_factor_model.py
+++ b/pystatsm/pyfa/simulate_factor_model.py
@@ -49,7 +49,7 @@ class FactorModelSim(object):
         r_kws = {} if r_kws is None else r_kws
         r_kws = {**default_r_kws, **r_kws}
         if random:
-            Phi = r_lkj(n=1, dim=self.n_facs, rng=self.rng, **r_kws)
+            Phi = r_lkj(n=1, dim=self.n_facs, rng=self.rng, **r_kws)[0, 0]
         else:
             Phi = rho**sp.linalg.toeplitz(np.arange(self.n_facs))
             s = (-1)**np.arange(self.n_facs).reshape(-1, 1)
diff --git a/pystatsm/pyfa2/simulation.py b/pystatsm/pyfa2/simulation.py
index 7c52563..9db897f 100644
--- a/pystatsm/pyfa2/simulation.py
+++ b/pystatsm/pyfa2/simulation.py
@@ -32,7 +32,7 @@ def generate_loadings(p, m, low=0.4, high=0.9, random=False, rng=None):
 
 def generate_factor_corr(m, rho=0.5, random=False, eta=2.0, rng=None):
     if random:
-        return r_lkj(n=1, dim=m, eta=eta, rng=rng)
+        return r_lkj(n=1, dim=m, eta=eta, rng=rng)[0, 0]
     Phi = rho ** sp.linalg.toeplitz(np.arange(m))
     s = (-1) ** np.arange(m).reshape(-1, 1)
     return s * Phi * s.T
-- 
2.43.0


From b67f45200df28f0ea5688739039633a5748dda2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:01 +0000
Subject: [PATCH 173/199] fix: factor model simulation with exact moments is
 reproducible from its generator

---
 pystatsm/pyfa/simulate_factor_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyfa/simulate_factor_model.py b/pystatsm/pyfa/simulate_factor_model.py
index 604ff6c..df327d0 100644
--- a/pystatsm/pyfa/simulate_factor_model.py
+++ b/pystatsm/pyfa/simulate_factor_model.py
@@ -81,7 +81,8 @@ class FactorModelSim(object):
         
     def simulate_data(self, n_obs=1000, exact=True):
         if exact:
-            Z = exact_rmvnorm(n=n_obs, S=self.C)
+            Z = exact_rmvnorm(n=n_obs, S=self.C,
+                              seed=int(self.rng.integers(2**31)))
         else:
             Z = self.rng.multivariate_normal(mean=np.zeros(self.n_vars+self.n_facs),
                                              cov=self.C, size=n_obs)
-- 
2.43.0


From 76ae130589e05237382f3ac8ab2976a78c0d6a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:01 +0000
Subject: [PATCH 174/199] fix: canonical correlation simulation allows more x
 than y variables

---
 pystatsm/pyscca/cca_sim.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyscca/cca_sim.py b/pystatsm/pyscca/cca_sim.py
index b5a7e1a..1d7bc05 100644
--- a/pystatsm/pyscca/cca_sim.py
+++ b/pystatsm/pyscca/cca_sim.py
@@ -22,7 +22,8 @@ class SimCCA(object):
         self.seed, self.rng = seed, rng
         self.n_xvars = self.p = n_xvars
         self.n_yvars = self.q = n_yvars
-        rhos = 1/(np.linspace(1, n_xvars, n_xvars)+1/19) if rhos is None else rhos
+        n_comps = min(n_xvars, n_yvars)
+        rhos = 1/(np.linspace(1, n_comps, n_comps)+1/19) if rhos is None else rhos
         Sxx = r_lkj(eta=1.0, n=1, dim=n_xvars, rng=rng)[0, 0] if x_corr is None else x_corr
         Syy = r_lkj(eta=1.0, n=1, dim=n_yvars, rng=rng)[0, 0] if y_corr is None else y_corr
         if x_coefs is None or y_coefs is None:
@@ -56,9 +57,10 @@ class SimCCA(object):
         
         B_inv = np.linalg.inv(B)
         
-        B1 = B_inv[:self.n_xvars]
+        n_comps = len(rhos)
+        B1 = B_inv[:n_comps]
                         
-        Sxy = np.linalg.inv(A.T).dot(np.diag(rhos)).dot(B1)
+        Sxy = np.linalg.inv(A.T)[:, :n_comps].dot(np.diag(rhos)).dot(B1)
         S = np.block([[Sxx, Sxy], [Sxy.T, Syy]])
         self.corr = self.S = S
         self.x_corr = self.Sxx = Sxx
-- 
2.43.0


From f1f150cdb728977fd1f1254dea1f7a81c487918a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:02 +0000
Subject: [PATCH 175/199] fix: canonical correlation simulation with exact
 moments is reproducible from its generator

---
 pystatsm/pyscca/cca_sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyscca/cca_sim.py b/pystatsm/pyscca/cca_sim.py
index 1d7bc05..6937884 100644
--- a/pystatsm/pyscca/cca_sim.py
+++ b/pystatsm/pyscca/cca_sim.py
@@ -75,7 +75,8 @@ class SimCCA(object):
     
     def simulate_data(self, n_obs=1000, exact=False):
         if exact:
-            data = exact_rmvnorm(self.S, n=n_obs, seed=self.seed)
+            seed = int(self.rng.integers(2**31)) if self.seed is None else self.seed
+            data = exact_rmvnorm(self.S, n=n_obs, seed=seed)
         else:
             data = self.rng.multivariate_normal(mean=np.zeros(self.p+self.q),
                                                 cov=self.S, size=n_obs)
-- 
2.43.0


From f8d95ec065321802ce718598c46ebad307a17791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:02 +0000
Subject: [PATCH 176/199] fix: mixed model simulation leaves the caller's
 random effect covariances alone

---
 pystatsm/pylmm/sim_lmm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/pylmm/sim_lmm.py b/pystatsm/pylmm/sim_lmm.py
index 4280936..998c544 100644
--- a/pystatsm/pylmm/sim_lmm.py
+++ b/pystatsm/pylmm/sim_lmm.py
@@ -128,6 +128,7 @@ class MixedModelSim:
         self.df, self.re_groupings, self.cont_vars = df, re_groupings, cont_vars
         self.X, self.Z, self.dims = X, Z, dims
         self.eta_fe, self.n_obs = X.dot(model_dict['beta']),  n_obs
+        self.model_dict = {**model_dict, "gcov":dict(model_dict["gcov"])}
         self.indices = {}
         self.theta_true, self.theta_init, self.indices["theta"] = _make_sim_theta(model_dict)
         self.G, self.indices["g"] = make_gcov(self.theta_true, self.indices, self.dims)
-- 
2.43.0


From cc67a815d821dacb1a8c4d29a01779a47c386628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:02 +0000
Subject: [PATCH 177/199] fix: mixed model simulation draws random effects in
 the order of the design columns

---
 pystatsm/pylmm/sim_lmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pylmm/sim_lmm.py b/pystatsm/pylmm/sim_lmm.py
index 998c544..e0194c8 100644
--- a/pystatsm/pylmm/sim_lmm.py
+++ b/pystatsm/pylmm/sim_lmm.py
@@ -157,7 +157,7 @@ class MixedModelSim:
     def simulate_ranefs(self, exact_ranefs=False, ranef_dist=None, ranef_kws={}):
         U = []
         dist = self.ranef_dist if ranef_dist is None else ranef_dist
-        for x in self.re_groupings:
+        for x in self.dims.keys():
             Gi, n_grp = self.model_dict['gcov'][x], self.model_dict['ginfo'][x]['n_grp']
             u_mean = np.zeros(len(Gi))
             Ui = dist(mean=u_mean, cov=Gi, size=n_grp, **ranef_kws)
-- 
2.43.0


From 865cd1c133aa79a9ab6bd933365abd2433889a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:02 +0000
Subject: [PATCH 178/199] fix: mixed model simulation variance ratios count the
 random effect covariances

---
 pystatsm/pylmm/sim_lmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pylmm/sim_lmm.py b/pystatsm/pylmm/sim_lmm.py
index e0194c8..a3f3962 100644
--- a/pystatsm/pylmm/sim_lmm.py
+++ b/pystatsm/pylmm/sim_lmm.py
@@ -66,7 +66,7 @@ def _make_sim_theta(model_dict):
 
 
 def get_var_comps(Xb, Z, G):
-    re_var = np.mean(np.einsum("ij,jj,ij->i", Z, G.toarray(), Z))
+    re_var = np.mean(np.einsum("ij,jk,ik->i", Z, G.toarray(), Z, optimize=True))
     fe_var = np.dot(Xb.T, Xb) / Xb.shape[0]
     return fe_var, re_var
 
-- 
2.43.0


From 0c2b75ccf94107fd352c24c3a6ac7d2d3d29a826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:02 +0000
Subject: [PATCH 179/199] fix: simulated SEM data are reproducible from the
 supplied generator

---
 pystatsm/pysem2/model_simulator.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pystatsm/pysem2/model_simulator.py b/pystatsm/pysem2/model_simulator.py
index 7ef9738..6b3e4d2 100644
--- a/pystatsm/pysem2/model_simulator.py
+++ b/pystatsm/pysem2/model_simulator.py
@@ -6,8 +6,6 @@ from ..utilities.random import r_lkj, exact_rmvnorm
 from .model_specification import ModelSpecification
 from .formula import FormulaParser
 
-rng=np.random.default_rng()
-
 class SimulatedSEM:
     def __init__(self, formula, n_groups, n_obs_min=1000, n_obs_max=5000, rng=None):
         self.formula = formula
@@ -24,11 +22,11 @@ class SimulatedSEM:
 
     def generate_data(self, n_obs):
         formula_parser = FormulaParser(self.formula)
-        exog_var_list = list(formula_parser.var_names["lox"])
+        exog_var_list = sorted(formula_parser.var_names["lox"])
         nonx_var_list = sorted(formula_parser.var_names["obs"] - set(exog_var_list))
         obs_var_list = exog_var_list + nonx_var_list
         if len(exog_var_list)>0:
-            exog_cov = r_lkj(1, 1, len(exog_var_list)).squeeze()
+            exog_cov = r_lkj(1, 1, len(exog_var_list), rng=self.rng)[0, 0]
             nonx_cov = np.eye(len(nonx_var_list))
             obs_cov = sp.linalg.block_diag(exog_cov, nonx_cov)
         else:
@@ -36,7 +34,8 @@ class SimulatedSEM:
         means = np.linspace(-3, 3, self.n_groups)
         dfs = []
         for i in range(self.n_groups):
-            arr = exact_rmvnorm(obs_cov, n_obs[i], np.repeat(means[i], len(obs_var_list)))
+            arr = exact_rmvnorm(obs_cov, n_obs[i], np.repeat(means[i], len(obs_var_list)),
+                                seed=int(self.rng.integers(2**31)))
             arr = pd.DataFrame(arr, columns=obs_var_list)
             arr["group"] = i
             dfs.append(arr)
@@ -84,7 +83,7 @@ class SimulatedSEM:
             mu[i] = L[i].dot(B[i]).dot(b[i].T)+a[i].T
         dfs = []
         for i in range(self.n_groups):
-            arr = rng.multivariate_normal(mean= mu[i].values.flatten(), cov=Sigma[i].values, size=self.n_obs[i])
+            arr = self.rng.multivariate_normal(mean= mu[i].values.flatten(), cov=Sigma[i].values, size=self.n_obs[i])
             arr = pd.DataFrame(arr, columns=Sigma[i].columns)
             arr["group"] = i
             dfs.append(arr)
-- 
2.43.0


From 736545df23f6de953b3b434c3ee3379ef9800e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:02 +0000
Subject: [PATCH 180/199] fix: simulated robust regression data are
 reproducible from the seed or generator

---
 pystatsm/pyrobust/robust_model_sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyrobust/robust_model_sim.py b/pystatsm/pyrobust/robust_model_sim.py
index 385d4f8..bfbc1c1 100644
--- a/pystatsm/pyrobust/robust_model_sim.py
+++ b/pystatsm/pyrobust/robust_model_sim.py
@@ -17,7 +17,8 @@ class RobustRegressionModel:
                  beta=None, beta_vals=None,  rsq=None, seed=None, 
                  rng=None, resid_dist=None):
         
-        rng = np.random.default_rng() if rng is None else rng
+        rng = np.random.default_rng(seed) if rng is None else rng
+        seed = int(rng.integers(2**31)) if seed is None else seed
         if resid_dist is None:
             resid_dist = lambda loc, scale, size: students_t(loc, scale, nu=2, 
                                                              size=size, rng=rng)
-- 
2.43.0


From 835b60c238b21682995032a2a0d1ffd93b2a95c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:02 +0000
Subject: [PATCH 181/199] fix: latent correlation simulation accepts an array
 of outcome bins

---
 pystatsm/pylvcorr/sim_lvcorr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pylvcorr/sim_lvcorr.py b/pystatsm/pylvcorr/sim_lvcorr.py
index 9d032f4..f5ced9b 100644
--- a/pystatsm/pylvcorr/sim_lvcorr.py
+++ b/pystatsm/pylvcorr/sim_lvcorr.py
@@ -17,7 +17,7 @@ class LVCorrSim(object):
         rng = np.random.default_rng(123) if rng is None else rng
         if type(x_bins) is int:
             x_bins = np.linspace(0, 1, x_bins+1, endpoint=False)[1:]
-        if y_bins==False:
+        if y_bins is False:
             kind = "polyserial"
         else:
             kind = "polychoric"
-- 
2.43.0


From 605c8688fa346d066ddf6e604992c50ba58e5230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:34 +0000
Subject: [PATCH 182/199] fix: linear model simulation uses the seed or
 generator it is given

---
 pystatsm/pyglm2/model_sim.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm2/model_sim.py b/pystatsm/pyglm2/model_sim.py
index d95c3a0..d656ea2 100644
--- a/pystatsm/pyglm2/model_sim.py
+++ b/pystatsm/pyglm2/model_sim.py
@@ -28,7 +28,8 @@ class LinearModelSim(object):
     def __init__(self, n_obs=1000, n_var=10, formula=None, cat_terms=None,
                  x_vars=None, nlevels=None, corr_kws=None, coef_kws=None,
                  rng=None, seed=None):
-        self.rng = rng if rng is None else np.random.default_rng(seed)
+        use_rng = rng is not None and seed is None
+        self.rng = rng if use_rng else np.random.default_rng(seed)
         self.seed = seed
         self.cat_terms = [] if cat_terms is None else cat_terms
         self.x_vars = [f"x{i}" for i in range(n_var)] if x_vars is None else x_vars
@@ -43,7 +44,8 @@ class LinearModelSim(object):
         self.cat_inds = [self.x_vars.index(x) for x in self.cat_terms]
         corr_kws = func_utils.handle_default_kws(corr_kws, {"rng":self.rng})
         self.corr = self._make_corr_matrix(self.n_var, **corr_kws)
-        self.Z1 = self._make_underlying_matrix(self.n_obs, self.corr, seed=self.seed)
+        self.Z1 = self._make_underlying_matrix(self.n_obs, self.corr,
+                                               seed=self._mat_seed())
         self.Z2 = self.Z1.copy()
         
         for i in self.cat_inds:
@@ -90,6 +92,9 @@ class LinearModelSim(object):
         X = random.exact_rmvnorm(corr, **mat_kws)
         return X
     
+    def _mat_seed(self):
+        return int(self.rng.integers(2**31)) if self.seed is None else self.seed
+
     @staticmethod
     def _make_categorical(x, nlevels):
         return func_utils.quantile_cut(x, nlevels)
-- 
2.43.0


From a57533dfe2904dd846a709dab0d5990b7249fcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:34 +0000
Subject: [PATCH 183/199] fix: linear model simulation gives unspecified
 categorical variables two levels

---
 pystatsm/pyglm/glm_sim.py    | 5 ++---
 pystatsm/pyglm2/model_sim.py | 3 +--
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/pystatsm/pyglm/glm_sim.py b/pystatsm/pyglm/glm_sim.py
index b6259dc..021fbf0 100644
--- a/pystatsm/pyglm/glm_sim.py
+++ b/pystatsm/pyglm/glm_sim.py
@@ -31,11 +31,10 @@ class LinearModelSim(object):
         self.cat_terms = [] if cat_terms is None else cat_terms
         self.x_vars = [f"x{i}" for i in range(n_var)] if x_vars is None else x_vars
         self.formula = "+".join(self.x_vars) if formula is None else formula
-        self.nlevels = {} if nlevels is None else nlevels
+        self.nlevels = {} if nlevels is None else dict(nlevels)
         for cat in self.cat_terms:
             if cat not in self.nlevels.keys():
                 self.nlevels[cat] = 2
-        self.nlevels = nlevels
         self.n_obs = n_obs
         self.n_var = n_var
         self.cat_inds = [self.x_vars.index(x) for x in self.cat_terms]
@@ -141,7 +140,7 @@ class LinearModelSim(object):
         terms = re.split("[+]", formula)
         x_vars = set([y for x in terms for y in re.split("[:]", x)])
         x_vars = set([y for x in x_vars for y in re.split("[*]", x)])
-        for match in re.findall("C\([^)]+\)", formula):
+        for match in set(re.findall("C\([^)]+\)", formula)):
           x_vars.remove(match)
         cat_terms = re.findall("(?<=C[(])(.*?)(?=[)])", formula)
         for x in cat_terms:
diff --git a/pystatsm/pyglm2/model_sim.py b/pystatsm/pyglm2/model_sim.py
index d656ea2..edc2605 100644
--- a/pystatsm/pyglm2/model_sim.py
+++ b/pystatsm/pyglm2/model_sim.py
@@ -34,11 +34,10 @@ class LinearModelSim(object):
         self.cat_terms = [] if cat_terms is None else cat_terms
         self.x_vars = [f"x{i}" for i in range(n_var)] if x_vars is None else x_vars
         self.formula = "+".join(self.x_vars) if formula is None else formula
-        self.nlevels = {} if nlevels is None else nlevels
+        self.nlevels = {} if nlevels is None else dict(nlevels)
         for cat in self.cat_terms:
             if cat not in self.nlevels.keys():
                 self.nlevels[cat] = 2
-        self.nlevels = nlevels
         self.n_obs = n_obs
         self.n_var = n_var
         self.cat_inds = [self.x_vars.index(x) for x in self.cat_terms]
-- 
2.43.0


From 0d8dae0d0998d16baee098e91c983c25f0e942c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:34 +0000
Subject: [PATCH 184/199] fix: sparse regression simulation uses the requested
 correlation

---
 pystatsm/pyglmnet/sparse_model_sim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglmnet/sparse_model_sim.py b/pystatsm/pyglmnet/sparse_model_sim.py
index 9bbb7c2..faf54a6 100644
--- a/pystatsm/pyglmnet/sparse_model_sim.py
+++ b/pystatsm/pyglmnet/sparse_model_sim.py
@@ -18,8 +18,8 @@ class SparseRegressionModel:
                  xw=None):
         rng = np.random.default_rng(seed) if rng is None else rng
         if x_cov is None:
-            rho = 0.9 if rho is None else rho
-            x_cov = 0.99**sp.linalg.toeplitz(np.arange(n_var))
+            rho = 0.99 if rho is None else rho
+            x_cov = rho**sp.linalg.toeplitz(np.arange(n_var))
         
         X = exact_rmvnorm(x_cov, n=np.max((n_obs, n_var+1)), seed=123)[:n_obs]
         if xw is not None:
-- 
2.43.0


From 27fee73b94621b473ae45a3e96026f97b5626ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:34 +0000
Subject: [PATCH 185/199] fix: factor model simulation study aligns the
 covariance of its estimates

---
 pystatsm/pyfa2/sim_factor_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa2/sim_factor_model.py b/pystatsm/pyfa2/sim_factor_model.py
index a830d7e..906d833 100644
--- a/pystatsm/pyfa2/sim_factor_model.py
+++ b/pystatsm/pyfa2/sim_factor_model.py
@@ -87,7 +87,7 @@ def run(p, m, n_obs, n_rep, rotation_kind='ortho', seed=0):
         theta_a = est.layout.pack(L_a, Phi_a, psi)
         M = alignment_matrix(est.layout, free_mask, perm, signs)
         thetas[r] = theta_a[free_mask]
-        Vs[r] = np.matmul(np.matmul(M, V, M.T))
+        Vs[r] = np.matmul(np.matmul(M, V), M.T)
         L_ests[r], Phi_ests[r], psi_ests[r] = L_a, Phi_a, psi
 
     # ---- theta-level diagnostics --------------------------------------------
-- 
2.43.0


From 66364549e13d87be5604961d8e93808ae8e11d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:03 +0000
Subject: [PATCH 186/199] fix: samples matched to a covariance also have the
 requested mean

---
 pystatsm/utilities/cov_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/cov_utils.py b/pystatsm/utilities/cov_utils.py
index 69f02c1..03db386 100644
--- a/pystatsm/utilities/cov_utils.py
+++ b/pystatsm/utilities/cov_utils.py
@@ -76,7 +76,7 @@ def _whiten(X, keep_mean=False):
     mean = np.mean(X, axis=0) if keep_mean else np.zeros(X.shape[1])
     S = _cov(X)
     L = np.linalg.inv(np.linalg.cholesky(S))
-    Y = mean + X.dot(L.T)
+    Y = mean + (X - np.mean(X, axis=0)).dot(L.T)
     return Y
 
 def _svd_cov_transform(S):
-- 
2.43.0


From 2850b2c0e52db65c40b2b456506c12c7114f815a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:19 +0000
Subject: [PATCH 187/199] fix: random effect terms may contain function calls

---
 pystatsm/utilities/formula.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/utilities/formula.py b/pystatsm/utilities/formula.py
index cc178c1..47af72e 100644
--- a/pystatsm/utilities/formula.py
+++ b/pystatsm/utilities/formula.py
@@ -24,8 +24,8 @@ def replace_duplicate_operators(match):
         
 
 def parse_random_effects(formula):
-    matches = re.findall("\([^)]+[|][^)]+\)", formula)
-    re_terms = [tuple(s.strip() for s in re.search("\(([^)]+)\|([^)]+)\)", x).groups())
+    matches = re.findall(r"\((?:[^()|]|\([^()]*\))+\|[^()]+\)", formula)
+    re_terms = [tuple(s.strip() for s in x[1:-1].rsplit("|", 1))
                 for x in matches]
     frm = formula
     for x in matches:
-- 
2.43.0


From 2278a26675ba61a0b362a685e78f0ca5e4b774e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:19 +0000
Subject: [PATCH 188/199] fix: terms removed from a mixed-model formula leave
 no stray operators or blanks behind

---
 pystatsm/utilities/formula.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/utilities/formula.py b/pystatsm/utilities/formula.py
index 47af72e..2ba5354 100644
--- a/pystatsm/utilities/formula.py
+++ b/pystatsm/utilities/formula.py
@@ -30,7 +30,7 @@ def parse_random_effects(formula):
     frm = formula
     for x in matches:
         frm = frm.replace(x, "")
-    fe_form = re.sub("(\+|\-)(\+|\-)+", replace_duplicate_operators, frm)
+    fe_form = re.sub(r"[+\-]\s*(?=[+\-])", "", frm)
     yvars, fe_form = re.split("[~]", fe_form)
     fe_form = re.sub(r"[+\s]+$", "", fe_form).strip()
     y_vars = re.split(",", re.sub("\(|\)", "", yvars))
@@ -40,8 +40,8 @@ def parse_random_effects(formula):
     for re_form in re_forms:
         x_vars.extend(re.split("[+]", re_form))
 
-    x_vars = list(dict.fromkeys(x_vars))
-    consts = ["0", "1"]
+    x_vars = list(dict.fromkeys(x.strip() for x in x_vars))
+    consts = ["0", "1", ""]
     x_vars = [x for x in x_vars if x not in consts]
     model_info = dict(y_vars=y_vars, x_vars=x_vars, fe_form=fe_form,
                       re_terms=re_terms, re_forms=re_forms,
-- 
2.43.0


From f5abd90ec30cb07f1fc323aaf10f0ea395de1c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:19 +0000
Subject: [PATCH 189/199] fix: functions whose name ends in s are not smooth
 terms

---
 pystatsm/pygam/smooth_setup.py | 5 ++---
 pystatsm/utilities/formula.py  | 9 +++------
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/pystatsm/pygam/smooth_setup.py b/pystatsm/pygam/smooth_setup.py
index a9aeb7f..d06a1a1 100644
--- a/pystatsm/pygam/smooth_setup.py
+++ b/pystatsm/pygam/smooth_setup.py
@@ -14,7 +14,7 @@ from ..utilities.splines import (_get_crsplines, _get_bsplines, _get_ccsplines,
 
 def parse_smooths(smoother_formula, data):
     smooths = {}
-    smooth_terms = re.findall("(?<=s[(])(.*?)(?=[)])", smoother_formula)
+    smooth_terms = re.findall(r"(?<=\bs[(])(.*?)(?=[)])", smoother_formula)
     arg_order = ['x', 'df', 'kind', 'by']
     for term in smooth_terms:
         tokens = [t.strip() for t in term.split(',')]
@@ -44,8 +44,7 @@ def parse_smooths(smoother_formula, data):
 
 def get_parametric_formula(formula):
     frm = re.sub(r"\s+", "", formula)
-    for x in re.findall(r"s\([^()]*\)", frm):
-        frm = frm.replace(x, "")
+    frm = re.sub(r"\bs\([^()]*\)", "", frm)
     frm = re.sub(r"[+\-]{2,}", lambda m: m.group()[-1], frm)
     frm = re.sub(r"~[+\-]+", "~", frm)
     frm = re.sub(r"[+\-]+$", "", frm)
diff --git a/pystatsm/utilities/formula.py b/pystatsm/utilities/formula.py
index 2ba5354..00a7d5b 100644
--- a/pystatsm/utilities/formula.py
+++ b/pystatsm/utilities/formula.py
@@ -13,7 +13,7 @@ import pandas as pd
 from patsy import highlevel
 
 def find_smooth_terms(formula):
-    return re.findall("(?<=s[(])(.*?)(?=[)])", formula)
+    return re.findall(r"(?<=\bs[(])(.*?)(?=[)])", formula)
 
 def find_ranef_terms(formula):
     return re.findall("\([^)]+[|][^)]+\)", formula)
@@ -50,10 +50,7 @@ def parse_random_effects(formula):
 
 
 def get_parametric_formula(formula):
-    tmp = re.findall("s[(].*?[)]", formula)
-    frm = formula[:-1]+formula[-1:]
-    for x in tmp:
-        frm = frm.replace(x, "")
+    frm = re.sub(r"\bs[(].*?[)]", "", formula)
     frm = re.sub("(\+|\-)(\+|\-)+", replace_duplicate_operators, frm)
     frm = re.sub("\+$", "", frm)
     return frm
@@ -75,7 +72,7 @@ def parse_smooth_term(term):
 
 def parse_smooths(formula):
     smooths = []
-    smooth_terms = re.findall("(?<=s[(])(.*?)(?=[)])", formula)
+    smooth_terms = re.findall(r"(?<=\bs[(])(.*?)(?=[)])", formula)
     for term in smooth_terms:
         smooths.append(parse_smooth_term(term))
     fe_form = get_parametric_formula(formula)
-- 
2.43.0


From e8bbf54679ff8a4380049d9b84030d217faf339b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:18 +0000
Subject: [PATCH 190/199] fix: smooth kinds may be quoted either way

---
 pystatsm/pygam/smooth_setup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pygam/smooth_setup.py b/pystatsm/pygam/smooth_setup.py
index d06a1a1..cb34bff 100644
--- a/pystatsm/pygam/smooth_setup.py
+++ b/pystatsm/pygam/smooth_setup.py
@@ -27,10 +27,10 @@ def parse_smooths(smoother_formula, data):
                 key, val = arg_order[i], token.strip()
                 smooth_info[key] = val
         smooth_info['df'] = int(smooth_info['df'])
-        smooth_info['kind'] = smooth_info['kind'].replace("'", "")
+        smooth_info['kind'] = smooth_info['kind'].strip("'\"")
         var = smooth_info['x']
         smooth_info['x'] = data[smooth_info['x']].values
-        smooth_info['kind'] = smooth_info['kind'].replace("'", "")
+        smooth_info['kind'] = smooth_info['kind'].strip("'\"")
         if smooth_info['by'] is not None:
             by_design_mat = patsy.dmatrix(f"C({smooth_info['by']})-1", data, 
                                           return_type='dataframe',
-- 
2.43.0


From 26eecfeaf50583706b995aac0c45679b35602e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:53 +0000
Subject: [PATCH 191/199] fix: indicator coding of text labels

---
 pystatsm/utilities/data_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pystatsm/utilities/data_utils.py b/pystatsm/utilities/data_utils.py
index 72d22a2..c577f74 100644
--- a/pystatsm/utilities/data_utils.py
+++ b/pystatsm/utilities/data_utils.py
@@ -239,7 +239,11 @@ def _dummy(x, fullrank=True, categories=None):
     return Y
 
 def dummy(x, fullrank=True, categories=None):
-    x = _check_shape(_check_np(x))
+    x = _check_shape(np.asarray(_check_np(x)))
+    if x.dtype.kind not in "biuf":
+        categories = np.unique(x) if categories is None else np.asarray(categories)
+        categories = categories if fullrank else categories[:-1]
+        return (x[:, np.newaxis] == categories).astype(float)
     return _dummy(x, fullrank, categories)
 
 
-- 
2.43.0


From cc862b6b3ba296b0d1d93b325f973cd5feb86341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:53 +0000
Subject: [PATCH 192/199] fix: filling in optimizer defaults leaves the
 caller's options alone

---
 pystatsm/utilities/optimizer_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pystatsm/utilities/optimizer_utils.py b/pystatsm/utilities/optimizer_utils.py
index dcc745e..afc08e7 100644
--- a/pystatsm/utilities/optimizer_utils.py
+++ b/pystatsm/utilities/optimizer_utils.py
@@ -23,14 +23,16 @@ default_opts = {'L-BFGS-B':LBFGSB_options,
                 'trust-ncg':TrustNewton_options}
 
 def process_optimizer_kwargs(optimizer_kwargs, default_method='trust-constr'):
+    optimizer_kwargs = dict(optimizer_kwargs)
     keys = optimizer_kwargs.keys()
 
     if 'method' not in keys:
         optimizer_kwargs['method'] = default_method
 
     if 'options' not in keys:
-        optimizer_kwargs['options'] = default_opts[optimizer_kwargs['method']]
+        optimizer_kwargs['options'] = dict(default_opts[optimizer_kwargs['method']])
     else:
+        optimizer_kwargs['options'] = dict(optimizer_kwargs['options'])
         options_keys = optimizer_kwargs['options'].keys()
         for dfkey, dfval in default_opts[optimizer_kwargs['method']].items():
             if dfkey not in options_keys:
-- 
2.43.0


From 4b8ea994d0e8da4058dcaec6f1acf4e0debd2dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:53 +0000
Subject: [PATCH 193/199] fix: negative binomial fits leave the caller's
 options alone

---
 pystatsm/pyglm/nb2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/nb2.py b/pystatsm/pyglm/nb2.py
index f843d93..ceff76b 100644
--- a/pystatsm/pyglm/nb2.py
+++ b/pystatsm/pyglm/nb2.py
@@ -104,7 +104,7 @@ class NegativeBinomial(object):
     def fit(self, opt_kws={}):
         default_opt_kws = dict(options=dict(verbose=0), 
                                         method='trust-constr')
-                                        
+        opt_kws = dict(opt_kws)
         for key, val in default_opt_kws.items():
             if key not in opt_kws.keys():
                 opt_kws[key] = val
@@ -170,6 +170,7 @@ class NegativeBinomial(object):
     
     def bootstrap(self, n_boot=2000, opt_kws={}):
         default_opt_kws = dict(gtol=1e-4, xtol=1e-4, verbose=0)
+        opt_kws = dict(opt_kws)
         for key, val in default_opt_kws.items():
             if key not in opt_kws.keys():
                 opt_kws[key] = val
-- 
2.43.0


From 2230b0ac2c92d6b849fac1ebee61bcd0e7f0a833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:53 +0000
Subject: [PATCH 194/199] fix: negative binomial bootstrap restores the model's
 response

---
 pystatsm/pyglm/nb2.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/pyglm/nb2.py b/pystatsm/pyglm/nb2.py
index ceff76b..6c32425 100644
--- a/pystatsm/pyglm/nb2.py
+++ b/pystatsm/pyglm/nb2.py
@@ -196,6 +196,7 @@ class NegativeBinomial(object):
         pbar.close()
         self.beta_samples = beta_samples
         self.X, self.Y = X, Y
+        self.y = _check_shape(Y, 1)
         samples_df = pd.DataFrame(self.beta_samples, columns=self.res.index)
         boot_res = samples_df.agg(["mean", "std", "min"]).T
         boot_res["pct1.0%"] = sp.stats.scoreatpercentile(beta_samples, 1.0, axis=0)
-- 
2.43.0


From 9a73634ac841c139acc3d8ad5fe3c91cfe3fc991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:53 +0000
Subject: [PATCH 195/199] fix: robust regression leaves the caller's options
 alone

---
 pystatsm/pyrobust/rls.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/pyrobust/rls.py b/pystatsm/pyrobust/rls.py
index d7d3791..c1267d5 100644
--- a/pystatsm/pyrobust/rls.py
+++ b/pystatsm/pyrobust/rls.py
@@ -44,6 +44,7 @@ class RobustLM:
         
     def _optimize(self, opt_kws=None):
         if opt_kws is not None:
+            opt_kws = dict(opt_kws)
             if "options" in opt_kws.keys():
                 opt_options = opt_kws.pop("options")
             else:
-- 
2.43.0


From eb453cc01aa34c1a5797b4341ce5a25a52ac65b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:24 +0000
Subject: [PATCH 196/199] fix: Newton fits leave their starting values alone

---
 pystatsm/pyglm/glm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/pyglm/glm.py b/pystatsm/pyglm/glm.py
index 2f09e50..b2a4e08 100644
--- a/pystatsm/pyglm/glm.py
+++ b/pystatsm/pyglm/glm.py
@@ -204,6 +204,7 @@ class GLM:
 
         if theta is None:
             theta = self.theta_init
+        theta = np.array(theta, dtype=float)
     
         fit_hist = {'|g|':[], 'theta':[], 'i':[], 'll':[],
                     'step_half_success':[], 'n_step_halves':[]}
-- 
2.43.0


From b7f7e8fea00c43dc4e501d0c03a739c195ee52ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:24 +0000
Subject: [PATCH 197/199] fix: fitting from a covariance matrix does not
 attempt factor scores

---
 pystatsm/pyfa/factor_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa/factor_analysis.py b/pystatsm/pyfa/factor_analysis.py
index 46b1e1b..ef7f9e4 100644
--- a/pystatsm/pyfa/factor_analysis.py
+++ b/pystatsm/pyfa/factor_analysis.py
@@ -740,7 +740,7 @@ class FactorAnalysis(object):
                                 columns=res_cols, index=param_labels)
         self.L = pd.DataFrame(self.L, index=self.cols, columns=fcols)
         
-        if compute_factors:
+        if compute_factors and self.X is not None:
             factor_coefs, factors = self.compute_factors(factor_method)
             self.factor_coefs = pd.DataFrame(factor_coefs, index=self.cols, columns=fcols)
             self.factors = pd.DataFrame(factors, index=self.inds, columns=fcols)
-- 
2.43.0


From 87d2a13f85153b013ba4098d21e71746a9347d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:24 +0000
Subject: [PATCH 198/199] fix: coordinate descent leaves the caller's starting
 values alone

---
 pystatsm/pyglmnet/gaussian_eln.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystatsm/pyglmnet/gaussian_eln.py b/pystatsm/pyglmnet/gaussian_eln.py
index ce142fd..27894f7 100644
--- a/pystatsm/pyglmnet/gaussian_eln.py
+++ b/pystatsm/pyglmnet/gaussian_eln.py
@@ -101,8 +101,10 @@ def elnet(X, y, lambda_, alpha=0.99, b=None, active=None, n_iters=1000, dtol=1e-
           btol=1e-9, intercept=True):
     if b is None:
         b = X.T.dot(y) / X.shape[0]
+    b = np.array(b, dtype=float)
     if active is None:
         active = np.ones(X.shape[1], dtype=bool)
+    active = np.array(active, dtype=bool)
     if intercept:
         y = y - y.mean()
     Xsq = (X**2).sum(axis=0)
-- 
2.43.0


From 1acadfa61f0270236307ebcc070211c3494d5610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:31 +0000
Subject: [PATCH 199/199] fix: logistic coordinate descent leaves the caller's
 active set alone

---
 pystatsm/pyglmnet/binomial_eln.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/pyglmnet/binomial_eln.py b/pystatsm/pyglmnet/binomial_eln.py
index ce0348d..7cf3884 100644
--- a/pystatsm/pyglmnet/binomial_eln.py
+++ b/pystatsm/pyglmnet/binomial_eln.py
@@ -353,6 +353,7 @@ def binom_glmnet(X, y, lambda_, alpha, b=None, active=None, n_iters=2000,
         
     if active is None:
         active = np.ones(p, dtype=bool)
+    active = np.array(active, dtype=bool)
     
     if intercept:
         ybar = y.mean()
-- 
2.43.0

