From 8035df3bfc24db055a0a238f06b7714ce54f92f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 01/41] fix: DiagonalOperator multiplies by its own copy of the
 diagonal

The operator copied the diagonal but its products used the caller's array,
so writing into that array afterwards silently changed the operator.
---
 pykrylov/linop/linop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index a7d8155..5308395 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -497,8 +497,8 @@ class DiagonalOperator(LinearOperator):
         super(DiagonalOperator, self).__init__(diag.shape[0], diag.shape[0],
                                                symmetric=True,
                                                hermitian=(diag.dtype not in complex_types),
-                                               matvec=lambda x: diag*x,
-                                               matvec_adj=lambda x: diag.conjugate()*x,
+                                               matvec=lambda x: self.__diag*x,
+                                               matvec_adj=lambda x: self.__diag.conjugate()*x,
                                                dtype=diag.dtype,
                                                **kwargs)
 
-- 
2.43.0


From 2562b2e84f7873e3ec8f2939a016ff12da7c4343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 02/41] fix: dividing an operator by an integer does not
 truncate the quotient

Under classic division 1 / 2 is 0 and A / 2 was the zero operator.
---
 pykrylov/linop/linop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index 5308395..37e6491 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -431,7 +431,7 @@ class LinearOperator(BaseLinearOperator):
     def __div__(self, other):
         if not np.isscalar(other):
             raise ValueError('Cannot divide')
-        return self * (1 / other)
+        return self * (1. / other)
 
     def __truediv__(self, other):
         if not np.isscalar(other):
-- 
2.43.0


From 62a50204c25ff07451ac5640978b942f607c9bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 03/41] fix: a complex symmetric ndarray is not assumed
 Hermitian

---
 pykrylov/linop/linop.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index 37e6491..b2157e8 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -723,7 +723,9 @@ def PysparseLinearOperator(A):
 def linop_from_ndarray(A, symmetric=False, **kwargs):
     "Return a linear operator from a Numpy `ndarray`."
 
-    hermitian = kwargs.get('hermitian', symmetric)
+    # A complex symmetric matrix is not Hermitian in general.
+    hermitian = kwargs.get('hermitian',
+                           symmetric and A.dtype not in complex_types)
 
     if A.dtype in complex_types:
         return LinearOperator(A.shape[1], A.shape[0],
-- 
2.43.0


From 12452cb15ed07c3d897fbb60e0060d6a70e1065c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 04/41] fix: CoordLinearOperator infers its shape from 0-based
 indices

The inferred sizes were the largest indices, one less than required.
---
 pykrylov/linop/linop.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index b2157e8..874798f 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -643,8 +643,10 @@ def CoordLinearOperator(vals, rows, cols,
     `rows` and `cols`. If `symmetric` is `True`, then `vals`, `rows` and
     `cols` are assumed to only represent one triangle of the operator.
     """
-    if nargin == 0: nargin = cols.max()
-    if nargout == 0: nargout = rows.max()
+    if nargin == 0:
+        nargin = (max(rows.max(), cols.max()) if symmetric else cols.max()) + 1
+    if nargout == 0:
+        nargout = (max(rows.max(), cols.max()) if symmetric else rows.max()) + 1
 
     def matvec(x):
       if x.shape != (nargin,):
-- 
2.43.0


From 6a82237dff6c1622a9cd29a949fd52930139b23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 05/41] fix: inferred transpose and adjoint of complex
 operators lead back to the operator

A.H.H (resp. A.T.T) was None when A.H (resp. A.T) had been inferred.
---
 pykrylov/linop/linop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index 874798f..952c4bc 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -139,11 +139,13 @@ class LinearOperator(BaseLinearOperator):
                     if self.H is None and __conj is not None:
                         self.logger.debug('Inferring .H')
                         self.__H = __conj.T
+                        self.__H.__H = self
                 if self.H is not None:
                     self.__H.__T = __conj
                     if self.T is None and __conj is not None:
                         self.logger.debug('Inferring .T')
                         self.__T = __conj.H
+                        self.__T.__T = self
 
     def __set_transpose(self, matvec, transpose_of=None, matvec_transp=None, **kwargs):
 
-- 
2.43.0


From f60cfee5fb5fbf3fe5bfcabc10a280748ce08423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 06/41] fix: BlockLinearOperator leaves the caller's list of
 blocks alone

The outer list only was copied: the mirrored blocks of a symmetric operator
were inserted into the caller's rows, and later changes to those rows
changed the operator.
---
 pykrylov/linop/blkop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index 41511ae..14b374a 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -33,7 +33,7 @@ class BlockLinearOperator(LinearOperator):
                 if hermitian and not block_row[0].hermitian:
                     raise ValueError('Blocks on diagonal must be hermitian.')
 
-            self._blocks = copy(blocks)
+            self._blocks = [copy(row) for row in blocks]
             for i in range(1, nrow):
                 for j in range(i - 1, -1, -1):
                     if symmetric:
@@ -42,7 +42,7 @@ class BlockLinearOperator(LinearOperator):
                         self._blocks[i].insert(0, self._blocks[j][i].H)
 
         else:
-            self._blocks = copy(blocks)
+            self._blocks = [copy(row) for row in blocks]
 
         log = kwargs.get('logger', null_log)
         log.debug('Building new BlockLinearOperator')
-- 
2.43.0


From d289179070ce2a799950568f3915da70cca45367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 07/41] fix: assigning a block of a symmetric or Hermitian
 operator updates all its views

A complex symmetric operator kept the old blocks in .H (a Hermitian one in .T).
---
 pykrylov/linop/blkop.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index 14b374a..6348520 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -139,9 +139,8 @@ class BlockLinearOperator(LinearOperator):
                         self._blocks[i][j] = self._blocks[j][i].T
                     else:
                         self._blocks[i][j] = self._blocks[j][i].H
-        else:
-            self._blocksT = map(lambda *row: [blk.T for blk in row], *self._blocks)
-            self._blocksH = map(lambda *row: [blk.H for blk in row], *self._blocks)
+        self._blocksT = map(lambda *row: [blk.T for blk in row], *self._blocks)
+        self._blocksH = map(lambda *row: [blk.H for blk in row], *self._blocks)
 
     def __contains__(self, op):
         return op in list(itertools.chain(*self.blocks))
-- 
2.43.0


From 352e024744248d8cf92f9d7c620689ee767df83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 08/41] fix: BlockLinearOperator checks the shapes of all block
 columns

Only the first block column was checked; inconsistent blocks elsewhere gave
an operator whose products fail.
---
 pykrylov/linop/blkop.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index 6348520..6ad97af 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -49,9 +49,9 @@ class BlockLinearOperator(LinearOperator):
 
         nargins = [[blk.shape[-1] for blk in row] for row in self._blocks]
         log.debug('nargins = ' + repr(nargins))
-        nargins_by_row = [nargin[0] for nargin in nargins]
-        if min(nargins_by_row) != max(nargins_by_row):
-            raise ShapeError('Inconsistent block shapes')
+        for row in nargins:
+            if row != nargins[0]:
+                raise ShapeError('Inconsistent block shapes')
 
         nargouts = [[blk.shape[0] for blk in row] for row in self._blocks]
         log.debug('nargouts = ' + repr(nargouts))
-- 
2.43.0


From 563fd737d31e7136ead16dcee193e79d6533867d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 09/41] fix: transposed products with rectangular diagonal
 blocks

The views of a BlockDiagonalLinearOperator used the shapes of the original
blocks rather than those of the transposed ones.
---
 pykrylov/linop/blkop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index 6ad97af..17526f3 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -183,9 +183,9 @@ class BlockDiagonalLinearOperator(LinearOperator):
 
         def blk_matvec(x, blks):
             nx = len(x)
-            nargins = [blk.shape[-1] for blk in blocks]
+            nargins = [blk.shape[-1] for blk in blks]
             nargin = sum(nargins)
-            nargouts = [blk.shape[0] for blk in blocks]
+            nargouts = [blk.shape[0] for blk in blks]
             nargout = sum(nargouts)
             self.logger.debug('Multiplying with a vector of size %d' % nx)
             self.logger.debug('nargin=%d, nargout=%d' % (nargin, nargout))
-- 
2.43.0


From b456434d373be1eb16e53e9baba8360b61885592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 10/41] fix: BlockDiagonalLinearOperator copies the caller's
 list of blocks

---
 pykrylov/linop/blkop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index 17526f3..ac24740 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -163,7 +163,7 @@ class BlockDiagonalLinearOperator(LinearOperator):
         hermitian = reduce(lambda x, y: x and y,
                            [blk.hermitian for blk in blocks])
 
-        self._blocks = blocks
+        self._blocks = copy(blocks)
 
         log = kwargs.get('logger', null_log)
         log.debug('Building new BlockDiagonalLinearOperator')
-- 
2.43.0


From c5244f6e5d98ddd3844858e65eaadc751f518682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 11/41] fix: LBFGSOperator honours the scaling keyword

With scaling=True it ignored the scaling factor and was not the inverse of
InverseLBFGSOperator with the same pairs.
---
 pykrylov/linop/lbfgs.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pykrylov/linop/lbfgs.py b/pykrylov/linop/lbfgs.py
index f570bf6..420ff3f 100644
--- a/pykrylov/linop/lbfgs.py
+++ b/pykrylov/linop/lbfgs.py
@@ -154,6 +154,12 @@ class LBFGSOperator(InverseLBFGSOperator):
         b = np.zeros((self.n, self.npairs))
         a = np.zeros((self.n, self.npairs))
 
+        if self.scaling:
+            last = (self.insert - 1) % self.npairs
+            if ys[last] is not None:
+                self.gamma = ys[last] / np.dot(y[:, last], y[:, last])
+                q /= self.gamma
+
         # B = Σ aa' - bb'.
         for i in range(self.npairs):
             k = (self.insert + i) % self.npairs
@@ -161,7 +167,7 @@ class LBFGSOperator(InverseLBFGSOperator):
                 b[:, k] = y[:, k] / ys[k]**.5
                 bv = np.dot(b[:, k], v[:])
                 q += bv * b[:, k]
-                a[:, k] = s[:, k].copy()
+                a[:, k] = s[:, k] / self.gamma
                 for j in range(i):
                     l = (self.insert + j) % self.npairs
                     if ys[l] is not None:
-- 
2.43.0


From 7729cca0a19b621bffbadae414aa33eeb01ceba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:48 +0000
Subject: [PATCH 12/41] fix: StructuredLBFGSOperator can be built and satisfies
 its secant equation

The constructor and store() referred to arguments and methods that do not
exist, and the product did not implement the structured update: the first
term was divided once too often and the scaling coefficient used the initial
matrix instead of the current approximation.
---
 pykrylov/linop/lbfgs.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pykrylov/linop/lbfgs.py b/pykrylov/linop/lbfgs.py
index 420ff3f..da364a9 100644
--- a/pykrylov/linop/lbfgs.py
+++ b/pykrylov/linop/lbfgs.py
@@ -280,7 +280,7 @@ class StructuredLBFGSOperator(InverseLBFGSOperator):
                          done as 'method M3' in the LBFGS paper by Zhou and
                          Nocedal; the scaling factor is s'y/y'y (default: False).
         """
-        super(StructuredLBFGSOperator, self).__init__(self, n, npairs, **kwargs)
+        super(StructuredLBFGSOperator, self).__init__(n, npairs, **kwargs)
         self.yd = np.empty((self.n, self.npairs))
         self.accept_threshold = 1e-8
 
@@ -315,17 +315,18 @@ class StructuredLBFGSOperator(InverseLBFGSOperator):
         for i in range(npairs):
             k = (self.insert + i) % npairs
             if ys[k] is not None:
-                coef = (self.gamma * ys[k] / np.dot(s[:, k], s[:, k]))**0.5
-                a[:, k] = y[:, k] + coef * s[:, k] / self.gamma
-                ad[:, k] = yd[:, k] - s[:, k] / self.gamma
+                # Product of s with the approximation built so far.
+                Bs = s[:, k] / self.gamma
                 for j in range(i):
                     l = (self.insert + j) % npairs
                     if ys[l] is not None:
                         alTs = np.dot(a[:, l], s[:, k]) / aTs[l]
                         adlTs = np.dot(ad[:, l], s[:, k])
-                        update = alTs / aTs[l] * ad[:, l] + adlTs / aTs[l] * a[:, l] - adTs[l] / aTs[l] * alTs * a[:, l]
-                        a[:, k] += coef * update
-                        ad[:, k] -= update
+                        update = alTs * ad[:, l] + adlTs / aTs[l] * a[:, l] - adTs[l] / aTs[l] * alTs * a[:, l]
+                        Bs += update
+                coef = (ys[k] / np.dot(s[:, k], Bs))**0.5
+                a[:, k] = y[:, k] + coef * Bs
+                ad[:, k] = yd[:, k] - Bs
                 aTs[k] = np.dot(a[:, k], s[:, k])
                 adTs[k] = np.dot(ad[:, k], s[:, k])
                 aTv = np.dot(a[:, k], v[:])
@@ -340,7 +341,7 @@ class StructuredLBFGSOperator(InverseLBFGSOperator):
         | y_k' s_k + (y's s_k' B_k s_k)**.5 | >= 1e-8.
         """
         ys = np.dot(new_s, new_y)
-        Bs = self.matvec(new_s)
+        Bs = self * new_s
         ypBs = ys + (ys * np.dot(new_s, Bs))**0.5
 
         if ypBs >= self.accept_threshold:
@@ -352,5 +353,5 @@ class StructuredLBFGSOperator(InverseLBFGSOperator):
             self.insert += 1
             self.insert = self.insert % self.npairs
         else:
-            self.log.debug('Rejecting (s,y) pair')
+            self.logger.debug('Rejecting (s,y) pair')
         return
-- 
2.43.0


From d01732cbe46f818766927a287901bf6448de4696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:53 +0000
Subject: [PATCH 13/41] fix: preconditioned CG updates its directions with the
 preconditioned residual

The search directions were built from the residual itself, so CG with a
preconditioner other than the identity did not converge.
---
 pykrylov/cg/cg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/cg/cg.py b/pykrylov/cg/cg.py
index d733de6..61abd7d 100644
--- a/pykrylov/cg/cg.py
+++ b/pykrylov/cg/cg.py
@@ -101,7 +101,7 @@ class CG( KrylovMethod ):
         self.residHistory.append(self.residNorm0)
         threshold = max(self.abstol, self.reltol * self.residNorm0)
 
-        p = -r   # Initial search direction (copy not to overwrite rhs if x=0)
+        p = -y   # Initial search direction (copy not to overwrite rhs if x=0)
 
         hdr_fmt = '%6s  %7s  %8s'
         hdr = hdr_fmt % ('Matvec', 'Resid', 'Curv')
@@ -148,7 +148,7 @@ class CG( KrylovMethod ):
             # Update search direction
             beta = ry_next/ry
             p *= beta
-            p -= r
+            p -= y
 
             ry = ry_next
             residNorm = np.abs(np.sqrt(ry))
-- 
2.43.0


From edaa2b30634703fe8b19d92ca6ab4f78c85b5e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:53 +0000
Subject: [PATCH 14/41] fix: CG, SYMMLQ and MINRES start a new history at each
 solve

The histories of successive solves were appended to each other.
---
 pykrylov/cg/cg.py         | 3 +++
 pykrylov/minres/minres.py | 1 +
 pykrylov/symmlq/symmlq.py | 1 +
 3 files changed, 5 insertions(+)

diff --git a/pykrylov/cg/cg.py b/pykrylov/cg/cg.py
index 61abd7d..8ebb36c 100644
--- a/pykrylov/cg/cg.py
+++ b/pykrylov/cg/cg.py
@@ -60,6 +60,9 @@ class CG( KrylovMethod ):
         """
         n = rhs.shape[0]
         nMatvec = 0
+        self.resids = []
+        self.iterates = []
+        self.residHistory = []
         definite = True
         check_sym = kwargs.get('check_symmetric', False)
         check_curvature = kwargs.get('check_curvature', True)
diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index ab9bb5d..6105577 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -131,6 +131,7 @@ class Minres(KrylovMethod):
 
         self.dir_errors_window = []  # Direct error estimates.
         self.iterates = []
+        self.residHistory = []
 
         result_type = np.result_type(A.dtype, b.dtype)
         x = zeros(n, dtype=result_type)
diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index a756d45..7bd3750 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -84,6 +84,7 @@ class Symmlq(KrylovMethod) :
         # Set parameters
         n = rhs.shape[0]
         nMatvec = 0
+        self.iterates = []
 
         matvec_max = kwargs.get('matvec_max', 2*n+2)
         rtol = kwargs.get('rtol', 1.0e-9)
-- 
2.43.0


From fb60b7edf04b0f9b81d6559dac90f672e7a4f900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:53 +0000
Subject: [PATCH 15/41] fix: CGS and TFQMR count the product that computes the
 residual of the guess

---
 pykrylov/cgs/cgs.py     | 1 +
 pykrylov/tfqmr/tfqmr.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pykrylov/cgs/cgs.py b/pykrylov/cgs/cgs.py
index a878699..c5ed9ea 100644
--- a/pykrylov/cgs/cgs.py
+++ b/pykrylov/cgs/cgs.py
@@ -58,6 +58,7 @@ class CGS( KrylovMethod ):
         r0 = rhs  # Fixed vector throughout
         if guess_supplied:
             r0 = rhs - self.op * x
+            nMatvec += 1
 
         rho = np.dot(r0,r0)
         residNorm = np.abs(np.sqrt(rho))
diff --git a/pykrylov/tfqmr/tfqmr.py b/pykrylov/tfqmr/tfqmr.py
index 5f2e55d..ee3bcea 100644
--- a/pykrylov/tfqmr/tfqmr.py
+++ b/pykrylov/tfqmr/tfqmr.py
@@ -57,6 +57,7 @@ class TFQMR( KrylovMethod ):
         r0 = rhs  # Fixed vector throughout
         if guess_supplied:
             r0 = rhs - self.op * x
+            nMatvec += 1
 
         rho = np.dot(r0,r0)
         residNorm = np.abs(np.sqrt(rho))
-- 
2.43.0


From d4af1f2ce6b89df21965b44ce2ee6db39074322a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:53 +0000
Subject: [PATCH 16/41] fix: TFQMR returns when there is nothing to do

With a zero right-hand side, an exact guess or no budget, m was undefined.
---
 pykrylov/tfqmr/tfqmr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykrylov/tfqmr/tfqmr.py b/pykrylov/tfqmr/tfqmr.py
index ee3bcea..0ef1091 100644
--- a/pykrylov/tfqmr/tfqmr.py
+++ b/pykrylov/tfqmr/tfqmr.py
@@ -66,6 +66,7 @@ class TFQMR( KrylovMethod ):
         self.logger.info('Initial residual = %8.2e' % self.residNorm0)
         self.logger.info('Threshold = %8.2e' % threshold)
 
+        m = 0.0
         finished = (residNorm <= threshold or nMatvec >= matvec_max)
 
         if not finished:
@@ -154,7 +155,7 @@ class TFQMR( KrylovMethod ):
             self.logger.info('%5d  %8.2e' % (nMatvec, residNorm))
 
 
-        self.converged = residNorm * np.sqrt(m+1) < threshold
+        self.converged = residNorm * np.sqrt(m+1) <= threshold
         self.nMatvec = nMatvec
         self.bestSolution = self.x = x
         self.residNorm = residNorm
-- 
2.43.0


From df7e2c12a393d612a9e34363d1bbde1f34c73f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:53 +0000
Subject: [PATCH 17/41] fix: Bi-CGSTAB reports the residual of the solution it
 returns

When the budget ran out after the first product of an iteration, the residual
norm was that of the half step but the half step was not taken.
---
 pykrylov/bicgstab/bicgstab.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pykrylov/bicgstab/bicgstab.py b/pykrylov/bicgstab/bicgstab.py
index 447e901..7dde43a 100644
--- a/pykrylov/bicgstab/bicgstab.py
+++ b/pykrylov/bicgstab/bicgstab.py
@@ -108,15 +108,11 @@ class BiCGSTAB( KrylovMethod ):
 
             self.logger.info('%6d  %8.2e' % (nMatvec, residNorm))
 
-            if residNorm <= threshold:
+            if residNorm <= threshold or nMatvec >= matvec_max:
                 x += alpha * q
                 finished = True
                 continue
 
-            if nMatvec >= matvec_max:
-                finished = True
-                continue
-
             if self.precon is not None:
                 z = self.precon * s
             else:
-- 
2.43.0


From ad232ee9c4eca882e42f6e37950657450abd0c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:53 +0000
Subject: [PATCH 18/41] fix: SYMMLQ runs and says whether it converged

It called a method that does not exist, used undefined values for a zero
right-hand side or a failed check, left the loop with inconsistent quantities
when the budget was exhausted, and never set converged.
---
 pykrylov/symmlq/symmlq.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index 7bd3750..9ab7a74 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -119,6 +119,7 @@ class Symmlq(KrylovMethod) :
         istop  = 0 ; ynorm  = 0 ; w = np.zeros(n) ; acond = 0
         itn    = 0 ; xnorm  = 0 ; x = np.zeros(n) ; done=False
         anorm  = 0 ; rnorm  = 0 ; v = np.zeros(n)
+        lqnorm = 0 ; cgnorm = 0 ; qrnorm = 0 ; bstep = 0 ; x1cg = 0
 
         if store_iterates:
             self.iterates.append(x.copy())
@@ -133,6 +134,7 @@ class Symmlq(KrylovMethod) :
         else:
             y = rhs.copy()
         b1 = y[0] ; beta1 = np.dot(r1, y)
+        self.residNorm0 = np.sqrt(np.abs(beta1))
 
         # Ensure preconditioner is symmetric.
 
@@ -160,7 +162,7 @@ class Symmlq(KrylovMethod) :
             s     = 1.0 / beta1
             v     = s * y
 
-            y = self.matvec(v) ; nMatvec += 1
+            y = self.op * v ; nMatvec += 1
             if check:
                 r2 = self.op * y  # Do not count this matrix-vector product
                 s = np.dot(y,y)
@@ -224,7 +226,7 @@ class Symmlq(KrylovMethod) :
         self.logger.info(head1 + head2)
 
         str1 = '%6g %12.5e %10.3e' % (itn, x1cg, cgnorm)
-        str2 = ' %10.3e  %8.1e' %    (qrnorm, bstep/beta1)
+        str2 = ' %10.3e' % qrnorm
         self.logger.info(str1 + str2)
 
         # ------------------------------------------------------------------
@@ -233,7 +235,7 @@ class Symmlq(KrylovMethod) :
         # Estimate various norms and test for convergence.
 
         if not done:
-            while nMatvec < matvec_max:
+            while True:
                 itn    = itn  +  1
                 anorm  = np.sqrt(tnorm)
                 ynorm  = np.sqrt(ynorm2)
@@ -367,7 +369,7 @@ class Symmlq(KrylovMethod) :
 
         # Add the step along b.
 
-        bstep  = bstep / beta1
+        if beta1 != 0: bstep  = bstep / beta1
         if self.precon is not None:
             y = self.precon * rhs
         else:
@@ -395,6 +397,9 @@ class Symmlq(KrylovMethod) :
         self.logger.info(last + msg[istop])
 
         self.nMatvec = nMatvec
+        self.nIter = itn
+        self.istop = istop
+        self.converged = istop in [-1,0,1,2]
         self.bestSolution = x ; self.solutionNorm = xnorm
         self.x = self.bestSolution ; self.xNorm = xnorm
         self.residNorm = rnorm
-- 
2.43.0


From ae2d12f4cfa0ed00ff9c64a31f171ca66ae16049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:53 +0000
Subject: [PATCH 19/41] fix: MINRES uses the preconditioner given to its
 constructor

---
 pykrylov/minres/minres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 6105577..f3f447d 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -118,7 +118,7 @@ class Minres(KrylovMethod):
         n = b.shape[0]
 
         # Read keyword arguments
-        precon = kwargs.get('precon', None)
+        precon = kwargs.get('precon', self.precon)
         shift  = kwargs.get('shift',  0.0)
         show   = kwargs.get('show',   True)
         check  = kwargs.get('check',  True)
-- 
2.43.0


From 9739a98670c439b6f34248ab04306673000609ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:19 +0000
Subject: [PATCH 20/41] fix: MINRES stops when the right-hand side is an
 eigenvector or zero

With beta2 = 0 it went on dividing by zero and returned NaNs; it did not
report convergence for a zero right-hand side, printed blank lines with
show=False, and reported an indefinite preconditioner as an iteration limit.
---
 pykrylov/minres/minres.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index f3f447d..ed4a813 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -251,7 +251,7 @@ class Minres(KrylovMethod):
                 oldb   = beta
                 beta   = dot(r2,y)
                 if beta < 0:
-                    istop = 6
+                    istop = 9
                     break
                 beta   = sqrt(beta)
                 tnorm2 = tnorm2 + alfa**2 + oldb**2 + beta**2
@@ -379,9 +379,9 @@ class Minres(KrylovMethod):
                     str3 = ' %8.1e %8.1e %8.1e' % (Anorm, Acond, gbar/Anorm)
                     print str1 + str2 + str3
 
-                if istop > 0: break
+                if istop != 0: break
 
-                if (itn % 10)==0: print ' '
+                if show and (itn % 10)==0: print ' '
 
         # Display final status.
 
@@ -393,7 +393,7 @@ class Minres(KrylovMethod):
             print last+' Arnorm  =  %12.4e' % Arnorm
             print last+self.msg[istop+1]
 
-        self.converged = istop in [1,2,3,4,10]
+        self.converged = istop in [-1,1,2,3,4,10] or (istop == 0 and beta1 == 0)
         if istop == 10: self.status = 'direct error small'
         self.bestSolution = self.x = x
         self.istop = istop
-- 
2.43.0


From 34e088ebf9ba2754234b97bd5cd4ae093f118a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:19 +0000
Subject: [PATCH 21/41] fix: LSQR accepts wantvar and honours conlim

---
 pykrylov/lls/lsqr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/lls/lsqr.py b/pykrylov/lls/lsqr.py
index 2cb1297..c591cb1 100644
--- a/pykrylov/lls/lsqr.py
+++ b/pykrylov/lls/lsqr.py
@@ -152,7 +152,7 @@ class LSQRFramework(KrylovMethod):
         if itnlim == 0: itnlim = 3*n
 
         if wantvar:
-            var = zeros(n,1)
+            var = zeros(n)
         else:
             var = None
 
@@ -160,7 +160,7 @@ class LSQRFramework(KrylovMethod):
 
         itn = istop = 0
         ctol = 0.0
-        if conlim > 0.0: self.ctol = 1.0/conlim
+        if conlim > 0.0: ctol = 1.0/conlim
         Anorm = Acond = 0.
         z = xnorm = xxnorm = ddnorm = res2 = 0.
         cs2 = -1. ; sn2 = 0.
-- 
2.43.0


From a7b606c8f11dac9c02e18f49022b7a258882dfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:19 +0000
Subject: [PATCH 22/41] fix: CRAIG handles a zero right-hand side and wantvar;
 CRAIG-MR is silent

---
 pykrylov/lls/craig.py   | 5 +++--
 pykrylov/lls/craigmr.py | 1 -
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index 22592ae..eda7ab1 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -176,7 +176,7 @@ class CRAIGFramework(KrylovMethod):
         if itnlim == 0: itnlim = 3*n
 
         if wantvar:
-            var = zeros(n,1)
+            var = zeros(n)
         else:
             var = None
 
@@ -215,7 +215,8 @@ class CRAIGFramework(KrylovMethod):
         else:
             u = Mu
 
-        alpha = 0.
+        v = zeros(n)
+        alpha = Arnorm = 0.
         beta = sqrt(dot(u,Mu))       # norm(u)
         if beta > 0:
             u /= beta
diff --git a/pykrylov/lls/craigmr.py b/pykrylov/lls/craigmr.py
index 12ecbed..fc22180 100644
--- a/pykrylov/lls/craigmr.py
+++ b/pykrylov/lls/craigmr.py
@@ -187,7 +187,6 @@ class CRAIGMRFramework(KrylovMethod):
             zeta     = c_hat * zeta_hat
             zeta_hat = s_hat * zeta_hat
             xNrgNorm2 += zeta * zeta
-            print itn, xNrgNorm2
             d = (u - beta_hat * d) / alpha_hat
             x += zeta * dbar
 
-- 
2.43.0


From f57d9cc8304bb8aa5fa654885172127f82f11b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 23/41] fix: LSMR stores its results and survives an exactly
 zero residual

solve() left istop, itn, bestSolution and the norms at their initial values
(x too when the solution is zero), divided by zero when the residual vanished,
and truncated 1/conlim for an integer conlim.
---
 pykrylov/lls/lsmr.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index 05d1c59..6daaf3e 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -21,7 +21,7 @@ __docformat__ = 'restructuredtext'
 
 from pykrylov.generic import KrylovMethod
 
-from numpy import zeros, dot
+from numpy import zeros, dot, inf
 from numpy.linalg import norm
 from math import sqrt
 
@@ -275,7 +275,7 @@ class LSMRFramework(KrylovMethod):
         normb  = beta
         istop  = 0
         ctol   = 0
-        if conlim > 0: ctol = 1/conlim
+        if conlim > 0: ctol = 1.0/conlim
         normr  = beta
 
         # Reverse the order here from the original matlab code because
@@ -284,9 +284,9 @@ class LSMRFramework(KrylovMethod):
         if normar == 0:
             if show:
                 print msg[0]
-            return x, istop, itn, normr, normar, normA, condA, normx
+            itnlim = 0   # The solution is zero.
 
-        if show:
+        if show and normar != 0:
             print ' '
             print hdg1, hdg2
             test1  = 1;             test2  = alpha / beta
@@ -420,7 +420,10 @@ class LSMRFramework(KrylovMethod):
             # some of which will be small near a solution.
 
             test1   = normr /normb
-            test2   = normar/(normA*normr)
+            if normA == 0 or normr == 0:
+                test2 = inf
+            else:
+                test2 = normar/(normA*normr)
             test3   =      1/condA
             t1      =  test1/(1 + normA*normx/normb)
             rtol    = btol + atol*normA*normx/normb
@@ -488,7 +491,21 @@ class LSMRFramework(KrylovMethod):
             print str3, str4
             print 'Estimated energy norm of x: %7.1e' % sqrt(xNrgNorm2)
 
-        self.x = x
+        if istop == 0: self.status = 'solution is zero'
+        if istop in [1,2,4,5]: self.status = 'residual small'
+        if istop in [3,6]: self.status = 'ill-conditioned operator'
+        if istop == 7: self.status = 'max iterations'
+        if istop == 8: self.status = 'direct error small'
+        self.optimal = istop in [1,2,4,5,8]
+        self.x = self.bestSolution = x
+        self.istop = istop
+        self.itn = itn
+        self.nMatvec = 2*itn
+        self.residNorm = self.r2norm = normr
+        self.Anorm = normA
+        self.Acond = condA
+        self.Arnorm = normar
+        self.xnorm = normx
         return x, istop, itn, normr, normar, normA, condA, normx
 
 
-- 
2.43.0


From aa27e192a9c238d1e46ceaf4dea1e7b3d8ebe012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:44 +0000
Subject: [PATCH 24/41] fix: conjugates keep the flags, and symmetric/Hermitian
 operators their own views

Views reached through the conjugate of a complex symmetric or Hermitian
operator (A.T.H.T, A.H.T.H) were None; the adjoint of an operator that is
both symmetric and Hermitian was replaced by its conjugate.
---
 pykrylov/linop/linop.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index 952c4bc..bfe6777 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -135,13 +135,15 @@ class LinearOperator(BaseLinearOperator):
                 # Try to infer missing operators.
                 __conj = self.conjugate()
                 if self.T is not None:
-                    self.__T.__H = __conj
+                    if self.__T.__H is None:
+                        self.__T.__H = __conj
                     if self.H is None and __conj is not None:
                         self.logger.debug('Inferring .H')
                         self.__H = __conj.T
                         self.__H.__H = self
                 if self.H is not None:
-                    self.__H.__T = __conj
+                    if self.__H.__T is None:
+                        self.__H.__T = __conj
                     if self.T is None and __conj is not None:
                         self.logger.debug('Inferring .T')
                         self.__T = __conj.H
@@ -253,6 +255,8 @@ class LinearOperator(BaseLinearOperator):
                               transpose_of=self.H,
                               adjoint_of=self.T,
                               conjugate_of=self,
+                              symmetric=self.symmetric,
+                              hermitian=self.hermitian,
                               dtype=self.dtype)
 
     def to_array(self):
-- 
2.43.0


From fcc87309b3275069e5e06a61e8796bf6482ffc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:23 +0000
Subject: [PATCH 25/41] fix: CG: forget the direction of infinite descent of a
 previous solve

---
 pykrylov/cg/cg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pykrylov/cg/cg.py b/pykrylov/cg/cg.py
index 8ebb36c..a9cb4f4 100644
--- a/pykrylov/cg/cg.py
+++ b/pykrylov/cg/cg.py
@@ -63,6 +63,7 @@ class CG( KrylovMethod ):
         self.resids = []
         self.iterates = []
         self.residHistory = []
+        self.infiniteDescent = None
         definite = True
         check_sym = kwargs.get('check_symmetric', False)
         check_curvature = kwargs.get('check_curvature', True)
-- 
2.43.0


From fd19636963025358c376ff44785d9f037d542d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:23 +0000
Subject: [PATCH 26/41] fix: MINRES: keep the least-squares solution of a
 singular system

---
 pykrylov/minres/minres.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index ed4a813..2dc0711 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -280,6 +280,16 @@ class Minres(KrylovMethod):
                 root   = self.normof2(gbar, dbar)
                 Arnorm = phibar * root
 
+                # If Ar is negligible at the current x, x solves the least-
+                # squares problem.  The system is singular, and so is the
+                # pivot below if the Krylov space is exhausted: keep x.
+
+                if root <= max(rtol, 10*eps) * sqrt(tnorm2):
+                    istop = 2
+                    Anorm = sqrt(tnorm2)
+                    rnorm = phibar
+                    break
+
                 # Compute the next plane rotation Qk
 
                 gamma  = self.normof2(gbar, beta)       # gammak
-- 
2.43.0


From b2154f35ce0ebe740edabc7389c96b67f6415f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:54 +0000
Subject: [PATCH 27/41] fix: LSMR: an iteration limit of zero is not a zero
 solution

---
 pykrylov/lls/lsmr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index 6daaf3e..ecb9bc6 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -285,6 +285,8 @@ class LSMRFramework(KrylovMethod):
             if show:
                 print msg[0]
             itnlim = 0   # The solution is zero.
+        elif itnlim <= 0:
+            istop = 7    # No iteration allowed.
 
         if show and normar != 0:
             print ' '
-- 
2.43.0


From af68b7562ab4e55b727aa81ca5ab90804167d3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:54 +0000
Subject: [PATCH 28/41] fix: CRAIG-MR: an iteration limit of zero is not a zero
 solution

---
 pykrylov/lls/craigmr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pykrylov/lls/craigmr.py b/pykrylov/lls/craigmr.py
index fc22180..7e7d1ab 100644
--- a/pykrylov/lls/craigmr.py
+++ b/pykrylov/lls/craigmr.py
@@ -120,6 +120,7 @@ class CRAIGMRFramework(KrylovMethod):
 
         # Items for use in stopping rules.
         istop = 0
+        if itnlim <= 0: istop = 7    # No iteration allowed.
 
         if store_resids:
             self.norms.append(xNrgNorm2)
-- 
2.43.0


From 9570151176af724b2a35c3dabe5fb8ef92872a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:37 +0000
Subject: [PATCH 29/41] fix: roots_quadratic: do not let the refinement spoil
 multiple roots

---
 pykrylov/tools/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pykrylov/tools/utils.py b/pykrylov/tools/utils.py
index f37d678..1c0b228 100644
--- a/pykrylov/tools/utils.py
+++ b/pykrylov/tools/utils.py
@@ -53,8 +53,12 @@ def roots_quadratic(q2, q1, q0, tol=1.0e-8, nitref=1):
             der = 2.0 * a2 * root + a1
             if der == 0.0:
                 continue
-            else:
-                root = root - val/der
+            # Near a multiple root, val and der may consist of rounding errors
+            # only: keep the step only if it brings an improvement.
+            new_root = root - val/der
+            if abs((a2 * new_root + a1) * new_root + a0) >= abs(val):
+                break
+            root = new_root
         new_roots.append(root)
 
     return new_roots
-- 
2.43.0


From 6c45caf690f27130cd176560369176eab02d07cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:37 +0000
Subject: [PATCH 30/41] fix: check_positive_definite: reject negative imaginary
 parts as well

---
 pykrylov/tools/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/tools/utils.py b/pykrylov/tools/utils.py
index 1c0b228..389acf9 100644
--- a/pykrylov/tools/utils.py
+++ b/pykrylov/tools/utils.py
@@ -104,7 +104,7 @@ def check_positive_definite(op, repeats=10, semi=False):
         w = op * v
         vw = np.dot(v, w)
         eps = machine_epsilon()
-        if np.imag(vw) > np.sqrt(eps) * np.abs(vw):
+        if abs(np.imag(vw)) > np.sqrt(eps) * np.abs(vw):
             return False
         vw = np.real(vw)
         if semi:
-- 
2.43.0


From 9a39dbdd7d244b7ab39b07188d7a255bd5f7915d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:01 +0000
Subject: [PATCH 31/41] fix: CG: a refused operator must not leave the results
 of the previous solve

---
 pykrylov/cg/cg.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pykrylov/cg/cg.py b/pykrylov/cg/cg.py
index a9cb4f4..3d55c6b 100644
--- a/pykrylov/cg/cg.py
+++ b/pykrylov/cg/cg.py
@@ -73,6 +73,11 @@ class CG( KrylovMethod ):
         if check_sym:
             if not check_symmetric(self.op):
                 self.logger.error('Coefficient operator is not symmetric')
+                # Do not leave the results of a previous solve.
+                self.converged = False
+                self.nMatvec = nMatvec
+                self.residNorm = self.residNorm0 = None
+                self.bestSolution = self.x = None
                 return
 
         # Initial guess
-- 
2.43.0


From b242148e2a65d8ee155c2e52a1b4d758c2a6280b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 32/41] fix: block operators: reject assignments that do not
 fit, follow their type

Assigning a block of another shape, something that is no operator, a block
without the operator's symmetry, or a complex block to a real operator was
accepted and left an operator with wrong or failing products.
---
 pykrylov/linop/blkop.py | 68 +++++++++++++++++++++++++++++++++++------
 1 file changed, 58 insertions(+), 10 deletions(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index ac24740..f020256 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -1,10 +1,44 @@
 from pykrylov.linop import BaseLinearOperator, LinearOperator
 from pykrylov.linop import ShapeError, null_log
+from pykrylov.tools.types import complex_types
 from copy import copy
 import numpy as np
 import itertools
 
 
+def _check_blocks(blocks):
+    "Raise an exception unless all of `blocks` are linear operators."
+    for blk in blocks:
+        if not isinstance(blk, BaseLinearOperator):
+            msg = 'Block operators can only contain linear operators'
+            raise ValueError(msg)
+
+
+def _check_flags(op, diagonal):
+    "Raise an exception if blocks on the diagonal of `op` belie its flags."
+    for blk in diagonal:
+        if op.symmetric and not blk.symmetric:
+            raise ValueError('Blocks on diagonal must be symmetric.')
+        if op.hermitian and not blk.hermitian:
+            raise ValueError('Blocks on diagonal must be hermitian.')
+
+
+def _check_shape(op, nargout, nargin):
+    "Raise an exception if assigning blocks changes the shape of `op`."
+    if op.shape != (nargout, nargin):
+        raise ShapeError('Inconsistent block shapes')
+
+
+def _update_dtype(op, blocks):
+    "Update the type of `op` to one that can represent all of `blocks`."
+    op_dtype = np.result_type(op.dtype, *[blk.dtype for blk in blocks])
+    if op_dtype in complex_types and op.dtype not in complex_types:
+        raise TypeError('Cannot assign a complex block to a real operator.')
+    for view in [op, op.T, op.H]:
+        if view is not None and view.dtype != op_dtype:
+            view.dtype = op_dtype
+
+
 class BlockLinearOperator(LinearOperator):
     """
     A linear operator defined by blocks. Each block must be a linear operator.
@@ -131,14 +165,27 @@ class BlockLinearOperator(LinearOperator):
     def __setitem__(self, indices, val):
         blks_mat = np.matrix(self._blocks, dtype=object)
         blks_mat.__setitem__(indices, val)
-        self._blocks = blks_mat.tolist()
+        blocks = blks_mat.tolist()
+        _check_blocks(list(itertools.chain(*blocks)))
         if self.symmetric or self.hermitian:
-            for i in range(1, len(self._blocks)):
+            _check_flags(self, [blocks[i][i] for i in range(len(blocks))])
+            for i in range(1, len(blocks)):
                 for j in range(i):
                     if self.symmetric:
-                        self._blocks[i][j] = self._blocks[j][i].T
+                        blocks[i][j] = blocks[j][i].T
                     else:
-                        self._blocks[i][j] = self._blocks[j][i].H
+                        blocks[i][j] = blocks[j][i].H
+        nargins = [[blk.shape[-1] for blk in row] for row in blocks]
+        nargouts = [[blk.shape[0] for blk in row] for row in blocks]
+        for row in nargins:
+            if row != nargins[0]:
+                raise ShapeError('Inconsistent block shapes')
+        for row in nargouts:
+            if min(row) != max(row):
+                raise ShapeError('Inconsistent block shapes')
+        _check_shape(self, sum([out[0] for out in nargouts]), sum(nargins[0]))
+        _update_dtype(self, list(itertools.chain(*blocks)))
+        self._blocks = blocks
         self._blocksT = map(lambda *row: [blk.T for blk in row], *self._blocks)
         self._blocksH = map(lambda *row: [blk.H for blk in row], *self._blocks)
 
@@ -242,12 +289,13 @@ class BlockDiagonalLinearOperator(LinearOperator):
         return blks
 
     def __setitem__(self, idx, ops):
-        if not isinstance(ops, BaseLinearOperator):
-            if isinstance(ops, list) or isinstance(ops, tuple):
-                for op in ops:
-                    if not isinstance(op, BaseLinearOperator):
-                        msg = 'Block operators can only contain linear operators'
-                        raise ValueError(msg)
+        blocks = list(self._blocks)
+        blocks.__setitem__(idx, ops)
+        _check_blocks(blocks)
+        _check_flags(self, blocks)
+        _check_shape(self, sum([blk.shape[0] for blk in blocks]),
+                    sum([blk.shape[-1] for blk in blocks]))
+        _update_dtype(self, blocks)
         self._blocks.__setitem__(idx, ops)
         if not self.symmetric:
             self._blocksT = [blk.T for blk in self._blocks]
-- 
2.43.0


From 8400b59a7186946c9865dbb3fa0ecedb0c2bc714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 33/41] fix: solvers: right-hand sides of integer type

They raised, or silently computed in integer arithmetic.
---
 pykrylov/bicgstab/bicgstab.py |  5 +++--
 pykrylov/cg/cg.py             |  6 +++---
 pykrylov/cgs/cgs.py           |  5 +++--
 pykrylov/lls/craig.py         |  3 ++-
 pykrylov/lls/craigmr.py       |  3 ++-
 pykrylov/lls/lsmr.py          |  3 ++-
 pykrylov/lls/lsqr.py          |  3 ++-
 pykrylov/minres/minres.py     |  4 ++--
 pykrylov/tfqmr/tfqmr.py       |  5 +++--
 pykrylov/tools/utils.py       | 11 +++++++++++
 10 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/pykrylov/bicgstab/bicgstab.py b/pykrylov/bicgstab/bicgstab.py
index 7dde43a..85facf7 100644
--- a/pykrylov/bicgstab/bicgstab.py
+++ b/pykrylov/bicgstab/bicgstab.py
@@ -5,6 +5,7 @@ import numpy as np
 
 
 from pykrylov.generic import KrylovMethod
+from pykrylov.tools.utils import floating_type
 
 class BiCGSTAB( KrylovMethod ):
     """
@@ -53,13 +54,13 @@ class BiCGSTAB( KrylovMethod ):
         nMatvec = 0
 
         # Initial guess is zero unless one is supplied
-        result_type = np.result_type(self.op.dtype, rhs.dtype)
+        result_type = floating_type(self.op.dtype, rhs.dtype)
         guess_supplied = 'guess' in kwargs.keys()
         x = kwargs.get('guess', np.zeros(n)).astype(result_type)
         matvec_max = kwargs.get('matvec_max', 2*n)
 
         # Initial residual is the fixed vector
-        r0 = rhs
+        r0 = rhs.astype(result_type)
         if guess_supplied:
             r0 = rhs - self.op * x
             nMatvec += 1
diff --git a/pykrylov/cg/cg.py b/pykrylov/cg/cg.py
index 3d55c6b..b22b68d 100644
--- a/pykrylov/cg/cg.py
+++ b/pykrylov/cg/cg.py
@@ -3,7 +3,7 @@ __docformat__ = 'restructuredtext'
 
 import numpy as np
 
-from pykrylov.tools.utils import check_symmetric
+from pykrylov.tools.utils import check_symmetric, floating_type
 from pykrylov.generic import KrylovMethod
 
 class CG( KrylovMethod ):
@@ -81,7 +81,7 @@ class CG( KrylovMethod ):
                 return
 
         # Initial guess
-        result_type = np.result_type(self.op.dtype, rhs.dtype)
+        result_type = floating_type(self.op.dtype, rhs.dtype)
         guess_supplied = 'guess' in kwargs.keys()
         x = kwargs.get('guess', np.zeros(n)).astype(result_type)
 
@@ -91,7 +91,7 @@ class CG( KrylovMethod ):
         matvec_max = kwargs.get('matvec_max', 2*n)
 
         # Initial residual vector
-        r = -rhs
+        r = -rhs.astype(result_type)
         if guess_supplied:
             r += self.op * x
             nMatvec += 1
diff --git a/pykrylov/cgs/cgs.py b/pykrylov/cgs/cgs.py
index c5ed9ea..5bebb7b 100644
--- a/pykrylov/cgs/cgs.py
+++ b/pykrylov/cgs/cgs.py
@@ -4,6 +4,7 @@ __docformat__ = 'restructuredtext'
 import numpy as np
 
 from pykrylov.generic import KrylovMethod
+from pykrylov.tools.utils import floating_type
 
 class CGS( KrylovMethod ):
     """
@@ -50,12 +51,12 @@ class CGS( KrylovMethod ):
         nMatvec = 0
 
         # Initial guess is zero unless one is supplied
-        result_type = np.result_type(self.op.dtype, rhs.dtype)
+        result_type = floating_type(self.op.dtype, rhs.dtype)
         guess_supplied = 'guess' in kwargs.keys()
         x = kwargs.get('guess', np.zeros(n)).astype(result_type)
         matvec_max = kwargs.get('matvec_max', 2*n)
 
-        r0 = rhs  # Fixed vector throughout
+        r0 = rhs.astype(result_type)  # Fixed vector throughout
         if guess_supplied:
             r0 = rhs - self.op * x
             nMatvec += 1
diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index eda7ab1..27e62e4 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -16,6 +16,7 @@ dominique.orban@gerad.ca
 """
 
 from pykrylov.generic import KrylovMethod
+from pykrylov.tools.utils import floating_type
 
 from numpy import zeros, dot, inf
 from numpy.linalg import norm
@@ -209,7 +210,7 @@ class CRAIGFramework(KrylovMethod):
         dErr = zeros(window)     # Truncated direct error terms.
         trncDirErr = 0           # Truncated direct error.
 
-        Mu = rhs[:m].copy()
+        Mu = rhs[:m].astype(floating_type(rhs.dtype))
         if M is not None:
             u = M(Mu)
         else:
diff --git a/pykrylov/lls/craigmr.py b/pykrylov/lls/craigmr.py
index 7e7d1ab..67aae4d 100644
--- a/pykrylov/lls/craigmr.py
+++ b/pykrylov/lls/craigmr.py
@@ -4,6 +4,7 @@ __docformat__ = 'restructuredtext'
 #  []  Compute least-squares objective
 
 from pykrylov.generic import KrylovMethod
+from pykrylov.tools.utils import floating_type
 
 from numpy import zeros, dot
 from numpy.linalg import norm
@@ -72,7 +73,7 @@ class CRAIGMRFramework(KrylovMethod):
 
         # Initialize the Golub-Kahan bidiagonalization process.
 
-        Mu = b.copy()  # Don't want to change input vector.
+        Mu = b.astype(floating_type(b.dtype))  # Don't want to change input vector.
         if M is not None:
             u = M(Mu)
         else:
diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index ecb9bc6..fc69f8b 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -20,6 +20,7 @@ Dept of MS&E, Stanford University.
 __docformat__ = 'restructuredtext'
 
 from pykrylov.generic import KrylovMethod
+from pykrylov.tools.utils import floating_type
 
 from numpy import zeros, dot, inf
 from numpy.linalg import norm
@@ -207,7 +208,7 @@ class LSMRFramework(KrylovMethod):
 
         # Initialize the Golub-Kahan bidiagonalization process.
 
-        Mu = b.copy()
+        Mu = b.astype(floating_type(b.dtype))
         if M is not None:
             u = M(Mu)
         else:
diff --git a/pykrylov/lls/lsqr.py b/pykrylov/lls/lsqr.py
index c591cb1..8aab0b0 100644
--- a/pykrylov/lls/lsqr.py
+++ b/pykrylov/lls/lsqr.py
@@ -12,6 +12,7 @@ Dominique Orban, Ecole Polytechnique de Montreal
 """
 
 from pykrylov.generic import KrylovMethod
+from pykrylov.tools.utils import floating_type
 
 from numpy import zeros, dot, inf
 from numpy.linalg import norm
@@ -185,7 +186,7 @@ class LSQRFramework(KrylovMethod):
         if store_iterates:
             self.iterates.append(x.copy())
 
-        Mu = rhs[:m].copy()
+        Mu = rhs[:m].astype(floating_type(rhs.dtype))
         if M is not None:
             u = M(Mu)
         else:
diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 2dc0711..70dc6a0 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -17,7 +17,7 @@ from pykrylov.generic import KrylovMethod
 import numpy as np
 from numpy.linalg import norm
 from numpy import zeros, dot, empty, sqrt
-from pykrylov.tools.utils import check_symmetric, machine_epsilon
+from pykrylov.tools.utils import check_symmetric, machine_epsilon, floating_type
 
 
 class Minres(KrylovMethod):
@@ -133,7 +133,7 @@ class Minres(KrylovMethod):
         self.iterates = []
         self.residHistory = []
 
-        result_type = np.result_type(A.dtype, b.dtype)
+        result_type = floating_type(A.dtype, b.dtype)
         x = zeros(n, dtype=result_type)
         xNrgNorm2 = 0.0          # Squared energy norm of final solution.
         dErr = zeros(window)     # Truncated direct error terms.
diff --git a/pykrylov/tfqmr/tfqmr.py b/pykrylov/tfqmr/tfqmr.py
index 0ef1091..5f45363 100644
--- a/pykrylov/tfqmr/tfqmr.py
+++ b/pykrylov/tfqmr/tfqmr.py
@@ -3,6 +3,7 @@ __docformat__ = 'restructuredtext'
 import numpy as np
 
 from pykrylov.generic import KrylovMethod
+from pykrylov.tools.utils import floating_type
 
 class TFQMR( KrylovMethod ):
     """
@@ -49,12 +50,12 @@ class TFQMR( KrylovMethod ):
         nMatvec = 0
 
         # Initial guess is zero unless one is supplied
-        result_type = np.result_type(self.op.dtype, rhs.dtype)
+        result_type = floating_type(self.op.dtype, rhs.dtype)
         guess_supplied = 'guess' in kwargs.keys()
         x = kwargs.get('guess', np.zeros(n)).astype(result_type)
         matvec_max = kwargs.get('matvec_max', 2*n)
 
-        r0 = rhs  # Fixed vector throughout
+        r0 = rhs.astype(result_type)  # Fixed vector throughout
         if guess_supplied:
             r0 = rhs - self.op * x
             nMatvec += 1
diff --git a/pykrylov/tools/utils.py b/pykrylov/tools/utils.py
index 389acf9..5a1a704 100644
--- a/pykrylov/tools/utils.py
+++ b/pykrylov/tools/utils.py
@@ -119,3 +119,14 @@ def check_positive_definite(op, repeats=10, semi=False):
 # if __name__ == '__main__':
 #     roots = roots_quadratic(2.0e+20, .1, -4)
 #     print 'Received: ', roots
+
+
+def floating_type(*dtypes):
+    """Return the smallest type common to `dtypes` that represents fractions.
+
+    This is `numpy.result_type()`, except for integers, where it is `float64`.
+    """
+    result_type = np.result_type(*dtypes)
+    if not np.issubdtype(result_type, np.inexact):
+        result_type = np.dtype(np.float64)
+    return result_type
-- 
2.43.0


From 1430dad0ae79759f103d11bdc992a8d07d4802c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 34/41] fix: check_symmetric: do not reseed numpy's global
 generator

---
 pykrylov/tools/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/tools/utils.py b/pykrylov/tools/utils.py
index 5a1a704..44390b0 100644
--- a/pykrylov/tools/utils.py
+++ b/pykrylov/tools/utils.py
@@ -75,9 +75,9 @@ def check_symmetric(op, repeats=10):
     if m != n:
         return False
     eps = machine_epsilon()
-    np.random.seed(1)
+    rng = np.random.RandomState(1)  # Leave the global generator alone.
     for _ in xrange(repeats):
-        x = np.random.random(n)
+        x = rng.random_sample(n)
         w = op * x
         r = op * w
         s = np.dot(w, w)
-- 
2.43.0


From 98d4bef8e321097532092bf6723f7e972d7e9b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:44 +0000
Subject: [PATCH 35/41] fix: MINRES: do not take alpha1 for a pivot in the
 condition estimate

With b'Ab = 0 the estimate was infinite after one step, and MINRES stopped
there as if it had converged.
---
 pykrylov/minres/minres.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 70dc6a0..f283856 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -16,7 +16,7 @@ available at http://www.stanford.edu/group/SOL/software/minres.htm.
 from pykrylov.generic import KrylovMethod
 import numpy as np
 from numpy.linalg import norm
-from numpy import zeros, dot, empty, sqrt
+from numpy import zeros, dot, empty, sqrt, inf
 from pykrylov.tools.utils import check_symmetric, machine_epsilon, floating_type
 
 
@@ -261,8 +261,8 @@ class Minres(KrylovMethod):
                         istop = -1            # Terminate later.
 
                     # tnorm2 = alfa**2  ??
-                    gmax   = abs(alfa)        # alpha1
-                    gmin   = gmax             # alpha1
+                    gmax   = 0.0              # Largest and smallest gamma;
+                    gmin   = inf              # alpha1 is not one of them.
 
                 # Apply previous rotation Qk-1 to get
                 #   [deltak epslnk+1] = [cs  sn][dbark    0   ]
-- 
2.43.0


From 82365d12560bad05a4949342b2abcb7a3ce27092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:44 +0000
Subject: [PATCH 36/41] fix: MINRES: stopping tests independent of the units of
 A and b

The estimate of the norm of A included that of b: with a large b, MINRES
stopped at once and reported convergence.
---
 pykrylov/minres/minres.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index f283856..a1215e7 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -254,10 +254,12 @@ class Minres(KrylovMethod):
                     istop = 9
                     break
                 beta   = sqrt(beta)
-                tnorm2 = tnorm2 + alfa**2 + oldb**2 + beta**2
+                tnorm2 = tnorm2 + alfa**2 + beta**2
+                if itn >= 2:                  # beta1 measures b, not A.
+                    tnorm2 = tnorm2 + oldb**2
 
                 if itn==1:                    # Initialize a few things.
-                    if beta/beta1 <= 10*eps:  # beta2 = 0 or ~ 0.
+                    if beta <= 10*eps*abs(alfa):  # beta2 = 0 or ~ 0.
                         istop = -1            # Terminate later.
 
                     # tnorm2 = alfa**2  ??
@@ -280,6 +282,22 @@ class Minres(KrylovMethod):
                 root   = self.normof2(gbar, dbar)
                 Arnorm = phibar * root
 
+                # The first product alone does not show the size of A: if the
+                # second one shows that Ab was negligible, the first step was
+                # made of rounding errors, and x = 0 is the solution.
+
+                if itn == 1:
+                    root1 = root
+                elif itn == 2 and root1 <= max(rtol, 10*eps) * sqrt(tnorm2):
+                    istop = 2
+                    x = zeros(n, dtype=result_type)
+                    self.iterates = self.iterates[:1]
+                    self.residHistory = []
+                    Anorm = sqrt(tnorm2)
+                    rnorm = beta1
+                    Arnorm = beta1 * root1
+                    break
+
                 # If Ar is negligible at the current x, x solves the least-
                 # squares problem.  The system is singular, and so is the
                 # pivot below if the Krylov space is exhausted: keep x.
@@ -293,7 +311,6 @@ class Minres(KrylovMethod):
                 # Compute the next plane rotation Qk
 
                 gamma  = self.normof2(gbar, beta)       # gammak
-                gamma  = max(gamma, eps)
                 cs     = gbar / gamma             # ck
                 sn     = beta / gamma             # sk
                 phi    = cs * phibar              # phik
-- 
2.43.0


From d968643ff20d4bf6a5e33a932f88fba5f7709c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:44 +0000
Subject: [PATCH 37/41] fix: SYMMLQ: no absolute tolerances, and alpha1 is not
 a pivot

With b'Ab = 0, SYMMLQ gave up reporting a bad condition number; with a small A,
it took any right-hand side for an eigenvector.
---
 pykrylov/symmlq/symmlq.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index 9ab7a74..291c90f 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -198,7 +198,7 @@ class Symmlq(KrylovMethod) :
             #  Cause termination (later) if beta is essentially zero.
 
             beta = np.sqrt(beta)
-            if beta <= eps:
+            if beta <= eps * np.abs(alfa):
                 istop = -1
 
             #  See if the local reorthogonalization achieved anything.
@@ -215,8 +215,8 @@ class Symmlq(KrylovMethod) :
             #  Initialize other quantities.
             cgnorm = beta1 ; rhs2   = 0 ; tnorm  = alfa**2 + beta**2
             gbar   = alfa  ; bstep  = 0 ; ynorm2 = 0
-            dbar   = beta  ; snprod = 1 ; gmax   = np.abs(alfa) + eps
-            rhs1   = beta1 ; x1cg   = 0 ; gmin   = gmax
+            dbar   = beta  ; snprod = 1 ; gmax   = np.abs(alfa)
+            rhs1   = beta1 ; x1cg   = 0 ; gmin   = np.inf
             qrnorm = beta1
 
         # end  if beta1 > 0
-- 
2.43.0


From 85d6c54333f11c1e1053babe1c8ce764508eeb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:44 +0000
Subject: [PATCH 38/41] fix: LSMR: the condition estimate must not contain the
 initial rhobar = 1

With a small A, LSMR stopped at once, reporting an ill-conditioned operator.
---
 pykrylov/lls/lsmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index fc69f8b..b1c6a68 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -408,8 +408,8 @@ class LSMRFramework(KrylovMethod):
             normA2        = normA2 + alpha*alpha
 
             # Estimate cond(A).
-            maxrbar       = max(maxrbar,rhobarold)
             if itn>1:
+              maxrbar     = max(maxrbar,rhobarold)
               minrbar     = min(minrbar,rhobarold)
             condA         = max(maxrbar,rhotemp)/min(minrbar,rhotemp)
 
-- 
2.43.0


From 4d86e7bb750c3780701544f3921f6a21d164a97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:26 +0000
Subject: [PATCH 39/41] fix: L-BFGS operators: accept vectors of integers

---
 pykrylov/linop/lbfgs.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pykrylov/linop/lbfgs.py b/pykrylov/linop/lbfgs.py
index da364a9..f01689c 100644
--- a/pykrylov/linop/lbfgs.py
+++ b/pykrylov/linop/lbfgs.py
@@ -101,7 +101,7 @@ class InverseLBFGSOperator(LinearOperator):
         positive-definite approximation to the inverse Hessian matrix and the
         vector v using the LBFGS two-loop recursion formula.
         """
-        q = v.copy()
+        q = v.astype(np.result_type(v, self.s))
         s = self.s
         y = self.y
         ys = self.ys
@@ -147,7 +147,7 @@ class LBFGSOperator(InverseLBFGSOperator):
         Note: there is probably some optimization that could be done in this
         function with respect to memory use and storing key dot products.
         """
-        q = v.copy()
+        q = v.astype(np.result_type(v, self.s))
         s = self.s
         y = self.y
         ys = self.ys
@@ -201,8 +201,8 @@ class CompactLBFGSOperator(InverseLBFGSOperator):
         Note: there is probably some optimization that could be done in this
         function with respect to memory use and caching key dot products.
         """
-        q = v.copy()
-        r = v.copy()
+        q = v.astype(np.result_type(v, self.s))
+        r = v.astype(np.result_type(v, self.s))
         s = self.s
         y = self.y
         ys = self.ys
@@ -294,7 +294,7 @@ class StructuredLBFGSOperator(InverseLBFGSOperator):
         Note: there is probably some optimization that could be done in this
         function with respect to memory use and storing key dot products.
         """
-        q = v.copy()
+        q = v.astype(np.result_type(v, self.s))
         s = self.s
         y = self.y
         yd = self.yd
-- 
2.43.0


From d7755890015e244272cebe16662d4fedf87fa2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:05 +0000
Subject: [PATCH 40/41] fix: SYMMLQ stores iterates with the step along b, and
 the solution last

---
 pykrylov/symmlq/symmlq.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index 291c90f..3362531 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -133,6 +133,7 @@ class Symmlq(KrylovMethod) :
             y = self.precon * r1
         else:
             y = rhs.copy()
+        y0 = y.copy()     # Direction of the accumulated step along b.
         b1 = y[0] ; beta1 = np.dot(r1, y)
         self.residNorm0 = np.sqrt(np.abs(beta1))
 
@@ -338,12 +339,14 @@ class Symmlq(KrylovMethod) :
                 x += s*w + t*v
                 w *= sn ; w -= cs*v
 
-                if store_iterates:
-                    self.iterates.append(x.copy())
-
                 # Accumulate the step along the direction b, and go round again.
 
                 bstep  = snprod * cs * z  +  bstep
+
+                if store_iterates:
+                    # The LQ point includes the step along b.
+                    self.iterates.append(x + (bstep / beta1) * y0)
+
                 snprod = snprod * sn
                 gmax   = max(gmax, gamma)
                 gmin   = min(gmin, gamma)
@@ -376,6 +379,9 @@ class Symmlq(KrylovMethod) :
             y = rhs.copy()
         x += bstep * y
 
+        if store_iterates and cgnorm < lqnorm:
+            self.iterates.append(x.copy())
+
         # Compute the final residual,  r1 = b - (A - shift*I)*x.
 
         y = self.op * x ; nMatvec += 1
-- 
2.43.0


From 952be388b2e72747e5b5c084ffda65c980db2a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:05 +0000
Subject: [PATCH 41/41] fix: symmetry checks with a slack relative to the scale
 of the operator

---
 pykrylov/symmlq/symmlq.py | 6 ++++--
 pykrylov/tools/utils.py   | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index 3362531..d33de3d 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -144,7 +144,8 @@ class Symmlq(KrylovMethod) :
             s = np.dot(y,y)
             t = np.dot(r1,r2)
             z = np.abs(s-t)
-            epsa = (s+eps) * eps**(1.0/3)
+            slack = 10 * n * eps * np.linalg.norm(r1) * np.linalg.norm(r2)
+            epsa = s * eps**(1.0/3) + slack
             if z > epsa:
                 istop = 7
                 done = True
@@ -169,7 +170,8 @@ class Symmlq(KrylovMethod) :
                 s = np.dot(y,y)
                 t = np.dot(v,r2)
                 z = abs(s-t)
-                epsa = (s+eps) * eps**(1.0/3)
+                slack = 10 * n * eps * np.linalg.norm(v) * np.linalg.norm(r2)
+                epsa = s * eps**(1.0/3) + slack
                 if z > epsa:
                     istop = 6
                     done = True
diff --git a/pykrylov/tools/utils.py b/pykrylov/tools/utils.py
index 44390b0..aba1c0d 100644
--- a/pykrylov/tools/utils.py
+++ b/pykrylov/tools/utils.py
@@ -83,8 +83,9 @@ def check_symmetric(op, repeats=10):
         s = np.dot(w, w)
         t = np.dot(x, r)
         z = abs(s - t)
-        epsa = (s + eps) * eps**(1.0/3)
-        if z > epsa:
+        # Allow for rounding errors in t, relative to the scale of `op`.
+        slack = 10 * n * eps * np.linalg.norm(x) * np.linalg.norm(r)
+        if z > s * eps**(1.0/3) + slack:
             return False
     return True
 
-- 
2.43.0

