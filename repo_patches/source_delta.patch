From c925ddff9287fc8f332be58a7836016736575c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 01/26] fix: zeros_like keeps the mask of the array

---
 pylops_mpi/DistributedArray.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index 431ddb6..0307825 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -545,6 +545,7 @@ class DistributedArray:
                                partition=self.partition,
                                axis=self.axis,
                                local_shapes=self.local_shapes,
+                               mask=self.mask,
                                engine=self.engine,
                                dtype=self.dtype)
         arr[:] = 0.
-- 
2.43.0


From 269d6453e0667c4b2250a3a9b68b9f942dea3574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 02/26] fix: ravel keeps the communicator of the array

---
 pylops_mpi/DistributedArray.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index 0307825..70bcd2f 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -617,6 +617,7 @@ class DistributedArray:
         """
         local_shapes = [(np.prod(local_shape, axis=-1), ) for local_shape in self.local_shapes]
         arr = DistributedArray(global_shape=np.prod(self.global_shape),
+                               base_comm=self.base_comm,
                                local_shapes=local_shapes,
                                mask=self.mask,
                                partition=self.partition,
-- 
2.43.0


From db9f9ae674eabfe8967dba99fd584b68d670fb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 03/26] fix: dot and norm of broadcasted arrays use the
 communicator of the array

---
 pylops_mpi/DistributedArray.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index 70bcd2f..6e2b85a 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -488,9 +488,9 @@ class DistributedArray:
         self._check_mask(dist_array)
 
         # Convert to Partition.SCATTER if Partition.BROADCAST
-        x = DistributedArray.to_dist(x=self.local_array) \
+        x = DistributedArray.to_dist(x=self.local_array, base_comm=self.base_comm) \
             if self.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST] else self
-        y = DistributedArray.to_dist(x=dist_array.local_array) \
+        y = DistributedArray.to_dist(x=dist_array.local_array, base_comm=self.base_comm) \
             if self.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST] else dist_array
         # Flatten the local arrays and calculate dot product
         return self._allreduce_subcomm(np.dot(x.local_array.flatten(), y.local_array.flatten()))
@@ -563,7 +563,7 @@ class DistributedArray:
             Axis along which vector norm needs to be computed. Defaults to ``-1``
         """
         # Convert to Partition.SCATTER if Partition.BROADCAST
-        x = DistributedArray.to_dist(x=self.local_array) \
+        x = DistributedArray.to_dist(x=self.local_array, base_comm=self.base_comm) \
             if self.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST] else self
         if axis == -1:
             # Flatten the local arrays and calculate norm
-- 
2.43.0


From 6438c59e3e3c9a4944052cf9ee08dc7ac6959cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 04/26] fix: MPIFredholm1 refuses single-slice ranks on every
 rank

---
 pylops_mpi/signalprocessing/Fredholm1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylops_mpi/signalprocessing/Fredholm1.py b/pylops_mpi/signalprocessing/Fredholm1.py
index 3b8a9ef..53dce6e 100644
--- a/pylops_mpi/signalprocessing/Fredholm1.py
+++ b/pylops_mpi/signalprocessing/Fredholm1.py
@@ -87,7 +87,7 @@ class MPIFredholm1(MPILinearOperator):
         self.nz = nz
         self.nsl, self.nx, self.ny = G.shape
         self.nsls = base_comm.allgather(self.nsl)
-        if base_comm.Get_rank() == 0 and 1 in self.nsls:
+        if 1 in self.nsls:
             raise NotImplementedError(f'All ranks must have at least 2 or more '
                                       f'elements in the first dimension: '
                                       f'local split is instead {self.nsls}...')
-- 
2.43.0


From bf0f91c7914e5819c20f2a39aa3051820144a4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 05/26] fix: infinity norms of arrays with ranks that own no
 elements

---
 pylops_mpi/DistributedArray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index 6e2b85a..b8b7896 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -523,12 +523,12 @@ class DistributedArray:
             recv_buf = self._allreduce_subcomm(np.count_nonzero(local_array, axis=axis).astype(np.float64))
         elif ord == np.inf:
             # Calculate max followed by max reduction
-            recv_buf = self._allreduce_subcomm(np.max(np.abs(local_array), axis=axis).astype(np.float64),
+            recv_buf = self._allreduce_subcomm(np.max(np.abs(local_array).astype(np.float64), axis=axis, initial=0.),
                                                recv_buf, op=MPI.MAX)
             recv_buf = np.squeeze(recv_buf, axis=axis)
         elif ord == -np.inf:
             # Calculate min followed by min reduction
-            recv_buf = self._allreduce_subcomm(np.min(np.abs(local_array), axis=axis).astype(np.float64),
+            recv_buf = self._allreduce_subcomm(np.min(np.abs(local_array).astype(np.float64), axis=axis, initial=np.inf),
                                                recv_buf, op=MPI.MIN)
             recv_buf = np.squeeze(recv_buf, axis=axis)
 
-- 
2.43.0


From c56eb6a410a856368cc1ae3048d70fb75164b425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 06/26] fix: powers of stacked operators apply the operator

---
 pylops_mpi/StackedLinearOperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylops_mpi/StackedLinearOperator.py b/pylops_mpi/StackedLinearOperator.py
index 2133954..a4d1fd5 100644
--- a/pylops_mpi/StackedLinearOperator.py
+++ b/pylops_mpi/StackedLinearOperator.py
@@ -366,7 +366,7 @@ class _PowerLinearOperator(MPIStackedLinearOperator):
     def _power(self, fun: Callable, x: Union[StackedDistributedArray, DistributedArray]) -> Union[StackedDistributedArray, DistributedArray]:
         res = x.copy()
         for _ in range(self.args[1]):
-            res[:] = fun(res)[:]
+            res = fun(res)
         return res
 
     def _matvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
-- 
2.43.0


From 1b288945e3e23e7a84b08acd50d4e0ac8bc4f5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 07/26] fix: CGLS setup damps with the squared damping
 coefficient

---
 pylops_mpi/optimization/cls_basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylops_mpi/optimization/cls_basic.py b/pylops_mpi/optimization/cls_basic.py
index db7349a..cf250f5 100644
--- a/pylops_mpi/optimization/cls_basic.py
+++ b/pylops_mpi/optimization/cls_basic.py
@@ -337,7 +337,7 @@ class CGLS(Solver):
 
         x = x0.copy()
         self.s = self.y - self.Op.matvec(x)
-        damped_x = x * damp
+        damped_x = x * self.damp
         r = self.Op.rmatvec(self.s) - damped_x
         self.rank = x.rank
         self.c = r.copy()
@@ -348,7 +348,7 @@ class CGLS(Solver):
         self.cost = []
         self.cost1 = []
         self.cost.append(float(self.s.norm()))
-        self.cost1.append(np.sqrt(float(self.cost[0] ** 2 + damp * np.abs(x.dot(x.conj())))))
+        self.cost1.append(np.sqrt(float(self.cost[0] ** 2 + self.damp * np.abs(x.dot(x.conj())))))
         self.iiter = 0
 
         # print setup
-- 
2.43.0


From 2106a3206398a8504e2dc1071f6f2a7a4c378025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 08/26] fix: CGLS r1norm is the norm of the residual, as
 documented

---
 pylops_mpi/optimization/cls_basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylops_mpi/optimization/cls_basic.py b/pylops_mpi/optimization/cls_basic.py
index cf250f5..34a1884 100644
--- a/pylops_mpi/optimization/cls_basic.py
+++ b/pylops_mpi/optimization/cls_basic.py
@@ -454,7 +454,7 @@ class CGLS(Solver):
         self.telapsed = self.tend - self.tstart
         # reason for termination
         self.istop = 1 if self.kold < self.tol else 2
-        self.r1norm = self.kold
+        self.r1norm = self.cost[self.iiter]
         self.r2norm = self.cost1[self.iiter]
         if show and self.rank == 0:
             self._print_finalize(nbar=65)
-- 
2.43.0


From b66caa85de4d2963d8d72b346ab42b4dd31abd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:50 +0000
Subject: [PATCH 09/26] fix: derived operators keep the communicator of their
 operands

---
 pylops_mpi/LinearOperator.py        | 12 ++++++------
 pylops_mpi/StackedLinearOperator.py | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/pylops_mpi/LinearOperator.py b/pylops_mpi/LinearOperator.py
index a7bc9be..05cee1b 100644
--- a/pylops_mpi/LinearOperator.py
+++ b/pylops_mpi/LinearOperator.py
@@ -240,7 +240,7 @@ class _AdjointLinearOperator(MPILinearOperator):
         self.A = A
         self.args = (A,)
         super().__init__(shape=(A.shape[1], A.shape[0]), dtype=A.dtype,
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         return self.A.rmatvec(x)
@@ -256,7 +256,7 @@ class _TransposedLinearOperator(MPILinearOperator):
         self.A = A
         self.args = (A,)
         super().__init__(shape=(A.shape[1], A.shape[0]), dtype=A.dtype,
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         x = x.conj()
@@ -281,7 +281,7 @@ class _ProductLinearOperator(MPILinearOperator):
             raise ValueError('cannot multiply %r and %r: shape mismatch' % (A, B))
         self.args = (A, B)
         super().__init__(shape=(A.shape[0], B.shape[1]), dtype=_get_dtype([A, B]),
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         return self.args[0].matvec(self.args[1].matvec(x))
@@ -305,7 +305,7 @@ class _ScaledLinearOperator(MPILinearOperator):
             raise ValueError('scalar expected as alpha')
         self.args = (A, alpha)
         super().__init__(shape=A.shape, dtype=_get_dtype([A], [type(alpha)]),
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         y = self.args[0].matvec(x)
@@ -335,7 +335,7 @@ class _SumLinearOperator(MPILinearOperator):
         if A.shape != B.shape:
             raise ValueError("cannot add %r and %r: shape mismatch" % (A, B))
         self.args = (A, B)
-        super().__init__(shape=A.shape, dtype=A.dtype, base_comm=MPI.COMM_WORLD)
+        super().__init__(shape=A.shape, dtype=A.dtype, base_comm=A.base_comm)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         arr1 = self.args[0].matvec(x)
@@ -388,7 +388,7 @@ class _ConjLinearOperator(MPILinearOperator):
         if not isinstance(A, MPILinearOperator):
             raise TypeError('A must be a MPILinearOperator')
         self.A = A
-        super().__init__(shape=A.shape, dtype=A.dtype, base_comm=MPI.COMM_WORLD)
+        super().__init__(shape=A.shape, dtype=A.dtype, base_comm=A.base_comm)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         x = x.conj()
diff --git a/pylops_mpi/StackedLinearOperator.py b/pylops_mpi/StackedLinearOperator.py
index a4d1fd5..d5af615 100644
--- a/pylops_mpi/StackedLinearOperator.py
+++ b/pylops_mpi/StackedLinearOperator.py
@@ -230,7 +230,7 @@ class _AdjointStackedLinearOperator(MPIStackedLinearOperator):
         self.A = A
         self.args = (A,)
         super().__init__(shape=(A.shape[1], A.shape[0]), dtype=A.dtype,
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
         return self.A.rmatvec(x)
@@ -246,7 +246,7 @@ class _TransposedStackedLinearOperator(MPIStackedLinearOperator):
         self.A = A
         self.args = (A,)
         super().__init__(shape=(A.shape[1], A.shape[0]), dtype=A.dtype,
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
         x = x.conj()
@@ -276,7 +276,7 @@ class _ProductStackedLinearOperator(MPIStackedLinearOperator):
             raise ValueError('cannot multiply %r and %r: shape mismatch' % (A, B))
         self.args = (A, B)
         super().__init__(shape=(A.shape[0], B.shape[1]), dtype=_get_dtype([A, B]),
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: Union[StackedDistributedArray, DistributedArray]) -> Union[StackedDistributedArray, DistributedArray]:
         return self.args[0].matvec(self.args[1].matvec(x))
@@ -300,7 +300,7 @@ class _ScaledStackedLinearOperator(MPIStackedLinearOperator):
             raise ValueError('scalar expected as alpha')
         self.args = (A, alpha)
         super().__init__(shape=A.shape, dtype=_get_dtype([A], [type(alpha)]),
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
         y = self.args[0].matvec(x)
@@ -331,7 +331,7 @@ class _SumStackedLinearOperator(MPIStackedLinearOperator):
         if A.shape != B.shape:
             raise ValueError("cannot add %r and %r: shape mismatch" % (A, B))
         self.args = (A, B)
-        super().__init__(shape=A.shape, dtype=A.dtype, base_comm=MPI.COMM_WORLD)
+        super().__init__(shape=A.shape, dtype=A.dtype, base_comm=A.base_comm)
 
     def _matvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
         arr1 = self.args[0].matvec(x)
@@ -384,7 +384,7 @@ class _ConjLinearOperator(MPIStackedLinearOperator):
         if not isinstance(A, MPIStackedLinearOperator):
             raise TypeError('A must be a MPIStackedLinearOperator')
         self.A = A
-        super().__init__(shape=A.shape, dtype=A.dtype, base_comm=MPI.COMM_WORLD)
+        super().__init__(shape=A.shape, dtype=A.dtype, base_comm=A.base_comm)
 
     def _matvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
         x = x.conj()
-- 
2.43.0


From 7a7f8533b741b84bad21112629e49e6381c094b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:00 +0000
Subject: [PATCH 10/26] fix: operators build their results on the communicator
 they are given

---
 pylops_mpi/basicoperators/BlockDiag.py        |  4 ++--
 pylops_mpi/basicoperators/FirstDerivative.py  | 20 +++++++++----------
 pylops_mpi/basicoperators/Gradient.py         |  5 +++--
 pylops_mpi/basicoperators/Laplacian.py        |  8 ++++++--
 pylops_mpi/basicoperators/SecondDerivative.py | 16 +++++++--------
 pylops_mpi/basicoperators/VStack.py           |  4 ++--
 pylops_mpi/signalprocessing/Fredholm1.py      |  4 ++--
 pylops_mpi/utils/decorators.py                |  1 +
 pylops_mpi/waveeqprocessing/MDC.py            | 12 +++++++----
 9 files changed, 42 insertions(+), 32 deletions(-)

diff --git a/pylops_mpi/basicoperators/BlockDiag.py b/pylops_mpi/basicoperators/BlockDiag.py
index 2851110..626563f 100644
--- a/pylops_mpi/basicoperators/BlockDiag.py
+++ b/pylops_mpi/basicoperators/BlockDiag.py
@@ -121,7 +121,7 @@ class MPIBlockDiag(MPILinearOperator):
     @reshaped(forward=True, stacking=True)
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=self.shape[0], local_shapes=self.local_shapes_n,
+        y = DistributedArray(global_shape=self.shape[0], base_comm=x.base_comm, local_shapes=self.local_shapes_n,
                              mask=self.mask, engine=x.engine, dtype=self.dtype)
         y1 = []
         for iop, oper in enumerate(self.ops):
@@ -133,7 +133,7 @@ class MPIBlockDiag(MPILinearOperator):
     @reshaped(forward=False, stacking=True)
     def _rmatvec(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=self.shape[1], local_shapes=self.local_shapes_m,
+        y = DistributedArray(global_shape=self.shape[1], base_comm=x.base_comm, local_shapes=self.local_shapes_m,
                              mask=self.mask, engine=x.engine, dtype=self.dtype)
         y1 = []
         for iop, oper in enumerate(self.ops):
diff --git a/pylops_mpi/basicoperators/FirstDerivative.py b/pylops_mpi/basicoperators/FirstDerivative.py
index 5adbe28..2fa1797 100644
--- a/pylops_mpi/basicoperators/FirstDerivative.py
+++ b/pylops_mpi/basicoperators/FirstDerivative.py
@@ -129,19 +129,19 @@ class MPIFirstDerivative(MPILinearOperator):
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         # If Partition.BROADCAST, then convert to Partition.SCATTER
         if x.partition is Partition.BROADCAST:
-            x = DistributedArray.to_dist(x=x.local_array)
+            x = DistributedArray.to_dist(x=x.local_array, base_comm=x.base_comm)
         return self._hmatvec(x)
 
     def _rmatvec(self, x: DistributedArray) -> DistributedArray:
         # If Partition.BROADCAST, then convert to Partition.SCATTER
         if x.partition is Partition.BROADCAST:
-            x = DistributedArray.to_dist(x=x.local_array)
+            x = DistributedArray.to_dist(x=x.local_array, base_comm=x.base_comm)
         return self._hrmatvec(x)
 
     @reshaped
     def _matvec_forward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         ghosted_x = x.add_ghost_cells(cells_back=1)
         y_forward = ghosted_x[1:] - ghosted_x[:-1]
@@ -153,7 +153,7 @@ class MPIFirstDerivative(MPILinearOperator):
     @reshaped
     def _rmatvec_forward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         y[:] = 0
         if self.rank == self.size - 1:
@@ -171,7 +171,7 @@ class MPIFirstDerivative(MPILinearOperator):
     @reshaped
     def _matvec_backward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         ghosted_x = x.add_ghost_cells(cells_front=1)
         y_backward = ghosted_x[1:] - ghosted_x[:-1]
@@ -183,7 +183,7 @@ class MPIFirstDerivative(MPILinearOperator):
     @reshaped
     def _rmatvec_backward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         y[:] = 0
         ghosted_x = x.add_ghost_cells(cells_back=1)
@@ -201,7 +201,7 @@ class MPIFirstDerivative(MPILinearOperator):
     @reshaped
     def _matvec_centered3(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         ghosted_x = x.add_ghost_cells(cells_front=1, cells_back=1)
         y_centered = 0.5 * (ghosted_x[2:] - ghosted_x[:-2])
@@ -221,7 +221,7 @@ class MPIFirstDerivative(MPILinearOperator):
     @reshaped
     def _rmatvec_centered3(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         y[:] = 0
 
@@ -249,7 +249,7 @@ class MPIFirstDerivative(MPILinearOperator):
     @reshaped
     def _matvec_centered5(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         ghosted_x = x.add_ghost_cells(cells_front=2, cells_back=2)
         y_centered = (
@@ -276,7 +276,7 @@ class MPIFirstDerivative(MPILinearOperator):
     @reshaped
     def _rmatvec_centered5(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         y[:] = 0
         ghosted_x = x.add_ghost_cells(cells_back=4)
diff --git a/pylops_mpi/basicoperators/Gradient.py b/pylops_mpi/basicoperators/Gradient.py
index 89fd5af..ef52750 100644
--- a/pylops_mpi/basicoperators/Gradient.py
+++ b/pylops_mpi/basicoperators/Gradient.py
@@ -103,6 +103,7 @@ class MPIGradient(MPIStackedLinearOperator):
         grad_ops = []
         Op1 = MPIFirstDerivative(dims=self.dims, sampling=self.sampling[0],
                                  kind=self.kind, edge=self.edge,
+                                 base_comm=self.base_comm,
                                  dtype=self.dtype)
         grad_ops.append(Op1)
         for iax in range(1, ndims):
@@ -114,6 +115,6 @@ class MPIGradient(MPIStackedLinearOperator):
                     edge=self.edge,
                     kind=self.kind,
                     dtype=self.dtype)
-            ])
+            ], base_comm=self.base_comm)
             grad_ops.append(diag)
-        return MPIStackedVStack(ops=grad_ops)
+        return MPIStackedVStack(ops=grad_ops, base_comm=self.base_comm)
diff --git a/pylops_mpi/basicoperators/Laplacian.py b/pylops_mpi/basicoperators/Laplacian.py
index 7cc482e..39185e5 100644
--- a/pylops_mpi/basicoperators/Laplacian.py
+++ b/pylops_mpi/basicoperators/Laplacian.py
@@ -101,6 +101,7 @@ class MPILaplacian(MPILinearOperator):
                                                          sampling=self.sampling[0],
                                                          kind=self.kind,
                                                          edge=self.edge,
+                                                         base_comm=self.base_comm,
                                                          dtype=self.dtype)
         else:
             l2op = self.weights[0] * MPIBlockDiag(ops=[SecondDerivative(dims=local_dims,
@@ -108,17 +109,20 @@ class MPILaplacian(MPILinearOperator):
                                                                         sampling=self.sampling[0],
                                                                         kind=self.kind,
                                                                         edge=self.edge,
-                                                                        dtype=self.dtype)])
+                                                                        dtype=self.dtype)],
+                                                  base_comm=self.base_comm)
         for ax, samp, weight in zip(self.axes[1:], self.sampling[1:], self.weights[1:]):
             if ax == 0:
                 l2op += weight * MPISecondDerivative(dims=self.dims,
                                                      sampling=samp,
                                                      edge=self.edge,
+                                                     base_comm=self.base_comm,
                                                      dtype=self.dtype)
             else:
                 l2op += weight * MPIBlockDiag(ops=[SecondDerivative(dims=local_dims,
                                                                     axis=ax,
                                                                     sampling=samp,
                                                                     edge=self.edge,
-                                                                    dtype=self.dtype)])
+                                                                    dtype=self.dtype)],
+                                              base_comm=self.base_comm)
         return l2op
diff --git a/pylops_mpi/basicoperators/SecondDerivative.py b/pylops_mpi/basicoperators/SecondDerivative.py
index 6c4fb96..91bfe91 100644
--- a/pylops_mpi/basicoperators/SecondDerivative.py
+++ b/pylops_mpi/basicoperators/SecondDerivative.py
@@ -112,19 +112,19 @@ class MPISecondDerivative(MPILinearOperator):
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         # If Partition.BROADCAST, then convert to Partition.SCATTER
         if x.partition is Partition.BROADCAST:
-            x = DistributedArray.to_dist(x=x.local_array)
+            x = DistributedArray.to_dist(x=x.local_array, base_comm=x.base_comm)
         return self._hmatvec(x)
 
     def _rmatvec(self, x: DistributedArray) -> DistributedArray:
         # If Partition.BROADCAST, then convert to Partition.SCATTER
         if x.partition is Partition.BROADCAST:
-            x = DistributedArray.to_dist(x=x.local_array)
+            x = DistributedArray.to_dist(x=x.local_array, base_comm=x.base_comm)
         return self._hrmatvec(x)
 
     @reshaped
     def _matvec_forward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         ghosted_x = x.add_ghost_cells(cells_back=2)
         y_forward = ghosted_x[2:] - 2 * ghosted_x[1:-1] + ghosted_x[:-2]
@@ -136,7 +136,7 @@ class MPISecondDerivative(MPILinearOperator):
     @reshaped
     def _rmatvec_forward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes, axis=x.axis, dtype=self.dtype)
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes, axis=x.axis, dtype=self.dtype)
         y[:] = 0
         if self.rank == self.size - 1:
             y[:-2] += x[:-2]
@@ -162,7 +162,7 @@ class MPISecondDerivative(MPILinearOperator):
     @reshaped
     def _matvec_backward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         ghosted_x = x.add_ghost_cells(cells_front=2)
         y_backward = ghosted_x[2:] - 2 * ghosted_x[1:-1] + ghosted_x[:-2]
@@ -174,7 +174,7 @@ class MPISecondDerivative(MPILinearOperator):
     @reshaped
     def _rmatvec_backward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         y[:] = 0
         ghosted_x = x.add_ghost_cells(cells_back=2)
@@ -201,7 +201,7 @@ class MPISecondDerivative(MPILinearOperator):
     @reshaped
     def _matvec_centered(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         ghosted_x = x.add_ghost_cells(cells_front=1, cells_back=1)
         y_centered = ghosted_x[2:] - 2 * ghosted_x[1:-1] + ghosted_x[:-2]
@@ -221,7 +221,7 @@ class MPISecondDerivative(MPILinearOperator):
     @reshaped
     def _rmatvec_centered(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         y[:] = 0
         ghosted_x = x.add_ghost_cells(cells_back=2)
diff --git a/pylops_mpi/basicoperators/VStack.py b/pylops_mpi/basicoperators/VStack.py
index f869a9a..2480d69 100644
--- a/pylops_mpi/basicoperators/VStack.py
+++ b/pylops_mpi/basicoperators/VStack.py
@@ -121,7 +121,7 @@ class MPIVStack(MPILinearOperator):
         if x.partition not in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST]:
             raise ValueError(f"x should have partition={Partition.BROADCAST},{Partition.UNSAFE_BROADCAST}"
                              f"Got  {x.partition} instead...")
-        y = DistributedArray(global_shape=self.shape[0], local_shapes=self.local_shapes_n,
+        y = DistributedArray(global_shape=self.shape[0], base_comm=x.base_comm, local_shapes=self.local_shapes_n,
                              engine=x.engine, dtype=self.dtype)
         y1 = []
         for iop, oper in enumerate(self.ops):
@@ -132,7 +132,7 @@ class MPIVStack(MPILinearOperator):
     @reshaped(forward=False, stacking=True)
     def _rmatvec(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=self.shape[1], partition=Partition.BROADCAST,
+        y = DistributedArray(global_shape=self.shape[1], base_comm=x.base_comm, partition=Partition.BROADCAST,
                              engine=x.engine, dtype=self.dtype)
         y1 = []
         for iop, oper in enumerate(self.ops):
diff --git a/pylops_mpi/signalprocessing/Fredholm1.py b/pylops_mpi/signalprocessing/Fredholm1.py
index 53dce6e..dde94f6 100644
--- a/pylops_mpi/signalprocessing/Fredholm1.py
+++ b/pylops_mpi/signalprocessing/Fredholm1.py
@@ -111,7 +111,7 @@ class MPIFredholm1(MPILinearOperator):
         if x.partition not in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST]:
             raise ValueError(f"x should have partition={Partition.BROADCAST},{Partition.UNSAFE_BROADCAST}"
                              f"Got  {x.partition} instead...")
-        y = DistributedArray(global_shape=self.shape[0], partition=Partition.BROADCAST,
+        y = DistributedArray(global_shape=self.shape[0], base_comm=x.base_comm, partition=Partition.BROADCAST,
                              engine=x.engine, dtype=self.dtype)
         x = x.local_array.reshape(self.dims).squeeze()
         x = x[self.islstart[self.rank]:self.islend[self.rank]]
@@ -133,7 +133,7 @@ class MPIFredholm1(MPILinearOperator):
         if x.partition not in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST]:
             raise ValueError(f"x should have partition={Partition.BROADCAST},{Partition.UNSAFE_BROADCAST}"
                              f"Got  {x.partition} instead...")
-        y = DistributedArray(global_shape=self.shape[1], partition=Partition.BROADCAST,
+        y = DistributedArray(global_shape=self.shape[1], base_comm=x.base_comm, partition=Partition.BROADCAST,
                              engine=x.engine, dtype=self.dtype)
         x = x.local_array.reshape(self.dimsd).squeeze()
         x = x[self.islstart[self.rank]:self.islend[self.rank]]
diff --git a/pylops_mpi/utils/decorators.py b/pylops_mpi/utils/decorators.py
index 457b559..b4a869d 100644
--- a/pylops_mpi/utils/decorators.py
+++ b/pylops_mpi/utils/decorators.py
@@ -54,6 +54,7 @@ def reshaped(
                 local_shapes = None
                 global_shape = getattr(self, "dims")
             arr = DistributedArray(global_shape=global_shape,
+                                   base_comm=x.base_comm,
                                    local_shapes=local_shapes, axis=0,
                                    engine=x.engine, dtype=x.dtype)
             arr_local_shapes = np.asarray(arr.base_comm.allgather(np.prod(arr.local_shape)))
diff --git a/pylops_mpi/waveeqprocessing/MDC.py b/pylops_mpi/waveeqprocessing/MDC.py
index 18980bf..a21fdef 100644
--- a/pylops_mpi/waveeqprocessing/MDC.py
+++ b/pylops_mpi/waveeqprocessing/MDC.py
@@ -53,15 +53,19 @@ def _MDC(G, nt, nv, nfmax, dt=1., dr=1., twosided=True,
         logging.warning('nfmax set equal to ceil[(nt+1)/2=%d]' % nfmax)
 
     Fop = MPILinearOperator(_FFT(dims=(nt, nr, nv), axis=0, real=True,
-                                 ifftshift_before=twosided, dtype=rdtype, **args_FFT))
+                                 ifftshift_before=twosided, dtype=rdtype, **args_FFT),
+                          base_comm=base_comm)
     F1op = MPILinearOperator(_FFT(dims=(nt, ns, nv), axis=0, real=True,
-                                  ifftshift_before=False, dtype=rdtype, **args_FFT1))
+                                  ifftshift_before=False, dtype=rdtype, **args_FFT1),
+                           base_comm=base_comm)
 
     # create Identity operator to extract only relevant frequencies
     Iop = MPILinearOperator(_Identity(N=nfmax * nr * nv, M=nfft * nr * nv,
-                                      inplace=True, dtype=dtype, **args_Identity))
+                                      inplace=True, dtype=dtype, **args_Identity),
+                          base_comm=base_comm)
     I1op = MPILinearOperator(_Identity(N=nfmax * ns * nv, M=nfft * ns * nv,
-                                       inplace=True, dtype=dtype, **args_Identity1))
+                                       inplace=True, dtype=dtype, **args_Identity1),
+                           base_comm=base_comm)
     F1opH = F1op.H
     I1opH = I1op.H
 
-- 
2.43.0


From d71a48e707448c4766c57613e796f6e05ff56980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 11/26] fix: sums, products and scaled operators keep the
 imaginary part

---
 pylops_mpi/DistributedArray.py      | 19 +++++++------------
 pylops_mpi/LinearOperator.py        |  6 +++---
 pylops_mpi/StackedLinearOperator.py |  2 +-
 3 files changed, 11 insertions(+), 16 deletions(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index b8b7896..1e83841 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -441,7 +441,7 @@ class DistributedArray:
         self._check_mask(dist_array)
         SumArray = DistributedArray(global_shape=self.global_shape,
                                     base_comm=self.base_comm,
-                                    dtype=self.dtype,
+                                    dtype=np.result_type(self.dtype, dist_array.dtype),
                                     partition=self.partition,
                                     local_shapes=self.local_shapes,
                                     mask=self.mask,
@@ -465,9 +465,10 @@ class DistributedArray:
             self._check_partition_shape(dist_array)
             self._check_mask(dist_array)
 
+        factor = dist_array.dtype if isinstance(dist_array, DistributedArray) else dist_array
         ProductArray = DistributedArray(global_shape=self.global_shape,
                                         base_comm=self.base_comm,
-                                        dtype=self.dtype,
+                                        dtype=np.result_type(self.dtype, factor),
                                         partition=self.partition,
                                         local_shapes=self.local_shapes,
                                         mask=self.mask,
@@ -773,10 +774,7 @@ class StackedDistributedArray:
 
         """
         self._check_stacked_size(stacked_array)
-        SumArray = self.copy()
-        for iarr in range(self.narrays):
-            SumArray[iarr][:] = (self[iarr] + stacked_array[iarr])[:]
-        return SumArray
+        return StackedDistributedArray([self[iarr] + stacked_array[iarr] for iarr in range(self.narrays)])
 
     def iadd(self, stacked_array):
         """Stacked Distributed In-Place Addition of arrays
@@ -791,17 +789,14 @@ class StackedDistributedArray:
         """
         if isinstance(stacked_array, StackedDistributedArray):
             self._check_stacked_size(stacked_array)
-        ProductArray = self.copy()
 
         if isinstance(stacked_array, StackedDistributedArray):
             # multiply two DistributedArray
-            for iarr in range(self.narrays):
-                ProductArray[iarr][:] = (self[iarr] * stacked_array[iarr])[:]
+            products = [self[iarr] * stacked_array[iarr] for iarr in range(self.narrays)]
         else:
             # multiply with scalar
-            for iarr in range(self.narrays):
-                ProductArray[iarr][:] = (self[iarr] * stacked_array)[:]
-        return ProductArray
+            products = [self[iarr] * stacked_array for iarr in range(self.narrays)]
+        return StackedDistributedArray(products)
 
     def dot(self, stacked_array):
         """Dot Product of Stacked Distributed Arrays
diff --git a/pylops_mpi/LinearOperator.py b/pylops_mpi/LinearOperator.py
index 05cee1b..318a766 100644
--- a/pylops_mpi/LinearOperator.py
+++ b/pylops_mpi/LinearOperator.py
@@ -310,13 +310,13 @@ class _ScaledLinearOperator(MPILinearOperator):
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         y = self.args[0].matvec(x)
         if y is not None:
-            y[:] *= self.args[1]
+            y = y * self.args[1]
         return y
 
     def _rmatvec(self, x: DistributedArray) -> DistributedArray:
         y = self.args[0].rmatvec(x)
         if y is not None:
-            y[:] *= np.conj(self.args[1])
+            y = y * np.conj(self.args[1])
         return y
 
     def _adjoint(self) -> MPILinearOperator:
@@ -335,7 +335,7 @@ class _SumLinearOperator(MPILinearOperator):
         if A.shape != B.shape:
             raise ValueError("cannot add %r and %r: shape mismatch" % (A, B))
         self.args = (A, B)
-        super().__init__(shape=A.shape, dtype=A.dtype, base_comm=A.base_comm)
+        super().__init__(shape=A.shape, dtype=_get_dtype([A, B]), base_comm=A.base_comm)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         arr1 = self.args[0].matvec(x)
diff --git a/pylops_mpi/StackedLinearOperator.py b/pylops_mpi/StackedLinearOperator.py
index d5af615..a1c356d 100644
--- a/pylops_mpi/StackedLinearOperator.py
+++ b/pylops_mpi/StackedLinearOperator.py
@@ -331,7 +331,7 @@ class _SumStackedLinearOperator(MPIStackedLinearOperator):
         if A.shape != B.shape:
             raise ValueError("cannot add %r and %r: shape mismatch" % (A, B))
         self.args = (A, B)
-        super().__init__(shape=A.shape, dtype=A.dtype, base_comm=A.base_comm)
+        super().__init__(shape=A.shape, dtype=_get_dtype([A, B]), base_comm=A.base_comm)
 
     def _matvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
         arr1 = self.args[0].matvec(x)
-- 
2.43.0


From c72a298b3333e7bcd9bb00170a8b6069c11bf894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 12/26] fix: stacked arrays keep their communicator

---
 pylops_mpi/DistributedArray.py         | 9 +++++----
 pylops_mpi/basicoperators/BlockDiag.py | 4 ++--
 pylops_mpi/basicoperators/VStack.py    | 2 +-
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index 1e83841..c1bee2f 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -774,7 +774,8 @@ class StackedDistributedArray:
 
         """
         self._check_stacked_size(stacked_array)
-        return StackedDistributedArray([self[iarr] + stacked_array[iarr] for iarr in range(self.narrays)])
+        return StackedDistributedArray([self[iarr] + stacked_array[iarr] for iarr in range(self.narrays)],
+                                       base_comm=self.base_comm)
 
     def iadd(self, stacked_array):
         """Stacked Distributed In-Place Addition of arrays
@@ -796,7 +797,7 @@ class StackedDistributedArray:
         else:
             # multiply with scalar
             products = [self[iarr] * stacked_array for iarr in range(self.narrays)]
-        return StackedDistributedArray(products)
+        return StackedDistributedArray(products, base_comm=self.base_comm)
 
     def dot(self, stacked_array):
         """Dot Product of Stacked Distributed Arrays
@@ -836,13 +837,13 @@ class StackedDistributedArray:
     def conj(self):
         """Distributed conj() method
         """
-        ConjArray = StackedDistributedArray([distarray.conj() for distarray in self.distarrays])
+        ConjArray = StackedDistributedArray([distarray.conj() for distarray in self.distarrays], base_comm=self.base_comm)
         return ConjArray
 
     def copy(self):
         """Creates a copy of the DistributedArray
         """
-        arr = StackedDistributedArray([distarray.copy() for distarray in self.distarrays])
+        arr = StackedDistributedArray([distarray.copy() for distarray in self.distarrays], base_comm=self.base_comm)
         return arr
 
     def __repr__(self):
diff --git a/pylops_mpi/basicoperators/BlockDiag.py b/pylops_mpi/basicoperators/BlockDiag.py
index 626563f..e5a150b 100644
--- a/pylops_mpi/basicoperators/BlockDiag.py
+++ b/pylops_mpi/basicoperators/BlockDiag.py
@@ -178,10 +178,10 @@ class MPIStackedBlockDiag(MPIStackedLinearOperator):
         y1 = []
         for xx, oper in zip(x, self.ops):
             y1.append(oper.matvec(xx))
-        return StackedDistributedArray(y1)
+        return StackedDistributedArray(y1, base_comm=self.base_comm)
 
     def _rmatvec(self, x: StackedDistributedArray) -> StackedDistributedArray:
         y1 = []
         for xx, oper in zip(x, self.ops):
             y1.append(oper.rmatvec(xx))
-        return StackedDistributedArray(y1)
+        return StackedDistributedArray(y1, base_comm=self.base_comm)
diff --git a/pylops_mpi/basicoperators/VStack.py b/pylops_mpi/basicoperators/VStack.py
index 2480d69..9f33619 100644
--- a/pylops_mpi/basicoperators/VStack.py
+++ b/pylops_mpi/basicoperators/VStack.py
@@ -184,7 +184,7 @@ class MPIStackedVStack(MPIStackedLinearOperator):
         y1 = []
         for oper in self.ops:
             y1.append(oper.matvec(x))
-        y = StackedDistributedArray(y1)
+        y = StackedDistributedArray(y1, base_comm=self.base_comm)
         return y
 
     def _rmatvec(self, x: StackedDistributedArray) -> DistributedArray:
-- 
2.43.0


From daa4ff2840ba16f5fcd1797f3ea18071377f317b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 13/26] fix: add_ghost_cells refuses too many cells on every
 rank

---
 pylops_mpi/DistributedArray.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index c1bee2f..fb3999b 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -380,6 +380,18 @@ class DistributedArray:
             raise ValueError(f"Local Array Shape Mismatch - "
                              f"{self.local_shape} != {dist_array.local_shape}")
 
+    def _check_ghost_cells(self, cells):
+        """Check (at all ranks) that each rank has the cells its neighbour needs
+        """
+        dims = self.base_comm.allgather(self.local_shape[self.axis])
+        for rank, (dim, ncells) in enumerate(zip(dims, cells)):
+            if ncells > dim:
+                raise ValueError(f"Local Shape at rank={rank} along axis={self.axis} "
+                                 f"should be > {ncells}: dim({self.axis}) "
+                                 f"{dim} < {ncells}; "
+                                 f"to achieve this use NUM_PROCESSES <= "
+                                 f"{max(1, self.global_shape[self.axis] // ncells)}")
+
     def _check_mask(self, dist_array):
         """Check mask of the Array
         """
@@ -652,31 +664,21 @@ class DistributedArray:
         ghosted_array = self.local_array.copy()
         if cells_front is not None:
             total_cells_front = self.base_comm.allgather(cells_front) + [0]
+            self._check_ghost_cells(total_cells_front[1:])
             # Read cells_front which needs to be sent to rank + 1(cells_front for rank + 1)
             cells_front = total_cells_front[self.rank + 1]
             if self.rank != 0:
                 ghosted_array = np.concatenate([self.base_comm.recv(source=self.rank - 1, tag=1), ghosted_array],
                                                axis=self.axis)
             if self.rank != self.size - 1:
-                if cells_front > self.local_shape[self.axis]:
-                    raise ValueError(f"Local Shape at rank={self.rank} along axis={self.axis} "
-                                     f"should be > {cells_front}: dim({self.axis}) "
-                                     f"{self.local_shape[self.axis]} < {cells_front}; "
-                                     f"to achieve this use NUM_PROCESSES <= "
-                                     f"{max(1, self.global_shape[self.axis] // cells_front)}")
                 self.base_comm.send(np.take(self.local_array, np.arange(-cells_front, 0), axis=self.axis),
                                     dest=self.rank + 1, tag=1)
         if cells_back is not None:
             total_cells_back = self.base_comm.allgather(cells_back) + [0]
+            self._check_ghost_cells([0] + total_cells_back[:-2])
             # Read cells_back which needs to be sent to rank - 1(cells_back for rank - 1)
             cells_back = total_cells_back[self.rank - 1]
             if self.rank != 0:
-                if cells_back > self.local_shape[self.axis]:
-                    raise ValueError(f"Local Shape at rank={self.rank} along axis={self.axis} "
-                                     f"should be > {cells_back}: dim({self.axis}) "
-                                     f"{self.local_shape[self.axis]} < {cells_back}; "
-                                     f"to achieve this use NUM_PROCESSES <= "
-                                     f"{max(1, self.global_shape[self.axis] // cells_back)}")
                 self.base_comm.send(np.take(self.local_array, np.arange(cells_back), axis=self.axis),
                                     dest=self.rank - 1, tag=0)
             if self.rank != self.size - 1:
-- 
2.43.0


From 8acbb0d4c9e0c38bad320d0df329016b971dfd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 14/26] fix: local shapes that do not fit the global shape are
 refused on every rank

---
 pylops_mpi/DistributedArray.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index fb3999b..800916e 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -360,14 +360,15 @@ class DistributedArray:
                 raise ValueError(f"Length of local shapes is not equal to number of processes; "
                                  f"{len(local_shapes)} != {self.size}")
             # Check if local shape == global shape
-            if self.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST] and local_shapes[self.rank] != self.global_shape:
-                raise ValueError(f"Local shape is not equal to global shape at rank = {self.rank};"
-                                 f"{local_shapes[self.rank]} != {self.global_shape}")
+            if self.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST] and any(local_shape != self.global_shape for local_shape in local_shapes):
+                raise ValueError(f"Local shapes are not equal to global shape;"
+                                 f"{local_shapes} != {self.global_shape}")
             elif self.partition is Partition.SCATTER:
                 local_shape = local_shapes[self.rank]
                 # Check if local shape sum up to global shape and other dimensions align with global shape
                 if self._allreduce(local_shape[self.axis]) != self.global_shape[self.axis] or \
-                        not np.array_equal(np.delete(local_shape, self.axis), np.delete(self.global_shape, self.axis)):
+                        any(not np.array_equal(np.delete(shape, self.axis), np.delete(self.global_shape, self.axis))
+                            for shape in local_shapes):
                     raise ValueError(f"Local shapes don't align with the global shape;"
                                      f"{local_shapes} != {self.global_shape}")
 
-- 
2.43.0


From 9651c9d18c7e369d63b1bdf401ad94d2892adfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:49 +0000
Subject: [PATCH 15/26] fix: powers of operators keep the imaginary part and
 follow the layout

---
 pylops_mpi/LinearOperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylops_mpi/LinearOperator.py b/pylops_mpi/LinearOperator.py
index 318a766..b09cdda 100644
--- a/pylops_mpi/LinearOperator.py
+++ b/pylops_mpi/LinearOperator.py
@@ -370,7 +370,7 @@ class _PowerLinearOperator(MPILinearOperator):
     def _power(self, fun: Callable, x: DistributedArray) -> DistributedArray:
         res = x.copy()
         for _ in range(self.args[1]):
-            res[:] = fun(res).local_array
+            res = fun(res)
         return res
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
-- 
2.43.0


From c1fb9d48b79dd8fe3777d67c1e9b90a4d418becd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:17 +0000
Subject: [PATCH 16/26] fix: derivatives refuse too few rows on every rank

---
 pylops_mpi/basicoperators/FirstDerivative.py  | 14 ++++++++++++++
 pylops_mpi/basicoperators/SecondDerivative.py | 11 +++++++++++
 2 files changed, 25 insertions(+)

diff --git a/pylops_mpi/basicoperators/FirstDerivative.py b/pylops_mpi/basicoperators/FirstDerivative.py
index 2fa1797..e06550f 100644
--- a/pylops_mpi/basicoperators/FirstDerivative.py
+++ b/pylops_mpi/basicoperators/FirstDerivative.py
@@ -126,6 +126,10 @@ class MPIFirstDerivative(MPILinearOperator):
                 "'kind' must be 'forward', 'centered', or 'backward'"
             )
 
+    def _check_edge(self, x: DistributedArray, nrows: int) -> None:
+        # Check (at all ranks) that the outer ranks have the rows needed at the edges
+        x._check_ghost_cells([nrows if rank in (0, self.size - 1) else 0 for rank in range(self.size)])
+
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         # If Partition.BROADCAST, then convert to Partition.SCATTER
         if x.partition is Partition.BROADCAST:
@@ -153,6 +157,8 @@ class MPIFirstDerivative(MPILinearOperator):
     @reshaped
     def _rmatvec_forward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
+        # As in forward, each rank must have at least one row
+        x._check_ghost_cells([1] * self.size)
         y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         y[:] = 0
@@ -201,6 +207,8 @@ class MPIFirstDerivative(MPILinearOperator):
     @reshaped
     def _matvec_centered3(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
+        if self.edge:
+            self._check_edge(x, 2)
         y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         ghosted_x = x.add_ghost_cells(cells_front=1, cells_back=1)
@@ -221,6 +229,8 @@ class MPIFirstDerivative(MPILinearOperator):
     @reshaped
     def _rmatvec_centered3(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
+        if self.edge:
+            self._check_edge(x, 2)
         y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         y[:] = 0
@@ -249,6 +259,8 @@ class MPIFirstDerivative(MPILinearOperator):
     @reshaped
     def _matvec_centered5(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
+        if self.edge:
+            self._check_edge(x, 3)
         y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         ghosted_x = x.add_ghost_cells(cells_front=2, cells_back=2)
@@ -276,6 +288,8 @@ class MPIFirstDerivative(MPILinearOperator):
     @reshaped
     def _rmatvec_centered5(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
+        if self.edge:
+            self._check_edge(x, 3)
         y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         y[:] = 0
diff --git a/pylops_mpi/basicoperators/SecondDerivative.py b/pylops_mpi/basicoperators/SecondDerivative.py
index 91bfe91..e5ca3e5 100644
--- a/pylops_mpi/basicoperators/SecondDerivative.py
+++ b/pylops_mpi/basicoperators/SecondDerivative.py
@@ -109,6 +109,10 @@ class MPISecondDerivative(MPILinearOperator):
                 "'kind' must be 'forward', 'centered' or 'backward'"
             )
 
+    def _check_edge(self, x: DistributedArray, nrows: int) -> None:
+        # Check (at all ranks) that the outer ranks have the rows needed at the edges
+        x._check_ghost_cells([nrows if rank in (0, self.size - 1) else 0 for rank in range(self.size)])
+
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         # If Partition.BROADCAST, then convert to Partition.SCATTER
         if x.partition is Partition.BROADCAST:
@@ -136,6 +140,9 @@ class MPISecondDerivative(MPILinearOperator):
     @reshaped
     def _rmatvec_forward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
+        # As in forward, each rank must have at least two rows
+        if self.size > 1:
+            x._check_ghost_cells([2] * self.size)
         y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes, axis=x.axis, dtype=self.dtype)
         y[:] = 0
         if self.rank == self.size - 1:
@@ -201,6 +208,8 @@ class MPISecondDerivative(MPILinearOperator):
     @reshaped
     def _matvec_centered(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
+        if self.edge:
+            self._check_edge(x, 3)
         y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         ghosted_x = x.add_ghost_cells(cells_front=1, cells_back=1)
@@ -221,6 +230,8 @@ class MPISecondDerivative(MPILinearOperator):
     @reshaped
     def _rmatvec_centered(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
+        if self.edge:
+            self._check_edge(x, 3)
         y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         y[:] = 0
-- 
2.43.0


From 181b5e0676425a1b826f55d3d3130fc10f49ed9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:21 +0000
Subject: [PATCH 17/26] fix: block operators take the dtype of all ranks'
 blocks

---
 pylops_mpi/basicoperators/BlockDiag.py | 3 ++-
 pylops_mpi/basicoperators/VStack.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pylops_mpi/basicoperators/BlockDiag.py b/pylops_mpi/basicoperators/BlockDiag.py
index e5a150b..c6d174c 100644
--- a/pylops_mpi/basicoperators/BlockDiag.py
+++ b/pylops_mpi/basicoperators/BlockDiag.py
@@ -115,7 +115,8 @@ class MPIBlockDiag(MPILinearOperator):
         self.nnops = np.insert(np.cumsum(nops), 0, 0)
         self.mmops = np.insert(np.cumsum(mops), 0, 0)
         shape = (base_comm.allreduce(self.nops), base_comm.allreduce(self.mops))
-        dtype = _get_dtype(ops) if dtype is None else np.dtype(dtype)
+        # The dtype must be the same at all ranks, whatever the operators they own
+        dtype = np.result_type(*base_comm.allgather(_get_dtype(ops))) if dtype is None else np.dtype(dtype)
         super().__init__(shape=shape, dtype=dtype, base_comm=base_comm)
 
     @reshaped(forward=True, stacking=True)
diff --git a/pylops_mpi/basicoperators/VStack.py b/pylops_mpi/basicoperators/VStack.py
index 9f33619..72d11dc 100644
--- a/pylops_mpi/basicoperators/VStack.py
+++ b/pylops_mpi/basicoperators/VStack.py
@@ -113,7 +113,8 @@ class MPIVStack(MPILinearOperator):
         self.mops = int(mops[0])
         self.nnops = np.insert(np.cumsum(nops), 0, 0)
         shape = (base_comm.allreduce(self.nops), self.mops)
-        dtype = _get_dtype(self.ops) if dtype is None else np.dtype(dtype)
+        # The dtype must be the same at all ranks, whatever the operators they own
+        dtype = np.result_type(*base_comm.allgather(_get_dtype(self.ops))) if dtype is None else np.dtype(dtype)
         super().__init__(shape=shape, dtype=dtype, base_comm=base_comm)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
-- 
2.43.0


From 0fdec7c170dfa5da63ecb75bfdf01001fe53a245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:21 +0000
Subject: [PATCH 18/26] fix: stacked operators refuse stacks that are not 1-d

---
 pylops_mpi/StackedLinearOperator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pylops_mpi/StackedLinearOperator.py b/pylops_mpi/StackedLinearOperator.py
index a1c356d..d13bfab 100644
--- a/pylops_mpi/StackedLinearOperator.py
+++ b/pylops_mpi/StackedLinearOperator.py
@@ -137,8 +137,7 @@ class MPIStackedLinearOperator(ABC):
                 ndims = np.unique([dis.ndim for dis in x.distarrays])
                 if len(ndims) == 1 and ndims[0] == 1:
                     return self.matvec(x)
-            else:
-                raise ValueError('expected 1-d DistributedArray or StackedDistributedArray')
+            raise ValueError('expected 1-d DistributedArray or StackedDistributedArray')
 
     def adjoint(self):
         """Adjoint MPIStackedLinearOperator
-- 
2.43.0


From 1d6cb454754583dabe6179105fc78180140ad753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:21 +0000
Subject: [PATCH 19/26] fix: stacked operators can be subtracted

---
 pylops_mpi/StackedLinearOperator.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pylops_mpi/StackedLinearOperator.py b/pylops_mpi/StackedLinearOperator.py
index d13bfab..44267ee 100644
--- a/pylops_mpi/StackedLinearOperator.py
+++ b/pylops_mpi/StackedLinearOperator.py
@@ -318,6 +318,14 @@ class _ScaledStackedLinearOperator(MPIStackedLinearOperator):
         return A.H * np.conj(alpha)
 
 
+def _unscaled(A: MPIStackedLinearOperator) -> MPIStackedLinearOperator:
+    """Operator without its scaling factors
+    """
+    while isinstance(A, _ScaledStackedLinearOperator):
+        A = A.args[0]
+    return A
+
+
 class _SumStackedLinearOperator(MPIStackedLinearOperator):
     """Sum of MPI StackedLinearOperators
     """
@@ -325,7 +333,8 @@ class _SumStackedLinearOperator(MPIStackedLinearOperator):
     def __init__(self, A: MPIStackedLinearOperator, B: MPIStackedLinearOperator):
         if not isinstance(A, MPIStackedLinearOperator) or not isinstance(B, MPIStackedLinearOperator):
             raise ValueError('both operands have to be a MPIStackedLinearOperator')
-        if type(A) != type(B):  # noqa: E721
+        # Scaling (as done when subtracting) does not change the type of an operator
+        if type(_unscaled(A)) != type(_unscaled(B)):  # noqa: E721
             raise ValueError(f'both operands have to be of same type, {A} != {B}')
         if A.shape != B.shape:
             raise ValueError("cannot add %r and %r: shape mismatch" % (A, B))
-- 
2.43.0


From 73213550c91c55df07ef483c2ccc102904a75255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:45 +0000
Subject: [PATCH 20/26] fix: solvers can show their progress on stacks of
 arrays of different sizes

---
 pylops_mpi/optimization/cls_basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylops_mpi/optimization/cls_basic.py b/pylops_mpi/optimization/cls_basic.py
index 34a1884..ad1d417 100644
--- a/pylops_mpi/optimization/cls_basic.py
+++ b/pylops_mpi/optimization/cls_basic.py
@@ -98,7 +98,7 @@ class CG(Solver):
 
         if show and self.rank == 0:
             if isinstance(x, StackedDistributedArray):
-                self._print_setup(np.iscomplexobj([x1.local_array for x1 in x.distarrays]))
+                self._print_setup(any(np.iscomplexobj(x1.local_array) for x1 in x.distarrays))
             else:
                 self._print_setup(np.iscomplexobj(x.local_array))
         return x
@@ -354,7 +354,7 @@ class CGLS(Solver):
         # print setup
         if show and self.rank == 0:
             if isinstance(x, StackedDistributedArray):
-                self._print_setup(np.iscomplexobj([x1.local_array for x1 in x.distarrays]))
+                self._print_setup(any(np.iscomplexobj(x1.local_array) for x1 in x.distarrays))
             else:
                 self._print_setup(np.iscomplexobj(x.local_array))
         return x
-- 
2.43.0


From 5d6bd36bad0a519f0a7db5274e38a92aecbed055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:45 +0000
Subject: [PATCH 21/26] fix: solvers can show their progress when rank 0 owns
 no elements

---
 pylops_mpi/optimization/cls_basic.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pylops_mpi/optimization/cls_basic.py b/pylops_mpi/optimization/cls_basic.py
index ad1d417..a10143c 100644
--- a/pylops_mpi/optimization/cls_basic.py
+++ b/pylops_mpi/optimization/cls_basic.py
@@ -46,7 +46,10 @@ class CG(Solver):
     def _print_step(self, x: Union[DistributedArray, StackedDistributedArray]) -> None:
         if isinstance(x, StackedDistributedArray):
             x = x.distarrays[0]
-        strx = f"{x[0]:1.2e}        " if np.iscomplexobj(x.local_array) else f"{x[0]:11.4e}        "
+        if x.local_array.size == 0:
+            strx = f"{'-':>11}        "
+        else:
+            strx = f"{x[0]:1.2e}        " if np.iscomplexobj(x.local_array) else f"{x[0]:11.4e}        "
         msg = f"{self.iiter:6g}        " + strx + f"{self.cost[self.iiter]:11.4e}"
         print(msg)
         sys.stdout.flush()
@@ -289,7 +292,10 @@ class CGLS(Solver):
     def _print_step(self, x: Union[DistributedArray, StackedDistributedArray]) -> None:
         if isinstance(x, StackedDistributedArray):
             x = x.distarrays[0]
-        strx = f"{x[0]:1.2e}   " if np.iscomplexobj(x.local_array) else f"{x[0]:11.4e}        "
+        if x.local_array.size == 0:
+            strx = f"{'-':>11}        "
+        else:
+            strx = f"{x[0]:1.2e}   " if np.iscomplexobj(x.local_array) else f"{x[0]:11.4e}        "
         msg = (
             f"{self.iiter:6g}       "
             + strx
-- 
2.43.0


From eb21169b1d713bad23206318390723ab789a35fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:51 +0000
Subject: [PATCH 22/26] fix: only members of Partition are accepted as
 partition

Since Python 3.12 also the value of a member is found in an enumeration, so
that partition="Broadcast" gave an array treated as scattered.
---
 pylops_mpi/DistributedArray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index 800916e..9b09741 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -108,7 +108,7 @@ class DistributedArray:
         if len(global_shape) <= axis:
             raise IndexError(f"Axis {axis} out of range for DistributedArray "
                              f"of shape {global_shape}")
-        if partition not in Partition:
+        if not isinstance(partition, Partition):
             raise ValueError(f"Should be either {Partition.BROADCAST}, "
                              f"{Partition.UNSAFE_BROADCAST} or {Partition.SCATTER}")
         self.dtype = dtype
-- 
2.43.0


From ab15710be674a77839f10bc2158a406d255502f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:11 +0000
Subject: [PATCH 23/26] fix: solvers show the last N2 iterations asked for, as
 documented

---
 pylops_mpi/optimization/cls_basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylops_mpi/optimization/cls_basic.py b/pylops_mpi/optimization/cls_basic.py
index a10143c..1cb4cb9 100644
--- a/pylops_mpi/optimization/cls_basic.py
+++ b/pylops_mpi/optimization/cls_basic.py
@@ -178,7 +178,7 @@ class CG(Solver):
                 if show
                 and (
                     self.iiter < itershow[0]
-                    or niter - self.iiter < itershow[1]
+                    or niter - self.iiter <= itershow[1]
                     or self.iiter % itershow[2] == 0
                 )
                 else False
@@ -437,7 +437,7 @@ class CGLS(Solver):
                 if show
                 and (
                     self.iiter < itershow[0]
-                    or niter - self.iiter < itershow[1]
+                    or niter - self.iiter <= itershow[1]
                     or self.iiter % itershow[2] == 0
                 )
                 else False
-- 
2.43.0


From b59e31675f69bfcae1ee74e04871a48e18154e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 24/26] fix: adjoint of the forward second derivative keeps the
 engine of its input

---
 pylops_mpi/basicoperators/SecondDerivative.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylops_mpi/basicoperators/SecondDerivative.py b/pylops_mpi/basicoperators/SecondDerivative.py
index e5ca3e5..3a8b05d 100644
--- a/pylops_mpi/basicoperators/SecondDerivative.py
+++ b/pylops_mpi/basicoperators/SecondDerivative.py
@@ -143,7 +143,8 @@ class MPISecondDerivative(MPILinearOperator):
         # As in forward, each rank must have at least two rows
         if self.size > 1:
             x._check_ghost_cells([2] * self.size)
-        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes, axis=x.axis, dtype=self.dtype)
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes, axis=x.axis,
+                             engine=x.engine, dtype=self.dtype)
         y[:] = 0
         if self.rank == self.size - 1:
             y[:-2] += x[:-2]
-- 
2.43.0


From 850658e94357834f4b0112b433d403a502b1e613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:40 +0000
Subject: [PATCH 25/26] fix: vector norms of any order are those of the moduli

Powers were taken before the modulus, which gives NaN for fractional orders
of negative numbers and negative orders of complex zeros; and the smallest
integers have no modulus in their own type.
---
 pylops_mpi/DistributedArray.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index 9b09741..cfcc27d 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -524,6 +524,8 @@ class DistributedArray:
         """
         # Compute along any axis
         ord = 2 if ord is None else ord
+        # In double precision, where the modulus of any number exists
+        local_array = local_array.astype(np.result_type(local_array.dtype, np.float64))
         if local_array.ndim == 1:
             recv_buf = np.empty(shape=1, dtype=np.float64)
         else:
@@ -547,7 +549,7 @@ class DistributedArray:
             recv_buf = np.squeeze(recv_buf, axis=axis)
 
         else:
-            recv_buf = self._allreduce_subcomm(np.sum(np.abs(np.float_power(local_array, ord)), axis=axis))
+            recv_buf = self._allreduce_subcomm(np.sum(np.float_power(np.abs(local_array), ord), axis=axis))
             recv_buf = np.power(recv_buf, 1. / ord)
         return recv_buf
 
-- 
2.43.0


From 382f9e1e1e49c54d83e3519eec98d5fc676ca2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:40 +0000
Subject: [PATCH 26/26] fix: Fredholm kernels with a single row or column

Axes of length one were squeezed away, together with those that the matrix
products are over.
---
 pylops_mpi/signalprocessing/Fredholm1.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pylops_mpi/signalprocessing/Fredholm1.py b/pylops_mpi/signalprocessing/Fredholm1.py
index dde94f6..60298a9 100644
--- a/pylops_mpi/signalprocessing/Fredholm1.py
+++ b/pylops_mpi/signalprocessing/Fredholm1.py
@@ -113,15 +113,13 @@ class MPIFredholm1(MPILinearOperator):
                              f"Got  {x.partition} instead...")
         y = DistributedArray(global_shape=self.shape[0], base_comm=x.base_comm, partition=Partition.BROADCAST,
                              engine=x.engine, dtype=self.dtype)
-        x = x.local_array.reshape(self.dims).squeeze()
+        x = x.local_array.reshape(self.dims)
         x = x[self.islstart[self.rank]:self.islend[self.rank]]
         # apply matmul for portion of the rank of interest
         if self.usematmul:
-            if self.nz == 1:
-                x = x[..., ncp.newaxis]
             y1 = ncp.matmul(self.G, x)
         else:
-            y1 = ncp.squeeze(ncp.zeros((self.nsls[self.rank], self.nx, self.nz), dtype=self.dtype))
+            y1 = ncp.zeros((self.nsls[self.rank], self.nx, self.nz), dtype=self.dtype)
             for isl in range(self.nsls[self.rank]):
                 y1[isl] = ncp.dot(self.G[isl], x[isl])
         # gather results
@@ -135,12 +133,10 @@ class MPIFredholm1(MPILinearOperator):
                              f"Got  {x.partition} instead...")
         y = DistributedArray(global_shape=self.shape[1], base_comm=x.base_comm, partition=Partition.BROADCAST,
                              engine=x.engine, dtype=self.dtype)
-        x = x.local_array.reshape(self.dimsd).squeeze()
+        x = x.local_array.reshape(self.dimsd)
         x = x[self.islstart[self.rank]:self.islend[self.rank]]
         # apply matmul for portion of the rank of interest
         if self.usematmul:
-            if self.nz == 1:
-                x = x[..., ncp.newaxis]
             if hasattr(self, "GT"):
                 y1 = ncp.matmul(self.GT, x)
             else:
@@ -150,7 +146,7 @@ class MPIFredholm1(MPILinearOperator):
                     .conj()
                 )
         else:
-            y1 = ncp.squeeze(ncp.zeros((self.nsls[self.rank], self.ny, self.nz), dtype=self.dtype))
+            y1 = ncp.zeros((self.nsls[self.rank], self.ny, self.nz), dtype=self.dtype)
             if hasattr(self, "GT"):
                 for isl in range(self.nsls[self.rank]):
                     y1[isl] = ncp.dot(self.GT[isl], x[isl])
-- 
2.43.0

