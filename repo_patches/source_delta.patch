From 1078362c6555a2bdb2871373b705c6b4d78e2553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:34 +0000
Subject: [PATCH 001/160] fix: give the number of samples to the compiled
 projection routines

It is not a dependent argument of the wrappers, so that ProjectionInMemoryOperator
direct, transpose and get_pTx_pT1 raised a TypeError.
---
 src/pysimulators/operators.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 78564f9..ba34df7 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -644,7 +644,11 @@ class ProjectionBaseOperator(Operator):
         else:
             output_ = output
         flib.pointingmatrix.direct(
-            matrix.ravel().view(np.int64), input.T, output_.T, matrix.shape[-1]
+            matrix.ravel().view(np.int64),
+            input.T,
+            output_.T,
+            matrix.shape[-1],
+            matrix.size // matrix.shape[-1],
         )
         if not output.flags.contiguous:
             output[...] = output_
@@ -664,7 +668,11 @@ class ProjectionBaseOperator(Operator):
         else:
             input_ = input
         flib.pointingmatrix.transpose(
-            matrix.ravel().view(np.int64), input_.T, output.T, matrix.shape[-1]
+            matrix.ravel().view(np.int64),
+            input_.T,
+            output.T,
+            matrix.shape[-1],
+            matrix.size // matrix.shape[-1],
         )
 
     def set_attrin(self, attr):
@@ -744,6 +752,7 @@ class ProjectionBaseOperator(Operator):
                 out[0].ravel(),
                 out[1].ravel(),
                 matrix.shape[-1],
+                matrix.size // matrix.shape[-1],
             )
         else:
             flib.pointingmatrix.backprojection_weight(
@@ -752,6 +761,7 @@ class ProjectionBaseOperator(Operator):
                 out[0].ravel(),
                 out[1].ravel(),
                 matrix.shape[-1],
+                matrix.size // matrix.shape[-1],
             )
         return out
 
-- 
2.43.0


From a11b2336d9bd59588cdee5cae44a3bddc118fc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:34 +0000
Subject: [PATCH 002/160] fix: set to zero the projection of the samples that
 observe no pixel

With one pixel per sample, their output was left uninitialised.
---
 src/flib/module_pointingmatrix.f90 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flib/module_pointingmatrix.f90 b/src/flib/module_pointingmatrix.f90
index 0fc7a6a..872d3e7 100644
--- a/src/flib/module_pointingmatrix.f90
+++ b/src/flib/module_pointingmatrix.f90
@@ -337,6 +337,8 @@ contains
         do isample = 1, nsamples
             if (pmatrix(isample)%index >= 0) then
                 timeline(isample) = map(pmatrix(isample)%index) * pmatrix(isample)%value
+            else
+                timeline(isample) = 0
             end if
         end do
         !$omp end parallel do
-- 
2.43.0


From 74fc61f0f3a05a1b4e94b1f3b46e1fd853d6fdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:34 +0000
Subject: [PATCH 003/160] fix: skip unobserved samples in the diagonal of P^T P

The index -1 was used as an offset in the output array, corrupting the memory before it.
---
 src/flib/pointingmatrix_old.f90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flib/pointingmatrix_old.f90 b/src/flib/pointingmatrix_old.f90
index fc984ed..0215bde 100644
--- a/src/flib/pointingmatrix_old.f90
+++ b/src/flib/pointingmatrix_old.f90
@@ -260,6 +260,7 @@ contains
         integer*8 :: isample
 
         do isample = 1, nsamples
+            if (matrix(isample)%index < 0) cycle
             array(matrix(isample)%index) = array(matrix(isample)%index) +    &
                                            matrix(isample)%value**2
         end do
-- 
2.43.0


From e550e124e819fecfcaf74620dce0460d081471e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:34 +0000
Subject: [PATCH 004/160] fix: allocate P^T P with the number type that the
 compiled routine expects

get_pTp raised a ValueError, since the routine adds floating-point values in place.
---
 src/pysimulators/operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index ba34df7..3052832 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -710,9 +710,9 @@ class ProjectionBaseOperator(Operator):
         matrix = self.matrix
         npixels = product(matrix.shape_input)
         if out is None:
-            out = empty((npixels, npixels), bool, description='for pTp array')
+            out = empty((npixels, npixels), float, description='for pTp array')
             out[...] = 0
-        elif out.dtype != np.bool_:
+        elif out.dtype != float:
             raise TypeError('The output ptp argument has an invalid type.')
         elif out.shape != (npixels, npixels):
             raise ValueError('The output ptp argument has an incompatible shap' 'e.')
-- 
2.43.0


From 3426fcb37874a18e777d00bca0114880033742cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:34 +0000
Subject: [PATCH 005/160] fix: honour the mask argument of get_pTx_pT1

An array raised a ValueError, and the mask of the input was used instead.
---
 src/pysimulators/operators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 3052832..707baa0 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -743,12 +743,13 @@ class ProjectionBaseOperator(Operator):
                 out[0].unit = x.unit
         if matrix.size == 0:
             return out
-        mask = mask or getattr(x, 'mask', None)
+        if mask is None:
+            mask = getattr(x, 'mask', None)
         if mask is not None:
             flib.pointingmatrix.backprojection_weight_mask(
                 matrix.ravel().view(np.int64),
                 x.ravel(),
-                x.mask.ravel().view(np.int8),
+                np.asarray(mask, bool).ravel().view(np.int8),
                 out[0].ravel(),
                 out[1].ravel(),
                 matrix.shape[-1],
-- 
2.43.0


From ee2f5bbaff66fd966303fc94f87e0e0355e0edf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:34 +0000
Subject: [PATCH 006/160] fix: use cumprod, since numpy removed cumproduct

---
 src/pysimulators/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 707baa0..540ce5d 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -774,7 +774,7 @@ class ProjectionBaseOperator(Operator):
         matrix = self.matrix
         axes = (1,) + matrix.shape_input[:0:-1]
         index = np.array(fitscoords) - 1
-        index = int(np.sum(index * np.cumproduct(axes)))
+        index = int(np.sum(index * np.cumprod(axes)))
 
         shape = matrix.shape
         matrix_ = matrix.ravel().view(np.int64)
-- 
2.43.0


From 49a85e2bde8e6df3540924d3b5a388470b18dd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:34 +0000
Subject: [PATCH 007/160] fix: align diagonal elements with the samples when
 absorbed by a projection

The rule multiplied the (..., nsamples, 1) pointing matrix by the (..., nsamples) diagonal.
---
 src/pysimulators/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 540ce5d..13c3e8b 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -873,7 +873,7 @@ class ProjectionInMemoryOperator(ProjectionBaseOperator):
             return
         matrix = self.matrix.copy()
         result = ProjectionInMemoryOperator(matrix)
-        matrix.value *= d.get_data()
+        matrix.value *= np.asarray(d.get_data())[..., None]
         return result
 
 
-- 
2.43.0


From 10b81f8a57adfc38ca1509f198ba54863540756e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 008/160] fix: compute the kernel of projections stored as
 block matrices

The values of a block matrix are a subarray, whose dtype was not recognised, and the fallback looked
for the fields of a rotation matrix. It also ignored the dimensions of the input shape.
---
 src/pysimulators/operators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 13c3e8b..d5b9838 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1037,7 +1037,7 @@ class ProjectionOperator(SparseOperator):
             return out
 
         itype = data.dtype['index']
-        ftype = data.dtype[1]
+        ftype = self.matrix.dtype
         if itype.type in (np.int8, np.int16, np.int32, np.int64) and ftype.type in (
             np.float32,
             np.float64,
@@ -1065,10 +1065,13 @@ class ProjectionOperator(SparseOperator):
                 indices = data.index[data.value != 0]
             elif isinstance(self.matrix, FSRRotation2dMatrix):
                 indices = data.index[(data.r11 != 0) | (data.r21 != 0)]
+            elif isinstance(self.matrix, FSRBlockMatrix):
+                indices = data.index[np.any(data.value != 0, axis=(-2, -1))]
             else:
                 indices = data.index[data.r11 != 0]
             n = product(shape)
             kernel = np.histogram(indices, n, range=(0, n))[0] == 0
+            kernel = kernel.reshape(shape)
         operation(out, kernel)
         return out
 
-- 
2.43.0


From 055ffbe9e7663b5c61e3a523dd1e6b090a9a7e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:17 +0000
Subject: [PATCH 009/160] fix: make the value pointer of the compiled kernel
 private to each thread

Its descriptor was shared, so that a thread could test the stored values of another thread's entry.
---
 src/flib/sparse.f90.j2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flib/sparse.f90.j2 b/src/flib/sparse.f90.j2
index fe07265..cc37e16 100644
--- a/src/flib/sparse.f90.j2
+++ b/src/flib/sparse.f90.j2
@@ -528,7 +528,7 @@ contains
         integer(int32), pointer :: val(:)
         integer(int64) :: i, j, pos
 
-        !$omp parallel do private(k, pos)
+        !$omp parallel do private(k, pos, val)
         do i = 1, m
             do j = 1, ncolmax
                 pos = ((i - 1) * ncolmax + j - 1) * stride
-- 
2.43.0


From 058c916b5564d79f3c33538e4269329fd4c1a372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:59 +0000
Subject: [PATCH 010/160] fix: multiply by sparse matrices without entries

They raised a ValueError, such as the integration over polygons that are all outside the scene.
---
 src/pysimulators/sparse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index f3f8561..422321e 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -130,6 +130,9 @@ class _FSMatrix:
             out = out.ravel()
             self._validateout(out.shape)
 
+        if self.data.size == 0:
+            return v, out, True
+
         di = self.data.index.dtype
         ds = self.dtype
         dv = v.dtype
-- 
2.43.0


From e42625029545ec50d9548b328cf258bca3cfe30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:45 +0000
Subject: [PATCH 011/160] fix: keep the imaginary part of the vectors
 multiplied by a real sparse matrix

The vector was converted to the number type of the matrix for the compiled routines.
---
 src/pysimulators/sparse.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index 422321e..945fe87 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -136,7 +136,11 @@ class _FSMatrix:
         di = self.data.index.dtype
         ds = self.dtype
         dv = v.dtype
-        if str(ds) not in ('float32', 'float64') or str(di) not in ('int32', 'int64'):
+        if (
+            str(ds) not in ('float32', 'float64')
+            or str(di) not in ('int32', 'int64')
+            or dv.kind == 'c'
+        ):
             return v, out, False
 
         if (
-- 
2.43.0


From 967c8e2b5c53176a690916214c2f75e10979819d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:54 +0000
Subject: [PATCH 012/160] fix: return the product by a 3-d rotation matrix as a
 vector

When no compiled routine handles the types, it was returned with shape (n, 3).
---
 src/pysimulators/sparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index 945fe87..9888222 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -772,7 +772,7 @@ class FSRRotation3dMatrix(_FSRotation3dMatrix):
             out_[i, 0] += np.sum(b.r11 * v[b.index, 0])
             out_[i, 1] += np.sum(b.r22 * v[b.index, 1] - b.r32 * v[b.index, 2])
             out_[i, 2] += np.sum(b.r32 * v[b.index, 1] + b.r22 * v[b.index, 2])
-        return out_
+        return out
 
     def _transpose(self):
         return FSCRotation3dMatrix(self.shape[::-1], data=self.data)
-- 
2.43.0


From 29c57133fbc47e7fd81e98b5956d75813daa9add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:55 +0000
Subject: [PATCH 013/160] fix: corestrict operators stored as rotation matrices

The mask was repeated along the dimensions of the blocks, although the sparse data has
one element per block row.
---
 src/pysimulators/sparse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index 9888222..4f611be 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -909,12 +909,12 @@ class SparseOperator(SparseBase):
                 f'Corestriction is not implemented for {type(self.matrix).__name__} '
                 f'sparse storage.'
             )
-        nrow = np.sum(mask)
-        mask_ = np.repeat(mask, self.matrix.block_shape[0])
+        mask_ = np.ravel(mask)
+        nrow = np.sum(mask_)
         out = self.copy()
         out.matrix = type(self.matrix)(
             (nrow * self.matrix.block_shape[0], self.matrix.shape[1]),
-            data=self.matrix.data[mask_],
+            data=self.matrix.data.reshape((-1, self.matrix.ncolmax))[mask_],
         )
         if isinstance(self.matrix, FSRMatrix):
             out.broadcastable_shapeout = (nrow,)
-- 
2.43.0


From d59d5a5fff7128ffe5aff1ec3c5d1a8fcaeefe81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:56 +0000
Subject: [PATCH 014/160] fix: restrict operators whose blocks have a single
 column

Their input has no dimension for the blocks: no mask was accepted.
---
 src/pysimulators/sparse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index 4f611be..05406fc 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -947,6 +947,8 @@ class SparseOperator(SparseBase):
             raise TypeError('The mask is not boolean.')
         if isinstance(self.matrix, FSRMatrix):
             block_shapein = self.broadcastable_shapein
+        elif self.matrix.block_shape[1] == 1:
+            block_shapein = self.shapein
         else:
             block_shapein = self.shapein[:-1]
         if mask.shape != block_shapein:
@@ -986,6 +988,8 @@ class SparseOperator(SparseBase):
             if self.shapein is not None:
                 ndims_in = len(self.broadcastable_shapein)
                 out.shapein = (ncol,) + self.shapein[ndims_in:]
+        elif self.matrix.block_shape[1] == 1:
+            out.shapein = (ncol,)
         else:
             out.shapein = (ncol, out.matrix.block_shape[1])
         if inplace:
-- 
2.43.0


From 419d30aecd4d1c1c0e4c50ff6f06c48e7fb90fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:56 +0000
Subject: [PATCH 015/160] fix: back-project through blocks that have a single
 column

pT1 and pTx_pT1 took the first pixel as the first component of each pixel.
---
 src/pysimulators/operators.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index d5b9838..72c124e 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1132,7 +1132,10 @@ class ProjectionOperator(SparseOperator):
                         out[i] += d
             else:
                 x = ones(shapein, self.dtype)
-                operation(out, self.T(x)[..., 0])
+                pT1 = self.T(x)
+                if self.matrix.block_shape[1] > 1:
+                    pT1 = pT1[..., 0]
+                operation(out, pT1)
         return out
 
     def pTx_pT1(self, x, out=None, operation=operation_assignment):
@@ -1205,6 +1208,8 @@ class ProjectionOperator(SparseOperator):
             self.pT1(out=pT1, operation=operation)
             if isinstance(self.matrix, FSRMatrix):
                 self.T(x, out=pTx, operation=operation)
+            elif self.matrix.block_shape[1] == 1:
+                operation(pTx, self.T(x))
             else:
                 operation(pTx, self.T(x)[..., 0])
         return pTx, pT1
-- 
2.43.0


From 7fbfc3847150a4b19595b94098e925610afef65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:32 +0000
Subject: [PATCH 016/160] fix: simplify P^T P for inputs with extra dimensions

Only the first elements of the diagonal were set, so that the simplified operator was wrong.
---
 src/pysimulators/sparse.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index 05406fc..cb2c8ac 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -1034,8 +1034,13 @@ class SparseOperator(SparseBase):
             return
 
         m = self.matrix.data.ravel().view(np.int8)
-        data = np.zeros(self.shapein, dtype=self.dtype)
+        if isinstance(self.matrix, FSRMatrix):
+            data = np.zeros(self.broadcastable_shapein, dtype=self.dtype)
+        else:
+            data = np.zeros(self.shapein, dtype=self.dtype)
         func(m, data.ravel())
+        if data.ndim < len(self.shapein):
+            return DiagonalOperator(data, broadcast='rightward', shapein=self.shapein)
         return DiagonalOperator(data)
 
 
-- 
2.43.0


From bbbc7192b3d8fa00447df8badcb178aa2c35882e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:29 +0000
Subject: [PATCH 017/160] fix: select the components of a table by slices of
 negative step

---
 src/pysimulators/packedtables/core.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index c292c0b..8a61fbc 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -181,11 +181,7 @@ class PackedTable:
 
     @property
     def _indexable(self):
-        # slice index with negative stop values cannot be used for indexing
-        index = self._index
-        if isinstance(index, slice) and index.stop < 0:
-            return slice(index.start, None, index.step)
-        return index
+        return self._as_indexable(self._index)
 
     @property
     def removed(self):
@@ -310,6 +306,8 @@ class PackedTable:
         selection = self._normalize_selection(selection, (len(self),))
         if selection is Ellipsis:
             return self
+        if isinstance(selection, tuple) and len(selection) == 1:
+            selection = selection[0]
 
         index = self._index
         if index is Ellipsis and (
@@ -326,7 +324,7 @@ class PackedTable:
             index = slice(start, stop, step)
         else:
             index = self.index
-            index = index[selection]
+            index = index[self._as_indexable(selection)]
 
         if isinstance(index, np.ndarray):
             index = self._normalize_int_selection(index, self._size_actual)
@@ -341,7 +339,7 @@ class PackedTable:
             except KeyError:
                 continue
             if isinstance(v, np.ndarray) and v.ndim > 0:
-                setattr(out, k, v[selection])
+                setattr(out, k, v[self._as_indexable(selection)])
         return out
 
     def __str__(self):
@@ -723,6 +721,13 @@ class PackedTable:
                 return slice(start, stop, step)
         return s
 
+    @staticmethod
+    def _as_indexable(index):
+        # slice index with negative stop values cannot be used for indexing
+        if isinstance(index, slice) and index.stop < 0:
+            return slice(index.start, None, index.step)
+        return index
+
     @staticmethod
     def _normalize_slice(s, n):
         step = 1 if s.step is None else s.step
-- 
2.43.0


From 1fc318a7b0bb8e8acd81a86375fe97f9ec5b049b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:07 +0000
Subject: [PATCH 018/160] fix: count negative component indices from the end of
 the table

---
 src/pysimulators/packedtables/core.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 8a61fbc..db88ad8 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -675,7 +675,9 @@ class PackedTable:
         ):
             return Ellipsis
         if isscalarlike(selection):
-            return np.asarray([selection], self._dtype_index)
+            return self._normalize_negative(
+                np.asarray([selection], self._dtype_index), product(shape)
+            )
         if isinstance(selection, slice):
             return self._normalize_slice(selection, product(shape))
         if isinstance(selection, (list, tuple)):
@@ -701,11 +703,19 @@ class PackedTable:
         if selection.dtype == int:
             if selection.ndim != 1:
                 raise ValueError('Index selection is not 1-dimensional.')
+            return self._normalize_negative(selection, product(shape))
         elif selection.shape != shape:
             raise ValueError('Invalid boolean selection dimensions.')
 
         return selection
 
+    @staticmethod
+    def _normalize_negative(s, n):
+        # indices are counted from the end if they are negative
+        if np.any((s < -n) | (s >= n)):
+            raise IndexError(f'The selection is out of bounds for {n} component(s).')
+        return np.where(s < 0, s + n, s)
+
     def _normalize_int_selection(self, s, n):
         # all elements in the integer selection should be positive
         size = s.size
-- 
2.43.0


From 6903906688676a0482dab4902c6a79690c3dd051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:26 +0000
Subject: [PATCH 019/160] fix: keep tables without components empty

---
 src/pysimulators/packedtables/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index db88ad8..6387f54 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -735,6 +735,8 @@ class PackedTable:
     def _as_indexable(index):
         # slice index with negative stop values cannot be used for indexing
         if isinstance(index, slice) and index.stop < 0:
+            if index.start == index.stop:
+                return slice(0, 0, index.step)
             return slice(index.start, None, index.step)
         return index
 
-- 
2.43.0


From 5b6f9919244ae6739e4c9c73afd19552f54f9561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:31 +0000
Subject: [PATCH 020/160] fix: copy tables, whose communicator is not writeable

---
 src/pysimulators/packedtables/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 6387f54..0735f2b 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -368,8 +368,9 @@ class PackedTable:
         Return a deep copy of the packed array.
 
         """
-        out = copy.deepcopy(self)
-        out.comm = self.comm.Dup()
+        memo = {id(self.comm): self.comm}
+        out = copy.deepcopy(self, memo)
+        object.__setattr__(out, 'comm', self.comm.Dup())
         return out
 
     def pack(self, x, out=None, copy=False):
-- 
2.43.0


From 2f49d7b4a982fce5af5f619e27f05fcb824a8d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:55 +0000
Subject: [PATCH 021/160] fix: leave as it is the table of which a process is
 given all the components

---
 src/pysimulators/packedtables/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 0735f2b..b22e318 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -467,7 +467,7 @@ class PackedTable:
             return self
 
         selection = split(len(self), comm.size, comm.rank)
-        out = self[selection]
+        out = copy.copy(self[selection])
         for k in out._special_attributes:
             if k in out._reserved_attributes:
                 continue
-- 
2.43.0


From 248235e6807e653ad6108a387cb35124ef92e66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:55 +0000
Subject: [PATCH 022/160] fix: do not mark gathered tables as distributed

---
 src/pysimulators/packedtables/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index b22e318..e35b693 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -544,6 +544,7 @@ class PackedTable:
                 continue
             if isinstance(v, np.ndarray) and v.ndim > 0:
                 setattr(out, k, func(v))
+        object.__setattr__(out, 'comm', MPI.COMM_SELF)
         return out
 
     def split(self, n):
-- 
2.43.0


From ad6c430d265ab603eda42bad1db77e5c8f7dbd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:22 +0000
Subject: [PATCH 023/160] fix: normalise the average pointing before converting
 it to angles

---
 src/pysimulators/packedtables/samplings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/samplings.py b/src/pysimulators/packedtables/samplings.py
index 0f7d34d..116bd86 100644
--- a/src/pysimulators/packedtables/samplings.py
+++ b/src/pysimulators/packedtables/samplings.py
@@ -171,7 +171,7 @@ class SamplingSpherical(Sampling):
         self.comm.Allreduce(MPI.IN_PLACE, as_mpi(center))
         if n == 0:
             raise ValueError('There is no valid pointing.')
-        center /= n
+        center /= np.sqrt(np.sum(center**2))
         return self.cartesian2spherical(center)
 
 
-- 
2.43.0


From 9aa7ab22f6211c3fac18f8b05ea2d0d55ac74f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:02 +0000
Subject: [PATCH 024/160] fix: gather arrays that are not contiguous

---
 src/pysimulators/packedtables/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index e35b693..e15c894 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -504,7 +504,7 @@ class PackedTable:
         """
 
         def func(x):
-            x = np.asarray(x)
+            x = np.asarray(x, order='C')
             out = np.empty((ntot,) + x.shape[1:], x.dtype)
             nbytes = product(x.shape[1:]) * int(x.itemsize)
             self.comm.Allgatherv(
-- 
2.43.0


From 7d3d6f28426f5df9ae0797878c28d81cb02709f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:08 +0000
Subject: [PATCH 025/160] fix: project to and back-project to buffers that are
 not contiguous

The former raised an AttributeError and the latter a ValueError. Projections
without entries left their output uninitialised.
---
 src/pysimulators/operators.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 72c124e..b2737ad 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -636,11 +636,12 @@ class ProjectionBaseOperator(Operator):
     def direct(self, input, output):
         matrix = self.matrix
         if matrix.size == 0:
+            output[...] = 0
             return
-        if not output.flags.contiguous:
-            if pyoperators.memory.verbose:
+        if not output.flags.c_contiguous:
+            if pyoperators.config.VERBOSE:
                 print('Optimize me: Projection output is not contiguous.')
-            output_ = np.empty_like(output)
+            output_ = np.empty(output.shape, output.dtype)
         else:
             output_ = output
         flib.pointingmatrix.direct(
@@ -650,7 +651,7 @@ class ProjectionBaseOperator(Operator):
             matrix.shape[-1],
             matrix.size // matrix.shape[-1],
         )
-        if not output.flags.contiguous:
+        if output_ is not output:
             output[...] = output_
 
     def transpose(self, input, output, operation=operation_assignment):
@@ -661,19 +662,22 @@ class ProjectionBaseOperator(Operator):
             raise ValueError('Invalid reduction operation.')
         if matrix.size == 0:
             return
-        if not input.flags.contiguous:
+        if not input.flags.c_contiguous:
             if pyoperators.config.VERBOSE:
                 print('Optimize me: Projection.T input is not contiguous.')
             input_ = np.ascontiguousarray(input)
         else:
             input_ = input
+        output_ = np.ascontiguousarray(output)
         flib.pointingmatrix.transpose(
             matrix.ravel().view(np.int64),
             input_.T,
-            output.T,
+            output_.T,
             matrix.shape[-1],
             matrix.size // matrix.shape[-1],
         )
+        if output_ is not output:
+            output[...] = output_
 
     def set_attrin(self, attr):
         if '_header' in attr:
-- 
2.43.0


From d9e72fdc9a773243c9b3f496d570cb7e937b298a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:08 +0000
Subject: [PATCH 026/160] fix: do not absorb complex diagonal elements in a
 projection

---
 src/pysimulators/operators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index b2737ad..63aedb8 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -873,7 +873,11 @@ class ProjectionInMemoryOperator(ProjectionBaseOperator):
     @staticmethod
     def _rule_diagonal(d, self):
         # rightward broadcasting can fail with structured arrays (np 1.7)
-        if self.matrix.shape[-1] != 1 or d.broadcast == 'rightward':
+        if (
+            self.matrix.shape[-1] != 1
+            or d.broadcast == 'rightward'
+            or np.asarray(d.get_data()).dtype.kind == 'c'
+        ):
             return
         matrix = self.matrix.copy()
         result = ProjectionInMemoryOperator(matrix)
-- 
2.43.0


From 570b50e83431e07814f1d96e5d6bd6de86746eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:08 +0000
Subject: [PATCH 027/160] fix: do not associate a missing pointing matrix with
 the previous projection

If the computation of a pointing matrix fails, the one of the previous
projection has to be recomputed.
---
 src/pysimulators/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 63aedb8..ff3617f 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -933,7 +933,7 @@ class ProjectionOnFlyOperator(ProjectionBaseOperator):
     def matrix(self):
         if self.place_holder['id'] is self.id:
             return self.place_holder['matrix']
-        self.place_holder['matrix'] = None
+        self.place_holder['id'] = self.place_holder['matrix'] = None
         matrix = self.func(self.id)
         self.place_holder['id'], self.place_holder['matrix'] = self.id, matrix
         return matrix
-- 
2.43.0


From b92eea988445aa36abcb737877d4b5335eb730a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:26 +0000
Subject: [PATCH 028/160] fix: project the real and imaginary parts of complex
 inputs

The compiled routines dropped the imaginary part, or refused the output.
---
 src/pysimulators/operators.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index ff3617f..9605074 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -634,6 +634,10 @@ class ProjectionBaseOperator(Operator):
         self.duout, self.duin = derived_units
 
     def direct(self, input, output):
+        if output.dtype.kind == 'c':
+            for x, out in (input.real, output.real), (input.imag, output.imag):
+                self.direct(x, out)
+            return
         matrix = self.matrix
         if matrix.size == 0:
             output[...] = 0
@@ -655,6 +659,10 @@ class ProjectionBaseOperator(Operator):
             output[...] = output_
 
     def transpose(self, input, output, operation=operation_assignment):
+        if output.dtype.kind == 'c':
+            for x, out in (input.real, output.real), (input.imag, output.imag):
+                self.transpose(x, out, operation=operation)
+            return
         matrix = self.matrix
         if operation is operation_assignment:
             output[...] = 0
-- 
2.43.0


From 981c34b85de9a800e2799fb29178aff6a178d5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:28 +0000
Subject: [PATCH 029/160] fix: compute the pointing matrix of the on-the-fly
 projection identified by None

---
 src/pysimulators/operators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 9605074..bcda0a2 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -939,8 +939,9 @@ class ProjectionOnFlyOperator(ProjectionBaseOperator):
 
     @property
     def matrix(self):
-        if self.place_holder['id'] is self.id:
-            return self.place_holder['matrix']
+        matrix = self.place_holder['matrix']
+        if matrix is not None and self.place_holder['id'] is self.id:
+            return matrix
         self.place_holder['id'] = self.place_holder['matrix'] = None
         matrix = self.func(self.id)
         self.place_holder['id'], self.place_holder['matrix'] = self.id, matrix
-- 
2.43.0


From 55ef786ebdd03220e16ee2ad5164383909743d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:52 +0000
Subject: [PATCH 030/160] fix: create sparse operators without rows or columns

---
 src/pysimulators/sparse.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index cb2c8ac..0180ed1 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -112,16 +112,16 @@ class _FSMatrix:
     def _matvec(self, v, out, nmax):
         v = np.asarray(v).ravel()
         self._validatein(v.shape)
+        extra_size = v.size // self.shape[1] if self.shape[1] > 0 else 1
         if out is None:
             out = np.zeros(
-                v.size * self.shape[0] // self.shape[1],
-                np.result_type(self.dtype, v.dtype),
+                extra_size * self.shape[0], np.result_type(self.dtype, v.dtype)
             )
         elif not isinstance(out, np.ndarray):
             raise TypeError('The output array is not an ndarray.')
         elif not out.flags.contiguous:
             raise ValueError('The output array is not contiguous.')
-        elif out.size != v.size * self.shape[0] // self.shape[1]:
+        elif self.shape[1] > 0 and out.size != extra_size * self.shape[0]:
             raise ValueError(
                 f"The output size '{out.size}' is incompatible with the number of rows"
                 f" of the sparse matrix '{self.shape[0]}'."
@@ -130,7 +130,7 @@ class _FSMatrix:
             out = out.ravel()
             self._validateout(out.shape)
 
-        if self.data.size == 0:
+        if self.data.size == 0 or v.size == 0:
             return v, out, True
 
         di = self.data.index.dtype
@@ -161,7 +161,6 @@ class _FSMatrix:
 
         flib_id = self._flib_id
         if isinstance(self, (FSCMatrix, FSRMatrix)):
-            extra_size = v.size // self.shape[1]
             if extra_size > 1:
                 flib_id += '_homothety'
         f = f'{flib_id}_matvec_i{di.itemsize}_r{ds.itemsize}_v{dv.itemsize}'
@@ -209,13 +208,13 @@ class _FSMatrix:
         return type(self)(self.shape, data=self.data.copy())
 
     def _reshapein(self, shape):
-        extra_size = product(shape) // self.shape[1]
+        extra_size = product(shape) // max(self.shape[1], 1)
         if extra_size > 1 or shape[-1] == 1:
             return self.shape[0], extra_size
         return self.shape[0]
 
     def _reshapeout(self, shape):
-        extra_size = product(shape) // self.shape[0]
+        extra_size = product(shape) // max(self.shape[0], 1)
         if extra_size > 1 or shape[-1] == 1:
             return self.shape[1], extra_size
         return self.shape[1]
@@ -225,7 +224,7 @@ class _FSMatrix:
         if not isinstance(self, (FSCMatrix, FSRMatrix)):
             if size == self.shape[1]:
                 return
-        elif size % self.shape[1] == 0:
+        elif size % max(self.shape[1], 1) == 0:
             return
         raise ValueError(
             f"The shape '{shape}' is incompatible with the number of columns of the "
@@ -237,7 +236,7 @@ class _FSMatrix:
         if not isinstance(self, (FSCMatrix, FSRMatrix)):
             if size == self.shape[0]:
                 return
-        elif size % self.shape[0] == 0:
+        elif size % max(self.shape[0], 1) == 0:
             return
         raise ValueError(
             f"The shape '{shape}' is incompatible with the number of rows of the sparse"
@@ -851,7 +850,7 @@ class SparseOperator(SparseBase):
                 "The operator's input shape is not explicit. Spec"
                 "ify it with the 'shapein' keyword."
             )
-        extra_size = product(shapein) // self.matrix.shape[1]
+        extra_size = product(shapein) // max(self.matrix.shape[1], 1)
         if self.shapein is None and extra_size > 1:
             shapein = shapein[:-1]
             broadcasting = True
@@ -879,7 +878,7 @@ class SparseOperator(SparseBase):
     def validatein(self, shape):
         size = product(shape)
         if isinstance(self.matrix, (FSCMatrix, FSRMatrix)):
-            if size % self.matrix.shape[1] != 0:
+            if size % max(self.matrix.shape[1], 1) != 0:
                 raise ValueError(
                     f"The input shape '{shape}' is incompatible with the expected "
                     f"number of column '{self.matrix.shape[1]}'."
@@ -889,7 +888,7 @@ class SparseOperator(SparseBase):
     def validateout(self, shape):
         size = product(shape)
         if isinstance(self.matrix, (FSCMatrix, FSRMatrix)):
-            if size % self.matrix.shape[0] != 0:
+            if size % max(self.matrix.shape[0], 1) != 0:
                 raise ValueError(
                     f"The output shape '{shape}' is incompatible with the expected "
                     f"number of rows '{self.matrix.shape[0]}'."
-- 
2.43.0


From 877415c2192f3da90fb97b032b8c1f8fa0ea7361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:45 +0000
Subject: [PATCH 031/160] fix: write the kernel of a projection to buffers that
 are not contiguous

---
 src/pysimulators/operators.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index bcda0a2..5a65770 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1059,12 +1059,17 @@ class ProjectionOperator(SparseOperator):
             np.float32,
             np.float64,
         ):
-            if operation in (operation_assignment, operator.iand, operator.imul):
+            isdirect = out.flags.c_contiguous and operation in (
+                operation_assignment,
+                operator.iand,
+                operator.imul,
+            )
+            if isdirect:
                 if operation is operation_assignment:
                     out[...] = True
                 kernel = out
             else:
-                kernel = np.ones_like(out)
+                kernel = np.ones(out.shape, bool)
 
             f = f'fsr_kernel_i{int(itype.itemsize)}'
             func = getattr(flib.sparse, f)
@@ -1075,7 +1080,7 @@ class ProjectionOperator(SparseOperator):
                 product(data.shape[:-1]),
                 data.strides[-1],
             )
-            if operation in (operation_assignment, operator.iand, operator.imul):
+            if isdirect:
                 return out
         else:
             if isinstance(self.matrix, FSRMatrix):
-- 
2.43.0


From ac3bca0af02241c8037eaba9a673ee895cdba2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:58 +0000
Subject: [PATCH 032/160] fix: transpose in place the convolution by a
 truncated exponential

---
 src/flib/module_operators.f90.j2 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flib/module_operators.f90.j2 b/src/flib/module_operators.f90.j2
index 6ca75f7..e6cc7f9 100644
--- a/src/flib/module_operators.f90.j2
+++ b/src/flib/module_operators.f90.j2
@@ -499,6 +499,7 @@ contains
         end if
         w = exp(-1 / tau)
         v = 1 - w
+        input(n) = v * input(n)
         do i = n - 1, 1, -1
             input(i) = w * input(i+1) + v * input(i)
         end do
-- 
2.43.0


From e9aa5e0738e69978b1903632750151b4883c1708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:58 +0000
Subject: [PATCH 033/160] fix: do not apply the time constants to the blocks of
 an operator

The convolution is not separable along the time axis, nor along the others when
there is one time constant per row.
---
 src/pysimulators/operators.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 5a65770..3b9ee9c 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -19,7 +19,7 @@ from pyoperators import (
     Operator,
     Spherical2CartesianOperator,
 )
-from pyoperators.flags import inplace, linear, orthogonal, real, separable, square
+from pyoperators.flags import inplace, linear, orthogonal, real, square
 from pyoperators.memory import empty, ones
 from pyoperators.utils import (
     float_dtype,
@@ -335,7 +335,6 @@ class BlackBodyOperator(DiagonalOperator):
 @linear
 @square
 @inplace
-@separable
 class ConvolutionTruncatedExponentialOperator(Operator):
     """
     Apply a truncated exponential response to the signal
-- 
2.43.0


From 86617ace1f2550c1fa83a6fd212d0943a0de63cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:58 +0000
Subject: [PATCH 034/160] fix: convolve by a truncated exponential arrays whose
 elements are not 8 bytes long

---
 src/pysimulators/operators.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 3b9ee9c..46d95f9 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -416,10 +416,11 @@ def _ravel_strided(x):
         return x, 1, x.size, x.size
     if x.ndim != 2:
         raise NotImplementedError()
-    if x.strides[1] != 8:
+    size = x.itemsize
+    if x.strides[1] != size:
         raise ValueError('The array is not C-contiguous.')
-    shape_all = x.shape[0], x.strides[0] // 8
-    x_ = np.lib.stride_tricks.as_strided(x, (product(shape_all),), (8,))
+    shape_all = x.shape[0], x.strides[0] // size
+    x_ = np.lib.stride_tricks.as_strided(x, (product(shape_all),), (size,))
     return x_, x.shape[0], x.shape[1], shape_all[1]
 
 
-- 
2.43.0


From afa1f26d2e2a7504d07bfb0911f56d9adc20f2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:18 +0000
Subject: [PATCH 035/160] fix: convolve by a truncated exponential arrays of
 any layout

---
 src/pysimulators/operators.py | 78 ++++++++++++++++++-----------------
 1 file changed, 41 insertions(+), 37 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 46d95f9..b5d3340 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -366,40 +366,36 @@ class ConvolutionTruncatedExponentialOperator(Operator):
         Operator.__init__(self, dtype=dtype, **keywords)
 
     def direct(self, input, output):
-        input_, nd, nt, int_all = _ravel_strided(input)
-        output_, nd, nt, ont_all = _ravel_strided(output)
-        f = f'trexp_direct_r{input.dtype.itemsize}'
-        try:
-            getattr(flib.operators, f)(
-                input_,
-                nd,
-                nt,
-                int_all,
-                output_,
-                nt,
-                ont_all,
-                self.tau.astype(input.dtype),
-            )
-        except AttributeError:
-            raise NotImplementedError()
+        self._convolve('direct', input, output)
 
     def transpose(self, input, output):
-        input_, nd, nt, int_all = _ravel_strided(input)
-        output_, nd, nt, ont_all = _ravel_strided(output)
-        f = f'trexp_transpose_r{input.dtype.itemsize}'
-        try:
-            getattr(flib.operators, f)(
-                input_,
-                nd,
-                nt,
-                int_all,
-                output_,
-                nt,
-                ont_all,
-                self.tau.astype(input.dtype),
-            )
-        except AttributeError:
+        self._convolve('transpose', input, output)
+
+    def _convolve(self, name, input, output):
+        f = f'trexp_{name}_r{input.dtype.itemsize}'
+        if input.dtype.kind != 'f' or not hasattr(flib.operators, f):
             raise NotImplementedError()
+        if input.size == 0:
+            return
+        if not _has_contiguous_rows(input):
+            input = np.ascontiguousarray(input)
+        output_ = output
+        if not _has_contiguous_rows(output):
+            output_ = np.empty(output.shape, output.dtype)
+        input_, nd, nt, int_all = _ravel_strided(input)
+        output__, nd, nt, ont_all = _ravel_strided(output_)
+        getattr(flib.operators, f)(
+            input_,
+            nd,
+            nt,
+            int_all,
+            output__,
+            nt,
+            ont_all,
+            self.tau.ravel().astype(input.dtype),
+        )
+        if output_ is not output:
+            output[...] = output_
 
     def validatein(self, shape):
         if self.tau.size == 1:
@@ -411,14 +407,22 @@ class ConvolutionTruncatedExponentialOperator(Operator):
             )
 
 
+def _has_contiguous_rows(x):
+    if x.flags.c_contiguous:
+        return True
+    return (
+        x.ndim == 2
+        and x.strides[1] == x.itemsize
+        and x.strides[0] >= x.shape[1] * x.itemsize
+        and x.strides[0] % x.itemsize == 0
+    )
+
+
 def _ravel_strided(x):
-    if x.ndim == 1:
-        return x, 1, x.size, x.size
-    if x.ndim != 2:
-        raise NotImplementedError()
+    if x.flags.c_contiguous:
+        x = x.reshape((-1, x.shape[-1]) if x.ndim > 0 else (1, 1))
+        return x.ravel(), x.shape[0], x.shape[1], x.shape[1]
     size = x.itemsize
-    if x.strides[1] != size:
-        raise ValueError('The array is not C-contiguous.')
     shape_all = x.shape[0], x.strides[0] // size
     x_ = np.lib.stride_tricks.as_strided(x, (product(shape_all),), (size,))
     return x_, x.shape[0], x.shape[1], shape_all[1]
-- 
2.43.0


From 738d9fecdfec2662aa18f9be2aaf58f715a0f3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:37 +0000
Subject: [PATCH 036/160] fix: combine black bodies of several temperatures
 with block operators

---
 src/pysimulators/operators.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index b5d3340..a9f6fa5 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -330,6 +330,12 @@ class BlackBodyOperator(DiagonalOperator):
         self.wavelength = wavelength
         self.wavelength0 = wavelength0
 
+    @staticmethod
+    def _rule_block(self, *args):
+        # the blocks are specified by their values, not by a temperature
+        diagonal = DiagonalOperator(self.data, broadcast=self.broadcast)
+        return DiagonalOperator._rule_block(diagonal, *args)
+
 
 @real
 @linear
-- 
2.43.0


From 65a823c79a2ff937c9e41ee869786c7ab6a6491d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:24 +0000
Subject: [PATCH 037/160] fix: infer the output shape of a roll, which is that
 of its input

---
 src/pysimulators/operators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index a9f6fa5..f7f3c6f 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1248,6 +1248,7 @@ class ProjectionOperator(SparseOperator):
 
 
 @orthogonal
+@square
 @inplace
 class RollOperator(Operator):
     def __init__(self, n, axis=None, **keywords):
-- 
2.43.0


From 6e001a2e1ab65a024613e59a1950a3ea9bf1bb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:10 +0000
Subject: [PATCH 038/160] fix: do not mistake the transpose of a projection for
 that of another

---
 src/pysimulators/operators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index f7f3c6f..81452a1 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -880,7 +880,8 @@ class ProjectionInMemoryOperator(ProjectionBaseOperator):
 
     @staticmethod
     def _rule_ptp(pt, p):
-        if p.matrix.shape[-1] != 1:
+        # the transposes of different projections compare equal
+        if p.matrix.shape[-1] != 1 or pt.T.matrix is not p.matrix:
             return
         cov = np.zeros(p.shapein)
         flib.pointingmatrix.ptp_one(
-- 
2.43.0


From 4586db3a9baa44508327cbd6f388a48e1dc7178d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:10 +0000
Subject: [PATCH 039/160] fix: do not mistake the transpose of a roll for that
 of another

---
 src/pysimulators/operators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 81452a1..140be1b 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1262,6 +1262,8 @@ class RollOperator(Operator):
             raise ValueError(
                 'There is a mismatch between the number of axes a' 'nd offsets.'
             )
+        # the transposes of different rolls would compare equal
+        self.set_rule('T', lambda s: RollOperator(tuple(-n for n in s.n), s.axis))
 
     def direct(self, input, output):
         output[...] = np.roll(input, self.n[0], axis=self.axis[0])
-- 
2.43.0


From 84cb193195077d671065f03ca914d3af49a1cdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 040/160] fix: give the blocks of a stacked operator the shape
 without the new axis

---
 src/pysimulators/operators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 140be1b..ccf1d8c 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -196,11 +196,13 @@ def block_diagonal(*partition_args, **keywords):
 
             # the input shapein/out describe the BlockDiagonalOperator
             def reshape(s, p, a, na):
+                if s is None:
+                    return None
                 s = list(tointtuple(s))
                 if a is not None:
                     s[a] = p
                 else:
-                    np.delete(s, na)
+                    del s[na]
                 return tuple(s)
 
             if 'shapein' in keywords:
-- 
2.43.0


From 3dedaa41f6c0f9c041659ba1a631e43f8f2e32f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 041/160] fix: refuse a partition which does not match the
 shape of the operator

---
 src/pysimulators/operators.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index ccf1d8c..7f99869 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -199,6 +199,13 @@ def block_diagonal(*partition_args, **keywords):
                 if s is None:
                     return None
                 s = list(tointtuple(s))
+                if None not in partitionin:
+                    n = s[a if a is not None else na]
+                    if n != sum(partitionin):
+                        raise ValueError(
+                            f"The partition '{partitionin}' is incompatible with the num"
+                            f"ber of elements '{n}' along the partition axis."
+                        )
                 if a is not None:
                     s[a] = p
                 else:
-- 
2.43.0


From 144aecab9adde516af8ae6a52322903958eec477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 042/160] fix: accept lists as the shapes of grids and layouts

---
 src/pysimulators/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/geometry.py b/src/pysimulators/geometry.py
index ceaafd2..7f3606e 100644
--- a/src/pysimulators/geometry.py
+++ b/src/pysimulators/geometry.py
@@ -98,7 +98,7 @@ def create_grid(
 
     """
     if out is None:
-        out = _np.empty(shape + (2,))
+        out = _np.empty(tuple(shape) + (2,))
     _flib.geometry.create_grid(
         spacing, xreflection, yreflection, angle, center[0], center[1], out.T
     )
@@ -142,7 +142,7 @@ def create_grid_squares(
 
     """
     if out is None:
-        out = _np.empty(shape + (4, 2))
+        out = _np.empty(tuple(shape) + (4, 2))
     _flib.geometry.create_grid_squares(
         spacing,
         filling_factor,
-- 
2.43.0


From 6603a8474175103b0e1b1d31f769f5ce35ba1009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 043/160] fix: rotate integer coordinates and into any buffer

---
 src/pysimulators/geometry.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pysimulators/geometry.py b/src/pysimulators/geometry.py
index 7f3606e..9b927fb 100644
--- a/src/pysimulators/geometry.py
+++ b/src/pysimulators/geometry.py
@@ -302,12 +302,16 @@ def rotate(coords, angle, out=None):
     from pyoperators.utils import isalias
 
     coords = _np.asarray(coords)
+    if coords.dtype.kind not in 'fc':
+        coords = coords.astype(float)
     if out is None:
-        out = _np.empty_like(coords)
+        out = _np.empty(coords.shape, coords.dtype)
     if (
         coords.dtype.char == 'd'
         and coords.flags.c_contiguous
+        and out.dtype.char == 'd'
         and out.flags.c_contiguous
+        and (isalias(coords, out) or not _np.may_share_memory(coords, out))
     ):
         if isalias(coords, out):
             _flib.geometry.rotate_2d_inplace(out.reshape((-1, 2)).T, angle)
@@ -323,9 +327,8 @@ def rotate(coords, angle, out=None):
         [[_np.cos(angle), -_np.sin(angle)], [_np.sin(angle), _np.cos(angle)]],
         coords.dtype,
     )
-    if isalias(coords, out):
-        coords = coords.copy()
-    return _np.dot(coords, m.T, out)
+    out[...] = _np.dot(coords, m.T)
+    return out
 
 
 def surface_simple_polygon(coords, out=None, dtype=float):
-- 
2.43.0


From ab83809e7d35231c939d2fe921c26cfdcb66eb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 044/160] fix: compute the areas of arrays of polygons, of any
 type and in any buffer

---
 src/pysimulators/geometry.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/pysimulators/geometry.py b/src/pysimulators/geometry.py
index 9b927fb..919579e 100644
--- a/src/pysimulators/geometry.py
+++ b/src/pysimulators/geometry.py
@@ -355,13 +355,11 @@ def surface_simple_polygon(coords, out=None, dtype=float):
     coords = _np.array(coords, dtype=float, order='c')
     if out is None:
         out = _np.empty(coords.shape[:-2], dtype)
-    if coords.ndim < 3:
-        coords = coords[None, ...]
-    if out.ndim == 0:
-        out_ = out.reshape(1)
-    else:
-        out_ = out
-    _flib.geometry.surface_simple_polygon(coords.T, out_.T)
+    surface = _np.empty(coords.shape[:-2])
+    _flib.geometry.surface_simple_polygon(
+        coords.reshape((-1,) + coords.shape[-2:]).T, surface.reshape(-1)
+    )
+    out[...] = surface
     if out.ndim == 0:
         out = out[()]
     return out
-- 
2.43.0


From 35815a70d6797dac6fd87b7beb214dd647b736ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 045/160] fix: accept empty arrays of points and polygons

---
 src/pysimulators/geometry.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pysimulators/geometry.py b/src/pysimulators/geometry.py
index 919579e..a0cc929 100644
--- a/src/pysimulators/geometry.py
+++ b/src/pysimulators/geometry.py
@@ -307,7 +307,8 @@ def rotate(coords, angle, out=None):
     if out is None:
         out = _np.empty(coords.shape, coords.dtype)
     if (
-        coords.dtype.char == 'd'
+        coords.size > 0
+        and coords.dtype.char == 'd'
         and coords.flags.c_contiguous
         and out.dtype.char == 'd'
         and out.flags.c_contiguous
@@ -356,9 +357,10 @@ def surface_simple_polygon(coords, out=None, dtype=float):
     if out is None:
         out = _np.empty(coords.shape[:-2], dtype)
     surface = _np.empty(coords.shape[:-2])
-    _flib.geometry.surface_simple_polygon(
-        coords.reshape((-1,) + coords.shape[-2:]).T, surface.reshape(-1)
-    )
+    if surface.size > 0:
+        _flib.geometry.surface_simple_polygon(
+            coords.reshape((-1,) + coords.shape[-2:]).T, surface.reshape(-1)
+        )
     out[...] = surface
     if out.ndim == 0:
         out = out[()]
-- 
2.43.0


From 3724439c985dfd2e413dcf18bda51549539a3881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 046/160] fix: write distances in buffers of any memory layout

---
 src/pysimulators/datautils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index 3d08ba6..a1d9407 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -127,7 +127,7 @@ def distance(shape, center=None, scale=1, dtype=float, out=None):
     ndim = out.ndim
     dtype = float_intrinsic_dtype(out.dtype)
 
-    if ndim in (1, 2) and dtype != out.dtype:
+    if ndim in (1, 2) and (dtype != out.dtype or not out.flags.c_contiguous):
         out_ = np.empty(shape, dtype)
     else:
         out_ = out
@@ -210,7 +210,7 @@ def distance2(shape, center=None, scale=1, dtype=float, out=None):
     ndim = out.ndim
     dtype = float_intrinsic_dtype(out.dtype)
 
-    if ndim in (1, 2) and dtype != out.dtype:
+    if ndim in (1, 2) and (dtype != out.dtype or not out.flags.c_contiguous):
         out_ = np.empty(shape, dtype)
     else:
         out_ = out
-- 
2.43.0


From 2222a0b7d9d1082dc458de083c5d09cbf0f61729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 047/160] fix: compute distances of integer type

---
 src/pysimulators/datautils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index a1d9407..2e5b6c2 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -150,7 +150,7 @@ def distance(shape, center=None, scale=1, dtype=float, out=None):
             out[...] = out_
     else:
         _distance_slow(shape, center, scale, dtype, out)
-    return Map(out, copy=False, unit=unit)
+    return Map(out, dtype=out.dtype, copy=False, unit=unit)
 
 
 def _distance_slow(shape, center, scale, dtype, out=None):
@@ -171,7 +171,10 @@ def _distance_slow(shape, center, scale, dtype, out=None):
         (s * (a.astype(dtype) - o)) ** 2
         for a, o, s in zip(d, center[::-1], scale[::-1])
     ]
-    return np.sqrt(sum(d), out)
+    if out is None:
+        out = np.empty(shape, dtype)
+    out[...] = np.sqrt(sum(d))
+    return out
 
 
 def distance2(shape, center=None, scale=1, dtype=float, out=None):
@@ -233,7 +236,7 @@ def distance2(shape, center=None, scale=1, dtype=float, out=None):
             out[...] = out_
     else:
         _distance2_slow(shape, center, scale, dtype, out)
-    return Map(out, copy=False, unit=unit)
+    return Map(out, dtype=out.dtype, copy=False, unit=unit)
 
 
 def _distance2_slow(shape, center, scale, dtype, out=None):
-- 
2.43.0


From 48ff7d6da786362527c9b736811831f94f3428ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 048/160] fix: compute squared distances in more than two
 dimensions

---
 src/pysimulators/datautils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index 2e5b6c2..0db8f12 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -259,10 +259,7 @@ def _distance2_slow(shape, center, scale, dtype, out=None):
         (s * (a.astype(dtype) - o)) ** 2
         for a, o, s in zip(d, center[::-1], scale[::-1])
     ]
-    if len(d) == 1:
-        out[...] = d[0]
-        return out
-    np.sum(sum(d[:-1]), d[-1], out)
+    out[...] = sum(d)
     return out
 
 
-- 
2.43.0


From 09d3d33111db754ee86260fbf8c045d974864c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 049/160] fix: compare squared distances of the right unit and
 type in the circular aperture

---
 src/pysimulators/datautils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index 0db8f12..22a8d62 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -15,6 +15,7 @@ from pyoperators.utils.ufuncs import abs2
 
 from . import _flib as flib
 from .datatypes import Map
+from .quantities import _multiply_unit
 
 __all__ = [
     'airy_disk',
@@ -86,9 +87,8 @@ def aperture_circular(shape, diameter, center=None, scale=1, dtype=float):
         The output data type.
 
     """
-    array = distance2(shape, center=center, scale=scale, dtype=dtype)
-    array[...] = array <= (diameter / 2) ** 2
-    return array
+    array = distance2(shape, center=center, scale=scale)
+    return Map(np.asarray(array <= (diameter / 2) ** 2), dtype=dtype)
 
 
 def distance(shape, center=None, scale=1, dtype=float, out=None):
@@ -192,7 +192,7 @@ def distance2(shape, center=None, scale=1, dtype=float, out=None):
         is the array center.
     scale : float or array-like, optional
         Inter-pixel distance (dx, dy, ...). If scale is a Quantity, its
-        unit will be carried over to the returned distance array
+        unit squared will be carried over to the returned distance array
     dtype : np.dtype, optional
         The output data type.
 
@@ -208,6 +208,8 @@ def distance2(shape, center=None, scale=1, dtype=float, out=None):
     shape = tointtuple(shape)
     dtype = np.dtype(dtype)
     unit = getattr(scale, '_unit', None)
+    if unit:
+        unit = _multiply_unit(unit, unit)
     if out is None:
         out = np.empty(shape, dtype)
     ndim = out.ndim
-- 
2.43.0


From f7a77148fd6c752d8de543aae171839f172b5b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 050/160] fix: give NaN to the empty bins of double precision
 profiles

---
 src/flib/module_math.f90.j2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flib/module_math.f90.j2 b/src/flib/module_math.f90.j2
index 4eea029..baf5937 100644
--- a/src/flib/module_math.f90.j2
+++ b/src/flib/module_math.f90.j2
@@ -9,7 +9,7 @@ module module_math
     real(real32), parameter :: MINF_4 = real(z'FF700000', real32)
     real(real32), parameter :: PINF_4 = real(z'7F700000', real32)
     real(real32), parameter :: PI_4 = 4._real32 * atan(1._real32)
-    real(real64), parameter :: NAN_8  = real(z'FFF800000000000', real64)
+    real(real64), parameter :: NAN_8  = real(z'FFF8000000000000', real64)
     real(real64), parameter :: MINF_8 = real(z'FFF000000000000', real64)
     real(real64), parameter :: PINF_8 = real(z'7FF0000000000000', real64)
     real(real64), parameter :: PI_8 = 4._real64 * atan(1._real64)
-- 
2.43.0


From 065e4b65088cadd5297964efeabf8291657278e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 051/160] fix: return the upper boundaries of the integrated
 profile

---
 src/pysimulators/datautils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index 22a8d62..75530cd 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -406,6 +406,7 @@ def integrated_profile(input, bin=1, nbins=None, center=None, scale=1):
     x, y, n = profile(
         input, bin=bin, nbins=nbins, histogram=True, center=center, scale=scale
     )
+    x = bin * np.arange(1, n.size + 1, dtype=x.dtype)
     y[~np.isfinite(y)] = 0
     y *= n * scale**2
     return x, np.cumsum(y)
-- 
2.43.0


From 1b6dc8f9fad225744a280fa67dca2f17d2c0af82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 052/160] fix: centre the profile of the PSD on the zero
 frequency

---
 src/pysimulators/datautils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index 75530cd..c86b8ae 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -566,6 +566,6 @@ def profile_psd2(array, sampling_frequency=1, fftw_flag='FFTW_MEASURE'):
     if array.shape[0] != array.shape[1]:
         raise ValueError('The input array is not square.')
     psd = psd2(array, sampling_frequency=sampling_frequency, fftw_flag=fftw_flag)
-    x, y = profile(psd, center=array.shape // np.array(2) + 1)
+    x, y = profile(psd, center=array.shape // np.array(2))
     x *= sampling_frequency / array.shape[1]
     return x, y
-- 
2.43.0


From 21e96e101712d7452d33db69f5d7616e821280c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 053/160] fix: return gaussian images of the requested type

---
 src/pysimulators/datautils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index c86b8ae..604932d 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -348,15 +348,16 @@ def gaussian(shape, sigma=None, fwhm=None, center=None, dtype=float):
     n = len(shape)
     if sigma is None:
         sigma = fwhm / np.sqrt(8 * np.log(2))
+    dtype = np.dtype(dtype)
+    fdtype = dtype if dtype.kind == 'f' else float
     if center is None:
-        center = (np.array(shape[::-1], dtype) - 1) / 2
+        center = (np.array(shape[::-1], fdtype) - 1) / 2
     else:
-        center = np.ascontiguousarray(center, dtype)
+        center = np.ascontiguousarray(center, fdtype)
     if isscalarlike(sigma):
-        sigma = np.resize(sigma, n).astype(dtype)
+        sigma = np.resize(sigma, n).astype(fdtype)
     else:
-        sigma = np.ascontiguousarray(sigma, dtype)
-    dtype = np.dtype(dtype)
+        sigma = np.ascontiguousarray(sigma, fdtype)
     if n == 2 and dtype in (np.float32, np.float64):
         out = np.empty(shape, dtype)
         func = getattr(flib.datautils, f'gaussian_2d_r{dtype.itemsize}')
@@ -372,6 +373,7 @@ def gaussian(shape, sigma=None, fwhm=None, center=None, dtype=float):
         out = 1 / ((2 * np.pi) ** (n / 2) * product(sigma))
         for a in axes:
             out = out * np.exp(-(a**2))
+        out = np.asarray(out, dtype)
     return out
 
 
-- 
2.43.0


From fc5488ae026741c242b0f9a31a9eef8f17d94468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 054/160] fix: compute Airy disks of any type

---
 src/pysimulators/datautils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index 604932d..981a1b7 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -55,7 +55,7 @@ def airy_disk(shape, fwhm=None, r0=None, center=None, scale=1, dtype=float):
     """
     if fwhm is None and r0 is None:
         raise ValueError('No scale parameter.')
-    d = distance(shape, center=center, scale=scale, dtype=dtype)
+    d = distance(shape, center=center, scale=scale)
     index = np.where(d == 0)
     d[index] = 1.0e-30
     if fwhm is not None:
@@ -64,7 +64,7 @@ def airy_disk(shape, fwhm=None, r0=None, center=None, scale=1, dtype=float):
         d *= 3.8317 / r0
     d = (2 * scipy.special.jn(1, d) / d) ** 2
     d /= np.sum(d)
-    return d
+    return d.astype(dtype)
 
 
 def aperture_circular(shape, diameter, center=None, scale=1, dtype=float):
-- 
2.43.0


From 77a6f25838f057b7126fd0ee3d0900676437c1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 055/160] fix: return the buffers of distances whatever their
 memory layout

---
 src/pysimulators/datautils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index 981a1b7..cd780c6 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -150,7 +150,7 @@ def distance(shape, center=None, scale=1, dtype=float, out=None):
             out[...] = out_
     else:
         _distance_slow(shape, center, scale, dtype, out)
-    return Map(out, dtype=out.dtype, copy=False, unit=unit)
+    return Map(out, dtype=out.dtype, copy=False, order='A', unit=unit)
 
 
 def _distance_slow(shape, center, scale, dtype, out=None):
@@ -238,7 +238,7 @@ def distance2(shape, center=None, scale=1, dtype=float, out=None):
             out[...] = out_
     else:
         _distance2_slow(shape, center, scale, dtype, out)
-    return Map(out, dtype=out.dtype, copy=False, unit=unit)
+    return Map(out, dtype=out.dtype, copy=False, order='A', unit=unit)
 
 
 def _distance2_slow(shape, center, scale, dtype, out=None):
-- 
2.43.0


From 9bc2ff7ba25f54fe53bf858f771212c4e67537e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 056/160] fix: update the unit of the quantities modified in
 place

---
 src/pysimulators/quantities.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index b5f69a0..cc3688b 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -809,11 +809,10 @@ class Quantity(np.ndarray):
             output_unit = None
 
         # Process outputs if provided
-        # TODO: check me
         if out is not None:
+            out = out if isinstance(out, tuple) else (out,)
             kwargs['out'] = tuple(
-                o.view(np.ndarray) if isinstance(o, Quantity) else o
-                for o in (out if isinstance(out, tuple) else (out,))
+                o.view(np.ndarray) if isinstance(o, Quantity) else o for o in out
             )
 
         # Call the ufunc
@@ -826,13 +825,31 @@ class Quantity(np.ndarray):
             ],
             **kwargs,
         )
-        if result is None or result is NotImplemented or output_unit is None:
+        if result is None or result is NotImplemented:
             return result
 
         # Handle tuple results (for ufuncs with multiple outputs)
         if isinstance(result, tuple):
-            return tuple(self._process_ufunc_result(r, output_unit) for r in result)
+            outs = out if out is not None else len(result) * (None,)
+            return tuple(
+                self._process_ufunc_output(r, output_unit, o)
+                for r, o in zip(result, outs)
+            )
+
+        return self._process_ufunc_output(
+            result, output_unit, out[0] if out is not None else None
+        )
 
+    def _process_ufunc_output(self, result, output_unit, out):
+        """
+        Process one output of a ufunc call: a quantity given as output is returned
+        with its unit updated.
+        """
+        if isinstance(out, Quantity):
+            out._unit = {} if output_unit is None else output_unit
+            return out
+        if output_unit is None:
+            return result
         return self._process_ufunc_result(result, output_unit)
 
     def _process_ufunc_result(self, result, output_unit):
-- 
2.43.0


From 9fe9c598739a83c432b07147e2f201dde3d81bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 057/160] fix: handle the units of the quantities given as
 keywords

---
 src/pysimulators/quantities.py | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index cc3688b..8299726 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -500,6 +500,7 @@ class Quantity(np.ndarray):
 
         input_units = self._get_function_input_units(args, conversion)
         output_units = self._get_function_output_units(input_units, conversion)
+        out = kwargs.get('out')
 
         converted_inputs, kwargs = self._convert_function_inputs(
             args, kwargs, output_units, conversion
@@ -508,6 +509,9 @@ class Quantity(np.ndarray):
         outputs = func(*converted_inputs, **kwargs)
         if conversion.output is ConversionOutput.NONE:
             return None
+        if isinstance(out, Quantity):
+            out._unit = output_units
+            return out
 
         converted_outputs = self._convert_function_outputs(
             outputs, output_units, conversion
@@ -567,9 +571,10 @@ class Quantity(np.ndarray):
         output_units: UnitType | Sequence[UnitType],
         conversion: ConversionType,
     ) -> tuple[Any, ...]:
-        out = keywords.get('out')
-        if out is not None:
-            keywords['out'] = cls._view_function_input(out)
+        keywords = {
+            key: cls._convert_function_keyword(key, value, output_units, conversion)
+            for key, value in keywords.items()
+        }
 
         if conversion.action is not ConversionAction.SAME or conversion.input in (
             ConversionInput.FIRST,
@@ -629,6 +634,27 @@ class Quantity(np.ndarray):
             homogenized_args.append(array)
         return tuple(homogenized_args), keywords
 
+    @classmethod
+    def _convert_function_keyword(
+        cls,
+        name: str,
+        value: Any,
+        output_units: UnitType | Sequence[UnitType],
+        conversion: ConversionType,
+    ) -> Any:
+        """Return a keyword as an array, in the same unit as the input if it is
+        combined with it."""
+        if (
+            isinstance(value, Quantity)
+            and name not in ('out', 'weights', 'fweights', 'aweights')
+            and conversion.action is ConversionAction.SAME
+            and output_units
+            and value._unit
+            and value._unit != output_units
+        ):
+            value = value.tounit(output_units)
+        return cls._view_function_input(value)
+
     @classmethod
     def _view_function_inputs(
         cls, arrays: Any, conversion: ConversionType
-- 
2.43.0


From 01c4ea2729e23e53d130e26e47b9d4a14dcc1c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 058/160] fix: update the unit of the output buffers given as
 positional arguments

---
 src/pysimulators/quantities.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 8299726..f54fa68 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -509,6 +509,12 @@ class Quantity(np.ndarray):
         outputs = func(*converted_inputs, **kwargs)
         if conversion.output is ConversionOutput.NONE:
             return None
+        if out is None:
+            # the output buffer may be a positional argument
+            out = next(
+                (a for a, c in zip(args[1:], converted_inputs[1:]) if c is outputs),
+                None,
+            )
         if isinstance(out, Quantity):
             out._unit = output_units
             return out
-- 
2.43.0


From f421a6b55b78ca88ccaac5605342a92795c52131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 059/160] fix: homogenise the units in the remainder, floor
 division, clip, fmin, fmax and arctan2

---
 src/pysimulators/quantities.py | 62 +++++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 16 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index f54fa68..9ed1c19 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -98,7 +98,6 @@ FUNCTIONS = {
     ),
     np.broadcast_to: DEFAULT_CONVERSION,
     np.choose: ConversionType(ConversionInput.SECOND_SEQUENCE),
-    np.clip: DEFAULT_CONVERSION,
     np.column_stack: ConversionType(ConversionInput.FIRST_SEQUENCE),
     np.compress: ConversionType(ConversionInput.SECOND),
     np.concat: ConversionType(ConversionInput.FIRST_SEQUENCE),
@@ -768,18 +767,43 @@ class Quantity(np.ndarray):
 
         input_units = self._get_sequence_units(inputs)
 
-        if ufunc in (
-            np.add,
-            np.clip,
-            np.fmod,
-            np.hypot,
-            np.maximum,
-            np.minimum,
-            np.subtract,
+        if (
+            ufunc
+            in (
+                np.add,
+                np.fmax,
+                np.fmin,
+                np.fmod,
+                np.hypot,
+                np.maximum,
+                np.minimum,
+                np.nextafter,
+                np.remainder,
+                np.subtract,
+            )
+            or ufunc.__name__ == 'clip'  # not the function np.clip
         ):
             inputs, output_unit = self._get_inputs_with_common_units(inputs)
 
+        elif ufunc is np.divmod:
+            inputs, output_unit = self._get_inputs_with_common_units(inputs)
+            output_unit = (
+                {}
+                if all(input_units)
+                else _divide_unit(input_units[0], input_units[1]),
+                output_unit,
+            )
+
+        elif ufunc is np.floor_divide and all(input_units):
+            # the integer division of magnitudes depends on the units
+            try:
+                inputs, _ = self._get_inputs_with_common_units(inputs)
+                output_unit = {}
+            except UnitError:
+                output_unit = _divide_unit(input_units[0], input_units[1])
+
         elif ufunc in (
+            np.arctan2,
             np.equal,
             np.greater,
             np.greater_equal,
@@ -796,16 +820,19 @@ class Quantity(np.ndarray):
             np.conjugate,
             np.copysign,
             np.fabs,
-            np.float_power,
             np.floor,
-            np.fmax,
-            np.fmin,
-            np.hypot,
+            np.ldexp,
+            np.modf,
             np.negative,
+            np.positive,
             np.rint,
+            np.spacing,
             np.trunc,
         ):
-            output_unit = self._unit
+            output_unit = input_units[0]
+
+        elif ufunc is np.frexp:
+            output_unit = input_units[0], None
 
         elif ufunc is np.reciprocal:
             output_unit = _power_unit(input_units[0], -1)
@@ -863,9 +890,12 @@ class Quantity(np.ndarray):
         # Handle tuple results (for ufuncs with multiple outputs)
         if isinstance(result, tuple):
             outs = out if out is not None else len(result) * (None,)
+            output_units = (
+                output_unit if isinstance(output_unit, tuple) else len(outs) * (output_unit,)
+            )
             return tuple(
-                self._process_ufunc_output(r, output_unit, o)
-                for r, o in zip(result, outs)
+                self._process_ufunc_output(r, u, o)
+                for r, u, o in zip(result, output_units, outs)
             )
 
         return self._process_ufunc_output(
-- 
2.43.0


From 4cd2a539d2b5f6c1dada631c1bfa4eb8d89fe8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 060/160] fix: raise quantities to a power that is not a single
 unitless number

---
 src/pysimulators/quantities.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 9ed1c19..460650a 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -846,13 +846,21 @@ class Quantity(np.ndarray):
         elif ufunc is np.square:
             output_unit = _power_unit(input_units[0], 2)
 
-        elif ufunc is np.power:
-            power = (
-                inputs[1].view(np.ndarray)
-                if isinstance(inputs[1], Quantity)
-                else inputs[1]
-            )
-            output_unit = _power_unit(input_units[0], power)
+        elif ufunc in (np.power, np.float_power):
+            if len(inputs) > 1 and input_units[1]:
+                exponent = inputs[1].SI
+                if exponent._unit:
+                    raise UnitError('The exponent has a unit.')
+                inputs = inputs[0], exponent
+            if input_units[0]:
+                if len(inputs) == 1 or np.size(inputs[1]) == 0:
+                    raise UnitError('The power of the unit is not defined.')
+                power = np.asarray(inputs[1]).flat[0]
+                if np.any(np.asarray(inputs[1]) != power):
+                    raise UnitError('The elements do not have the same unit.')
+                output_unit = _power_unit(input_units[0], power)
+            else:
+                output_unit = {}
 
         elif ufunc in (np.matmul, np.matvec, np.multiply, np.vecdot, np.vecmat):
             output_unit = _multiply_unit(input_units[0], input_units[1])
-- 
2.43.0


From a1dd22b1e55be579d0c9a733567dd69900cfc082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 061/160] fix: compute the unit of the product of the elements
 of a quantity

---
 src/pysimulators/quantities.py | 43 ++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 460650a..5bdd0a8 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -794,7 +794,7 @@ class Quantity(np.ndarray):
                 output_unit,
             )
 
-        elif ufunc is np.floor_divide and all(input_units):
+        elif ufunc is np.floor_divide and len(inputs) > 1 and all(input_units):
             # the integer division of magnitudes depends on the units
             try:
                 inputs, _ = self._get_inputs_with_common_units(inputs)
@@ -846,7 +846,7 @@ class Quantity(np.ndarray):
         elif ufunc is np.square:
             output_unit = _power_unit(input_units[0], 2)
 
-        elif ufunc in (np.power, np.float_power):
+        elif ufunc in (np.power, np.float_power) and method in ('__call__', 'outer'):
             if len(inputs) > 1 and input_units[1]:
                 exponent = inputs[1].SI
                 if exponent._unit:
@@ -862,6 +862,15 @@ class Quantity(np.ndarray):
             else:
                 output_unit = {}
 
+        elif method in ('accumulate', 'at', 'reduce', 'reduceat') and ufunc in (
+            np.divide,
+            np.floor_divide,
+            np.multiply,
+            np.power,
+            np.float_power,
+        ):
+            output_unit = self._get_product_unit(ufunc, method, inputs, kwargs)
+
         elif ufunc in (np.matmul, np.matvec, np.multiply, np.vecdot, np.vecmat):
             output_unit = _multiply_unit(input_units[0], input_units[1])
 
@@ -910,6 +919,36 @@ class Quantity(np.ndarray):
             result, output_unit, out[0] if out is not None else None
         )
 
+    @classmethod
+    def _get_product_unit(cls, ufunc, method, inputs, kwargs):
+        """
+        Return the unit of the elements obtained by multiplying or dividing elements
+        of a same quantity.
+        """
+        unit = cls._get_units(inputs[0])
+        if method == 'at':
+            if len(inputs) > 2 and cls._get_units(inputs[2]):
+                raise UnitError('The elements would not have the same unit.')
+            if unit and ufunc in (np.power, np.float_power):
+                raise UnitError('The elements would not have the same unit.')
+            return unit
+        if not unit:
+            return {}
+        if ufunc is not np.multiply or method != 'reduce':
+            raise UnitError('The elements would not have the same unit.')
+        if kwargs.get('where', True) is not True:
+            raise UnitError('The number of multiplied elements is not defined.')
+        shape = np.shape(inputs[0])
+        axis = kwargs.get('axis', 0)
+        if axis is None:
+            axis = tuple(range(len(shape)))
+        elif not isinstance(axis, tuple):
+            axis = (axis,)
+        n = 1
+        for a in axis:
+            n *= shape[a]
+        return _power_unit(unit, n)
+
     def _process_ufunc_output(self, result, output_unit, out):
         """
         Process one output of a ufunc call: a quantity given as output is returned
-- 
2.43.0


From baac26ae6a308398c675f0794855d9fd75d62e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 062/160] fix: handle the initial value and the undefined
 values of the reductions of quantities

---
 src/pysimulators/quantities.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 5bdd0a8..9c743c5 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -494,6 +494,8 @@ class Quantity(np.ndarray):
         ufuncs when appropriate.
         """
         conversion = FUNCTIONS.get(func)
+        if func is np.nanprod and self._get_units(args[0]) and np.isnan(args[0]).any():
+            raise UnitError('The number of multiplied elements is not defined.')
         if conversion is None:
             return super().__array_function__(func, types, args, kwargs)
 
@@ -884,6 +886,17 @@ class Quantity(np.ndarray):
         else:
             output_unit = None
 
+        # Handle the initial value of the reductions
+        initial = kwargs.get('initial')
+        if isinstance(initial, Quantity):
+            if ufunc is np.multiply:
+                output_unit = _multiply_unit(output_unit, initial._unit)
+            elif output_unit and initial._unit:
+                initial = initial.tounit(output_unit)
+            elif output_unit is not None:
+                output_unit = output_unit or initial._unit
+            kwargs['initial'] = initial.magnitude
+
         # Process outputs if provided
         if out is not None:
             out = out if isinstance(out, tuple) else (out,)
-- 
2.43.0


From af801315240692a0c3a4e0b57c27e3c24de29af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 063/160] fix: unit of the dot product, trace and argument
 methods of quantities

---
 src/pysimulators/quantities.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 9c743c5..241201e 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -986,6 +986,36 @@ class Quantity(np.ndarray):
         result._unit = output_unit
         return result
 
+    def dot(self, b, out=None):
+        return np.dot(self, b, out)
+
+    dot.__doc__ = np.ndarray.dot.__doc__
+
+    def trace(self, offset=0, axis1=0, axis2=1, dtype=None, out=None):
+        return np.trace(self, offset, axis1, axis2, dtype, out)
+
+    trace.__doc__ = np.ndarray.trace.__doc__
+
+    def argsort(self, *args, **keywords):
+        return self.magnitude.argsort(*args, **keywords)
+
+    argsort.__doc__ = np.ndarray.argsort.__doc__
+
+    def argpartition(self, *args, **keywords):
+        return self.magnitude.argpartition(*args, **keywords)
+
+    argpartition.__doc__ = np.ndarray.argpartition.__doc__
+
+    def argmin(self, *args, **keywords):
+        return self.magnitude.argmin(*args, **keywords)
+
+    argmin.__doc__ = np.ndarray.argmin.__doc__
+
+    def argmax(self, *args, **keywords):
+        return self.magnitude.argmax(*args, **keywords)
+
+    argmax.__doc__ = np.ndarray.argmax.__doc__
+
     #    def __getattr__(self, name):
     #        if self.dtype.names is None or name not in self.dtype.names:
     #            raise AttributeError(
-- 
2.43.0


From b4794270cc9c40fdaad1eaf9067009481404983e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 064/160] fix: units of the covariance, quantiles, norm and
 comparison functions

---
 src/pysimulators/quantities.py | 44 +++++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 241201e..ab9c5a6 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -69,6 +69,7 @@ class ConversionAction(Enum):
         auto()
     )  # when the input is *args and output is a sequence, each quantity is propagated
     SQUARE = auto()  # square the input units
+    COMMON_SQUARE = auto()  # homogenize and square the input units
     PROD = auto()  # output units is the product of the inputs
     UNITLESS = auto()  # the output is an ndarray
 
@@ -87,6 +88,12 @@ FUNCTIONS = {
     np.amin: DEFAULT_CONVERSION,
     np.append: ConversionType(ConversionInput.FIRST_AND_SECOND),
     np.around: DEFAULT_CONVERSION,
+    np.array_equal: ConversionType(
+        ConversionInput.FIRST_AND_SECOND, action=ConversionAction.UNITLESS
+    ),
+    np.array_equiv: ConversionType(
+        ConversionInput.FIRST_AND_SECOND, action=ConversionAction.UNITLESS
+    ),
     np.array_split: ConversionType(output=ConversionOutput.SEQUENCE),
     np.atleast_1d: DEFAULT_CONVERSION,
     np.atleast_2d: DEFAULT_CONVERSION,
@@ -111,7 +118,7 @@ FUNCTIONS = {
         ConversionInput.FIRST_AND_SECOND, action=ConversionAction.PROD
     ),
     np.cov: ConversionType(
-        ConversionInput.FIRST_AND_SECOND, action=ConversionAction.PROD
+        ConversionInput.FIRST_AND_SECOND, action=ConversionAction.COMMON_SQUARE
     ),
     np.cross: ConversionType(
         ConversionInput.FIRST_AND_SECOND, action=ConversionAction.PROD
@@ -123,6 +130,9 @@ FUNCTIONS = {
     np.diagflat: DEFAULT_CONVERSION,
     np.diagonal: DEFAULT_CONVERSION,
     np.diff: DEFAULT_CONVERSION,
+    np.digitize: ConversionType(
+        ConversionInput.FIRST_AND_SECOND, action=ConversionAction.UNITLESS
+    ),
     np.dot: ConversionType(
         ConversionInput.FIRST_AND_SECOND, action=ConversionAction.PROD
     ),
@@ -149,9 +159,13 @@ FUNCTIONS = {
     np.insert: ConversionType(ConversionInput.FIRST_AND_THIRD),
     np.interp: DEFAULT_CONVERSION,
     np.intersect1d: ConversionType(ConversionInput.FIRST_AND_SECOND),
+    np.isin: ConversionType(
+        ConversionInput.FIRST_AND_SECOND, action=ConversionAction.UNITLESS
+    ),
     np.kron: ConversionType(
         ConversionInput.FIRST_AND_SECOND, action=ConversionAction.PROD
     ),
+    np.linalg.norm: DEFAULT_CONVERSION,
     np.max: DEFAULT_CONVERSION,
     np.mean: DEFAULT_CONVERSION,
     np.median: DEFAULT_CONVERSION,
@@ -163,6 +177,8 @@ FUNCTIONS = {
     np.nanmean: DEFAULT_CONVERSION,
     np.nanmedian: DEFAULT_CONVERSION,
     np.nanmin: DEFAULT_CONVERSION,
+    np.nanpercentile: DEFAULT_CONVERSION,
+    np.nanquantile: DEFAULT_CONVERSION,
     np.nanstd: DEFAULT_CONVERSION,
     np.nansum: DEFAULT_CONVERSION,
     np.nanvar: ConversionType(action=ConversionAction.SQUARE),
@@ -171,8 +187,10 @@ FUNCTIONS = {
     ),
     np.pad: DEFAULT_CONVERSION,
     np.partition: DEFAULT_CONVERSION,
+    np.percentile: DEFAULT_CONVERSION,
     np.permute_dims: DEFAULT_CONVERSION,
     np.ptp: DEFAULT_CONVERSION,
+    np.quantile: DEFAULT_CONVERSION,
     np.ravel: DEFAULT_CONVERSION,
     np.real: DEFAULT_CONVERSION,
     np.real_if_close: DEFAULT_CONVERSION,
@@ -184,6 +202,9 @@ FUNCTIONS = {
     np.rot90: DEFAULT_CONVERSION,
     np.round: DEFAULT_CONVERSION,
     np.row_stack: ConversionType(ConversionInput.FIRST_SEQUENCE),
+    np.searchsorted: ConversionType(
+        ConversionInput.FIRST_AND_SECOND, action=ConversionAction.UNITLESS
+    ),
     np.select: ConversionType(ConversionInput.SECOND_SEQUENCE),
     np.setdiff1d: ConversionType(ConversionInput.FIRST_AND_SECOND),
     np.setxor1d: ConversionType(ConversionInput.FIRST_AND_SECOND),
@@ -510,6 +531,8 @@ class Quantity(np.ndarray):
         outputs = func(*converted_inputs, **kwargs)
         if conversion.output is ConversionOutput.NONE:
             return None
+        if conversion.action is ConversionAction.UNITLESS:
+            return outputs
         if out is None:
             # the output buffer may be a positional argument
             out = next(
@@ -539,7 +562,7 @@ class Quantity(np.ndarray):
             case ConversionInput.SEQUENCE_EXCEPT_FIRST:
                 return cls._get_sequence_units(arrays[1:])
             case ConversionInput.FIRST_AND_SECOND:
-                return cls._get_sequence_units([arrays[0], arrays[1]])
+                return cls._get_sequence_units(arrays[:2])
             case ConversionInput.SECOND_AND_THIRD:
                 return cls._get_sequence_units([arrays[1], arrays[2]])
             case ConversionInput.FIRST_AND_THIRD:
@@ -567,6 +590,10 @@ class Quantity(np.ndarray):
                 for input_unit in input_units[1:]:
                     output_unit = _multiply_unit(output_unit, input_unit)
                 return output_unit
+            case ConversionAction.COMMON_SQUARE:
+                return _power_unit(next((_ for _ in input_units if _), {}), 2)
+            case ConversionAction.UNITLESS:
+                return next((_ for _ in input_units if _), {})
             case _:
                 assert False, 'unreachable'
 
@@ -583,7 +610,11 @@ class Quantity(np.ndarray):
             for key, value in keywords.items()
         }
 
-        if conversion.action is not ConversionAction.SAME or conversion.input in (
+        if conversion.action not in (
+            ConversionAction.SAME,
+            ConversionAction.COMMON_SQUARE,
+            ConversionAction.UNITLESS,
+        ) or conversion.input in (
             ConversionInput.FIRST,
             ConversionInput.SECOND,
         ):
@@ -591,6 +622,8 @@ class Quantity(np.ndarray):
         assert isinstance(output_units, dict)
 
         common_unit = output_units
+        if conversion.action is ConversionAction.COMMON_SQUARE:
+            common_unit = _power_unit(output_units, 0.5)
         if not common_unit:
             return arrays, keywords
 
@@ -1016,6 +1049,11 @@ class Quantity(np.ndarray):
 
     argmax.__doc__ = np.ndarray.argmax.__doc__
 
+    def searchsorted(self, v, side='left', sorter=None):
+        return np.searchsorted(self, v, side, sorter)
+
+    searchsorted.__doc__ = np.ndarray.searchsorted.__doc__
+
     #    def __getattr__(self, name):
     #        if self.dtype.names is None or name not in self.dtype.names:
     #            raise AttributeError(
-- 
2.43.0


From e019dcadc2b57ca5ae2347ff2a87f0376545b196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 065/160] fix: convert the quantities that are assigned to the
 elements of a quantity

---
 src/pysimulators/quantities.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index ab9c5a6..41f5b07 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -114,6 +114,9 @@ FUNCTIONS = {
     ),
     np.copy: DEFAULT_CONVERSION,
     # np.corrcoef: NO_CONVERSION,
+    np.copyto: ConversionType(
+        ConversionInput.FIRST_AND_SECOND, output=ConversionOutput.NONE
+    ),
     np.correlate: ConversionType(
         ConversionInput.FIRST_AND_SECOND, action=ConversionAction.PROD
     ),
@@ -150,6 +153,7 @@ FUNCTIONS = {
     np.flip: DEFAULT_CONVERSION,
     np.fliplr: DEFAULT_CONVERSION,
     np.flipud: DEFAULT_CONVERSION,
+    np.full_like: ConversionType(ConversionInput.FIRST_AND_SECOND),
     np.hsplit: ConversionType(output=ConversionOutput.SEQUENCE),
     np.hstack: ConversionType(ConversionInput.FIRST_SEQUENCE),
     np.imag: DEFAULT_CONVERSION,
@@ -1123,6 +1127,18 @@ class Quantity(np.ndarray):
 
         return item
 
+    def __setitem__(self, key, value):
+        """
+        x.__setitem__(key, value) <==> x[key] = value
+
+        Set the item described by the key. A quantity is converted to the unit
+        of the array.
+
+        """
+        if isinstance(value, Quantity) and self.dtype.kind != 'V':
+            (_, value), _ = self._get_inputs_with_common_units((self, value))
+        np.ndarray.__setitem__(self, key, value)
+
     def __getslice__(self, i, j):
         """
         x.__getslice__(i, j) <==> x[i:j]
-- 
2.43.0


From d8eecdf623f9d8266e48d093c406c356f5368e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 066/160] fix: homogenise the units of the blocks of an array

---
 src/pysimulators/quantities.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 41f5b07..d4d09b6 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -99,7 +99,7 @@ FUNCTIONS = {
     np.atleast_2d: DEFAULT_CONVERSION,
     np.atleast_3d: DEFAULT_CONVERSION,
     np.average: DEFAULT_CONVERSION,
-    # np.block: ConversionType(ConversionInput.FIRST_NESTED),
+    np.block: ConversionType(ConversionInput.FIRST_NESTED),
     np.broadcast_arrays: ConversionType(
         ConversionInput.SEQUENCE, ConversionOutput.SEQUENCE, ConversionAction.EACH
     ),
@@ -573,6 +573,8 @@ class Quantity(np.ndarray):
                 return cls._get_sequence_units([arrays[0], arrays[2]])
             case ConversionInput.FIRST_SEQUENCE:
                 return cls._get_sequence_units(arrays[0])
+            case ConversionInput.FIRST_NESTED:
+                return cls._get_nested_units(arrays[0])
             case ConversionInput.SECOND_SEQUENCE:
                 return cls._get_sequence_units(arrays[1])
             case _:
@@ -633,7 +635,9 @@ class Quantity(np.ndarray):
 
         homogenized_args = []
         for iarray, array in enumerate(arrays):
-            if (
+            if conversion.input is ConversionInput.FIRST_NESTED:
+                array = cls._convert_nested(array, common_unit)
+            elif (
                 iarray == 0
                 and conversion.input is ConversionInput.FIRST_SEQUENCE
                 or iarray == 1
@@ -712,6 +716,8 @@ class Quantity(np.ndarray):
                 and conversion.input is ConversionInput.SECOND_SEQUENCE
             ):
                 array = cls._view_function_input_iterable(array)
+            elif conversion.input is ConversionInput.FIRST_NESTED:
+                array = cls._view_nested(array)
             else:
                 array = cls._view_function_input(array)
             viewed_arrays.append(array)
@@ -780,6 +786,25 @@ class Quantity(np.ndarray):
     def _get_sequence_units(cls, arrays) -> tuple[UnitType, ...]:
         return tuple(cls._get_units(_) for _ in arrays)
 
+    @classmethod
+    def _get_nested_units(cls, arrays) -> tuple[UnitType, ...]:
+        if not isinstance(arrays, list):
+            return (cls._get_units(arrays),)
+        return sum((cls._get_nested_units(_) for _ in arrays), ())
+
+    @classmethod
+    def _convert_nested(cls, arrays, unit: UnitType):
+        if isinstance(arrays, list):
+            return [cls._convert_nested(_, unit) for _ in arrays]
+        arrays_unit = cls._get_units(arrays)
+        return arrays.tounit(unit) if arrays_unit and arrays_unit != unit else arrays
+
+    @classmethod
+    def _view_nested(cls, arrays):
+        if isinstance(arrays, list):
+            return [cls._view_nested(_) for _ in arrays]
+        return cls._view_function_input(arrays)
+
     @classmethod
     def _get_units(cls, array) -> UnitType:
         if not isinstance(array, Quantity):
-- 
2.43.0


From fe27bb62051e957acbb7696fad59a5e30d40b95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 067/160] fix: return interpolated quantities in the unit of
 the data points

---
 src/pysimulators/quantities.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index d4d09b6..c5bc79b 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -161,7 +161,6 @@ FUNCTIONS = {
         ConversionInput.FIRST_AND_SECOND, action=ConversionAction.PROD
     ),
     np.insert: ConversionType(ConversionInput.FIRST_AND_THIRD),
-    np.interp: DEFAULT_CONVERSION,
     np.intersect1d: ConversionType(ConversionInput.FIRST_AND_SECOND),
     np.isin: ConversionType(
         ConversionInput.FIRST_AND_SECOND, action=ConversionAction.UNITLESS
@@ -521,6 +520,8 @@ class Quantity(np.ndarray):
         conversion = FUNCTIONS.get(func)
         if func is np.nanprod and self._get_units(args[0]) and np.isnan(args[0]).any():
             raise UnitError('The number of multiplied elements is not defined.')
+        if func is np.interp:
+            return self._interp(*args, **kwargs)
         if conversion is None:
             return super().__array_function__(func, types, args, kwargs)
 
@@ -552,6 +553,16 @@ class Quantity(np.ndarray):
         )
         return converted_outputs
 
+    def _interp(self, x, xp, fp, left=None, right=None, period=None):
+        (x, xp, period), x_units = self._get_inputs_with_common_units((x, xp, period))
+        (fp, left, right), fp_units = self._get_inputs_with_common_units(
+            (fp, left, right)
+        )
+        inputs = (self._view_function_input(_) for _ in (x, xp, fp, left, right, period))
+        return self._convert_function_outputs(
+            np.interp(*inputs), fp_units or x_units, DEFAULT_CONVERSION
+        )
+
     @classmethod
     def _get_function_input_units(
         cls, arrays: Iterable[Any], conversion: ConversionType
-- 
2.43.0


From 78794559d73661bbf26f106b37c23442f9799add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 068/160] fix: create quantities without copy from data that
 need a conversion

---
 src/pysimulators/quantities.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index c5bc79b..59fd766 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -483,6 +483,9 @@ class Quantity(np.ndarray):
         if dtype is None and data.dtype.kind == 'i':
             dtype = float
 
+        if not copy and numpy_version >= '2.0.0':
+            copy = None  # copy only if needed
+
         # get a new Quantity instance (or a subclass if subok is True)
         result = np.array(
             data, dtype=dtype, copy=copy, order=order, subok=True, ndmin=ndmin
-- 
2.43.0


From e33663fb46f6a9229dda9bd28abf6d69b7487939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 069/160] fix: do not modify the unit definitions during a
 conversion

---
 src/pysimulators/quantities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 59fd766..d7d64e7 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -1498,6 +1498,8 @@ def _get_du(input, key, derived_units):
     if hasattr(input, '_header'):
         du = du.view(type(input))
         du._header = input._header
+    else:
+        du = du.view()
     du._derived_units = input._derived_units
     return du, broadcast
 
-- 
2.43.0


From 7e8be34919f9a09a78073b94e7a7f4f941afa7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 070/160] fix: do not share the derived units between the
 copies of a quantity

---
 src/pysimulators/quantities.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index d7d64e7..f0f3613 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -499,7 +499,7 @@ class Quantity(np.ndarray):
 
         # set derived_units attribute
         if derived_units is not None:
-            result.derived_units = derived_units.copy()
+            result.derived_units = derived_units
 
         return result
 
@@ -507,7 +507,7 @@ class Quantity(np.ndarray):
         # for some numpy methods (append): the result doesn't go through
         # __new__ and obj is None. We have to set the instance attributes
         self._unit = getattr(obj, '_unit', {})
-        self._derived_units = getattr(obj, '_derived_units', {})
+        self._derived_units = dict(getattr(obj, '_derived_units', {}))
 
     @property
     def __array_priority__(self):
@@ -1259,7 +1259,7 @@ class Quantity(np.ndarray):
                         f'Invalid broadcast : {key[pos:]!r}. Valid values a'
                         f"re '[leftward]' or '[rightward]'."
                     )
-        self._derived_units = derived_units
+        self._derived_units = {} if derived_units is None else derived_units.copy()
 
     def tounit(self, unit: str | UnitType) -> Self:
         """
-- 
2.43.0


From a5a6bed52db54d054bf2268c85c35ad09dbe43f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:28 +0000
Subject: [PATCH 071/160] fix: index the derived units of the elements selected
 by any key

---
 src/pysimulators/quantities.py | 47 ++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index f0f3613..3f9f9be 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -1121,20 +1121,9 @@ class Quantity(np.ndarray):
         if self.dtype.kind == 'V' and isinstance(key, str):
             return item.view(Quantity)
 
-        if isinstance(key, list):
-            key = tuple(key)
-
         if not isinstance(key, tuple):
             key = (key,)
-
-        # Replace Ellipsis with ':'
-        try:
-            pos = key.index(Ellipsis)
-            key = key[:pos] + (self.ndim - len(key)) * (slice(None),) + key[pos + 1 :]
-        except ValueError:
-            pass
-
-        key += (self.ndim - len(key)) * (slice(None),)
+        axis_keys = _get_axis_keys(key, self.ndim)
 
         # update the broadcastable derived units
         du = None
@@ -1143,13 +1132,18 @@ class Quantity(np.ndarray):
                 pos = d.index('[')
             except ValueError:
                 continue
+            if isinstance(v, Callable) or v.ndim > self.ndim:
+                continue
 
             # the derived unit is broadcastable, let's update it
-            broadcast = d[pos + 1 : -1]
-            if broadcast == 'leftward':
-                v = v[key[-v.ndim :]]
+            leftward = d[pos + 1 : -1] == 'leftward'
+            axes = slice(self.ndim - v.ndim, None) if leftward else slice(v.ndim)
+            if axis_keys is not None and v.shape == self.shape[axes]:
+                v = v[axis_keys[axes] + (Ellipsis,)]
             else:
-                v = v[key[: v.ndim]]
+                if not leftward:
+                    v = v.reshape(v.shape + (self.ndim - v.ndim) * (1,))
+                v = np.broadcast_to(v, self.shape)[key]
 
             if du is None:
                 du = item._derived_units.copy()
@@ -1467,6 +1461,27 @@ class Quantity(np.ndarray):
         )
 
 
+def _get_axis_keys(key, ndim):
+    """
+    Return the index or slice of each dimension, or None if the key is not made of
+    indices, slices and at most an ellipsis.
+
+    """
+    if not all(
+        k is Ellipsis
+        or isinstance(k, slice)
+        or isinstance(k, (int, np.integer))
+        and not isinstance(k, bool)
+        for k in key
+    ):
+        return None
+    nmissing = ndim - sum(k is not Ellipsis for k in key)
+    if Ellipsis not in key:
+        return key + nmissing * (slice(None),)
+    pos = key.index(Ellipsis)
+    return key[:pos] + nmissing * (slice(None),) + key[pos + 1 :]
+
+
 def _check_du(input, key, val, derived_units):
     if len(derived_units) == 0:
         return None, None
-- 
2.43.0


From 7c364beed614a67db678d58dd68e0aaa491b554d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:06 +0000
Subject: [PATCH 072/160] fix: keep the unit of the output buffers when no
 input has a unit

---
 src/pysimulators/quantities.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 3f9f9be..a9c0178 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -548,7 +548,8 @@ class Quantity(np.ndarray):
                 None,
             )
         if isinstance(out, Quantity):
-            out._unit = output_units
+            if any(input_units):
+                out._unit = output_units
             return out
 
         converted_outputs = self._convert_function_outputs(
@@ -1000,12 +1001,15 @@ class Quantity(np.ndarray):
                 output_unit if isinstance(output_unit, tuple) else len(outs) * (output_unit,)
             )
             return tuple(
-                self._process_ufunc_output(r, u, o)
+                self._process_ufunc_output(r, u, o, any(input_units))
                 for r, u, o in zip(result, output_units, outs)
             )
 
         return self._process_ufunc_output(
-            result, output_unit, out[0] if out is not None else None
+            result,
+            output_unit,
+            out[0] if out is not None else None,
+            any(input_units),
         )
 
     @classmethod
@@ -1038,13 +1042,14 @@ class Quantity(np.ndarray):
             n *= shape[a]
         return _power_unit(unit, n)
 
-    def _process_ufunc_output(self, result, output_unit, out):
+    def _process_ufunc_output(self, result, output_unit, out, has_unit):
         """
         Process one output of a ufunc call: a quantity given as output is returned
-        with its unit updated.
+        with its unit updated, unless no input has a unit.
         """
         if isinstance(out, Quantity):
-            out._unit = {} if output_unit is None else output_unit
+            if has_unit:
+                out._unit = {} if output_unit is None else output_unit
             return out
         if output_unit is None:
             return result
-- 
2.43.0


From 6eb24b8cb79bee80794865697ae658115883df86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 073/160] fix: update the unit of the unitless quantities
 modified by ufunc.at

---
 src/pysimulators/quantities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index a9c0178..f560b3c 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -991,6 +991,8 @@ class Quantity(np.ndarray):
             ],
             **kwargs,
         )
+        if method == 'at' and isinstance(inputs[0], Quantity) and output_unit:
+            inputs[0]._unit = output_unit
         if result is None or result is NotImplemented:
             return result
 
-- 
2.43.0


From e7e5ffa971fbc649ad1f3617da49db7690843ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:58 +0000
Subject: [PATCH 074/160] fix: combine unitless quantities with the quantities
 given as keywords

---
 src/pysimulators/quantities.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index f560b3c..e4b38f4 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -248,6 +248,9 @@ FUNCTIONS = {
 }
 FUNCTIONS.pop(None, None)
 
+# the keywords that are not in the same unit as the input
+UNCOMBINED_KEYWORDS = 'out', 'weights', 'fweights', 'aweights'
+
 
 def _extract_unit(string: str | UnitType) -> UnitType:
     """
@@ -530,6 +533,18 @@ class Quantity(np.ndarray):
 
         input_units = self._get_function_input_units(args, conversion)
         output_units = self._get_function_output_units(input_units, conversion)
+        if conversion.action is ConversionAction.SAME and not output_units:
+            # the keywords may be combined with unitless inputs
+            output_units = next(
+                (
+                    value._unit
+                    for key, value in kwargs.items()
+                    if isinstance(value, Quantity)
+                    and value._unit
+                    and key not in UNCOMBINED_KEYWORDS
+                ),
+                {},
+            )
         out = kwargs.get('out')
 
         converted_inputs, kwargs = self._convert_function_inputs(
@@ -709,7 +724,7 @@ class Quantity(np.ndarray):
         combined with it."""
         if (
             isinstance(value, Quantity)
-            and name not in ('out', 'weights', 'fweights', 'aweights')
+            and name not in UNCOMBINED_KEYWORDS
             and conversion.action is ConversionAction.SAME
             and output_units
             and value._unit
-- 
2.43.0


From 2d1570d24c8022898c92cc4e92fffcd429f925ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:58 +0000
Subject: [PATCH 075/160] fix: do not return numbers of elements with a unit

---
 src/pysimulators/quantities.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index e4b38f4..49e78e3 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -120,6 +120,7 @@ FUNCTIONS = {
     np.correlate: ConversionType(
         ConversionInput.FIRST_AND_SECOND, action=ConversionAction.PROD
     ),
+    np.count_nonzero: ConversionType(action=ConversionAction.UNITLESS),
     np.cov: ConversionType(
         ConversionInput.FIRST_AND_SECOND, action=ConversionAction.COMMON_SQUARE
     ),
-- 
2.43.0


From f23d431fd6fb268d5068b15d109575b0cf98152b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:40 +0000
Subject: [PATCH 076/160] fix: convert the products of different angle units

---
 src/pysimulators/quantities.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 49e78e3..30767db 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -357,6 +357,21 @@ def _divide_unit(unit1, unit2):
     return unit
 
 
+def _normalize_angles(unit):
+    """
+    Write the products of angles as solid angles.
+
+    """
+    power = unit.get('rad', 0) + 2 * unit.get('sr', 0)
+    unit = {key: val for key, val in unit.items() if key not in ('rad', 'sr')}
+    nsr = float(int(power / 2))
+    if nsr != 0:
+        unit['sr'] = nsr
+    if power != 2 * nsr:
+        unit['rad'] = power - 2 * nsr
+    return unit
+
+
 def _strunit(unit):
     """
     Convert a unit as dictionary into a string.
@@ -1397,7 +1412,7 @@ class Quantity(np.ndarray):
 
         result = self * fslow.magnitude
         result = (result.T * ffast.magnitude.T).T
-        result._unit = _multiply_unit(fslow._unit, ffast._unit)
+        result._unit = _normalize_angles(_multiply_unit(fslow._unit, ffast._unit))
 
         return result
 
-- 
2.43.0


From 47875b0d52e786be804c52f19bc8de11169730c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:40 +0000
Subject: [PATCH 077/160] fix: ignore the units with a zero exponent

---
 src/pysimulators/quantities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 30767db..1be20cc 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -287,8 +287,10 @@ def _extract_unit(string: str | UnitType) -> UnitType:
             exp = float(exp[1:])
         if op == '/':
             exp = -exp
-        result = _multiply_unit_inplace(result, u, exp)
         start = start + len(match.group(0))
+        if exp == 0:
+            continue
+        result = _multiply_unit_inplace(result, u, exp)
     return result
 
 
-- 
2.43.0


From 0137185fbfe78dac671082ec5f741e3a536be81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:32 +0000
Subject: [PATCH 078/160] fix: convert with derived units that vary along the
 last dimensions or are nested

---
 src/pysimulators/quantities.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 1be20cc..21abd34 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -1352,13 +1352,18 @@ class Quantity(np.ndarray):
                 header=self._header,
                 unit=self._unit,
                 derived_units=self.derived_units,
+                ndmin=self.ndim,
             ).SI
             q2 = self.__class__(
-                1, header=self._header, unit=newunit, derived_units=self.derived_units
+                1,
+                header=self._header,
+                unit=newunit,
+                derived_units=self.derived_units,
+                ndmin=self.ndim,
             ).SI
         else:
-            q1 = Quantity(1.0, self._unit, self.derived_units).SI
-            q2 = Quantity(1.0, newunit, self.derived_units).SI
+            q1 = Quantity(1.0, self._unit, self.derived_units, ndmin=self.ndim).SI
+            q2 = Quantity(1.0, newunit, self.derived_units, ndmin=self.ndim).SI
 
         if q1._unit != q2._unit:
             raise UnitError(
@@ -1372,7 +1377,7 @@ class Quantity(np.ndarray):
         if self.ndim == 0:
             self.magnitude *= factor
         else:
-            self.magnitude.T[:] *= factor.T
+            self.magnitude[:] *= factor
         self._unit = newunit
 
     @property
@@ -1550,6 +1555,10 @@ def _get_du(input, key, derived_units):
         du = du(input)
     if du is None:
         return None, None
+    if du.ndim < input.ndim:
+        # align the dimensions, for the derived units defined by this one
+        ones = (input.ndim - du.ndim) * (1,)
+        du = du.reshape(ones + du.shape if broadcast == 'leftward' else du.shape + ones)
     if hasattr(input, '_header'):
         du = du.view(type(input))
         du._header = input._header
-- 
2.43.0


From 3c3cd18bdb4669fcbeab83dab44a07e48d78f56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:17 +0000
Subject: [PATCH 079/160] fix: read the coverage, error, origin and mask from
 path objects

---
 src/pysimulators/datatypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index f77288a..1d35554 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -660,7 +660,7 @@ class Map(FitsArray):
         if not subok and type(result) is not cls:
             result = result.view(cls)
 
-        if isinstance(data, str):
+        if isinstance(data, (str, Path)):
 
             if comm is None:
                 comm = MPI.COMM_SELF
@@ -1066,7 +1066,7 @@ class Tod(FitsArray):
         if mask is np.ma.nomask:
             mask = None
 
-        if mask is None and isinstance(data, str):
+        if mask is None and isinstance(data, (str, Path)):
 
             if comm is None:
                 comm = MPI.COMM_SELF
-- 
2.43.0


From 5b9f2f4d6c9badc6f46d2e79cba57302dabc6e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:17 +0000
Subject: [PATCH 080/160] fix: write booleans as bytes in the FITS files

---
 src/pysimulators/mpiutils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index fb4fe0e..5d18755 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -250,6 +250,10 @@ def write_fits(filename, data, header, extension, extname, comm):
     if any(s[1:] != shapes[0][1:] for s in shapes):
         raise ValueError(f"The arrays have incompatible shapes: '{strshape(shapes)}'.")
 
+    # FITS images cannot store booleans
+    if data.dtype == bool:
+        data = data.view(np.uint8)
+
     # get header
     if header is None:
         header = create_fitsheader_for(data, extname=extname)
-- 
2.43.0


From 0d86300271041c24fa9dfe21218bc4777c74fc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 081/160] fix: do not save the unit of the header when the
 array has no unit

---
 src/pysimulators/datatypes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index 1d35554..267c151 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -314,6 +314,10 @@ class FitsArray(Quantity):
 
         if len(self._unit) != 0:
             header['BUNIT'] = self.unit
+        else:
+            # the header may come from data that had a unit
+            header.remove('BUNIT', ignore_missing=True)
+            header.remove('QTTY____', ignore_missing=True)
 
         write_fits(filename, self, header, False, None, comm)
         if not self.derived_units:
-- 
2.43.0


From 5c49bda3ae86be287599ab7339a3728b1dd33c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 082/160] fix: the derived units given when reading a file
 replace those of the file

---
 src/pysimulators/datatypes.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index 267c151..0bb2413 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -116,11 +116,12 @@ class FitsArray(Quantity):
             if comm is None:
                 comm = MPI.COMM_SELF
 
-            try:
-                buf = pyfits.open(data)['derived_units'].data
-                derived_units = pickle.loads(buf.data)
-            except (ImportError, KeyError):
-                pass
+            if derived_units is None:
+                try:
+                    buf = pyfits.open(data)['derived_units'].data
+                    derived_units = pickle.loads(buf.data)
+                except (ImportError, KeyError):
+                    pass
 
             data, header = read_fits(data, None, comm)
 
-- 
2.43.0


From 61c6c00eab96b1c1a4b46f817da43ea571a7529d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 083/160] fix: do not share the header, coverage, error and
 mask of copies

---
 src/pysimulators/datatypes.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index 0bb2413..09c5bd3 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -19,6 +19,8 @@ import pickle
 import sys
 import time
 import uuid
+from copy import copy as shallowcopy
+from copy import deepcopy
 from functools import reduce
 from pathlib import Path
 
@@ -174,6 +176,21 @@ class FitsArray(Quantity):
         else:
             super().__setattr__(name, value)
 
+    def __copy__(self):
+        return self.copy('K')
+
+    def __deepcopy__(self, memo):
+        result = super().__deepcopy__(memo)
+        result.__dict__.update(deepcopy(self.__dict__, memo))
+        return result
+
+    def copy(self, order='C'):
+        result = super().copy(order)
+        result._header = shallowcopy(self._header)
+        return result
+
+    copy.__doc__ = np.ndarray.copy.__doc__
+
     def astype(self, dtype):
         """
         f.astype(t)
@@ -728,6 +745,14 @@ class Map(FitsArray):
             item.error = item.error[key]
         return item
 
+    def copy(self, order='C'):
+        result = super().copy(order)
+        result.coverage = shallowcopy(self.coverage)
+        result.error = shallowcopy(self.error)
+        return result
+
+    copy.__doc__ = np.ndarray.copy.__doc__
+
     def astype(self, dtype):
         """
         m.astype(t)
@@ -1198,6 +1223,13 @@ class Tod(FitsArray):
             item.mask = item.mask[key]
         return item
 
+    def copy(self, order='C'):
+        result = super().copy(order)
+        result._mask = shallowcopy(self._mask)
+        return result
+
+    copy.__doc__ = np.ndarray.copy.__doc__
+
     @classmethod
     def empty(
         cls,
-- 
2.43.0


From e5caa4fa878bb259d9f37d822d971b25d35c4022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:24 +0000
Subject: [PATCH 084/160] fix: convert arrays with a header to types that are
 not those of FITS images

---
 src/pysimulators/datatypes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index 09c5bd3..930595e 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -220,7 +220,11 @@ class FitsArray(Quantity):
         if self._header is not None:
             typename = np.dtype(dtype).name
             result._header = self._header.copy()
-            result._header['BITPIX'] = pyfits.DTYPE2BITPIX[typename]
+            try:
+                result._header['BITPIX'] = pyfits.DTYPE2BITPIX[typename]
+            except KeyError:
+                # this type cannot be stored in a FITS image
+                result._header.remove('BITPIX', ignore_missing=True)
         return result
 
     @classmethod
-- 
2.43.0


From 6b0d492b2ff11f08be8a0f7e3fe493e372d21b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:37 +0000
Subject: [PATCH 085/160] fix: keep the coverage, error and mask aligned with
 the data when it is moved

---
 src/pysimulators/datatypes.py | 350 ++++++++++++++++++++++++++++------
 1 file changed, 291 insertions(+), 59 deletions(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index 930595e..6af371a 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -38,6 +38,73 @@ from .wcsutils import create_fitsheader_for, has_wcs
 
 __all__ = ['FitsArray', 'Map', 'Tod']
 
+# functions that only move elements, and which arguments are their input arrays
+_MOVING_FUNCTIONS = {
+    np.append: slice(2),
+    np.array_split: slice(1),
+    np.atleast_1d: slice(None),
+    np.atleast_2d: slice(None),
+    np.atleast_3d: slice(None),
+    np.broadcast_to: slice(1),
+    np.column_stack: 'sequence',
+    np.compress: slice(1, 2),
+    np.concatenate: 'sequence',
+    np.delete: slice(1),
+    np.diagonal: slice(1),
+    np.dsplit: slice(1),
+    np.dstack: 'sequence',
+    np.expand_dims: slice(1),
+    np.extract: slice(1, 2),
+    np.flip: slice(1),
+    np.fliplr: slice(1),
+    np.flipud: slice(1),
+    np.hsplit: slice(1),
+    np.hstack: 'sequence',
+    np.moveaxis: slice(1),
+    np.repeat: slice(1),
+    np.resize: slice(1),
+    np.roll: slice(1),
+    np.rollaxis: slice(1),
+    np.rot90: slice(1),
+    np.split: slice(1),
+    np.squeeze: slice(1),
+    np.stack: 'sequence',
+    np.swapaxes: slice(1),
+    np.take: slice(1),
+    np.take_along_axis: slice(1),
+    np.tile: slice(1),
+    np.transpose: slice(1),
+    np.vsplit: slice(1),
+    np.vstack: 'sequence',
+}
+
+# functions of one array that do not move its elements
+_ELEMENTWISE_FUNCTIONS = {
+    np.around,
+    np.copy,
+    np.fix,
+    np.full_like,
+    np.imag,
+    np.nan_to_num,
+    np.real,
+    np.real_if_close,
+    np.round,
+}
+
+
+def _moving_method(name):
+    """Return the array method that is also applied to the companion arrays."""
+
+    def method(self, *args, **keywords):
+        result = getattr(super(FitsArray, self), name)(*args, **keywords)
+        return self._set_companions(
+            result, lambda companion: getattr(companion, name)(*args, **keywords)
+        )
+
+    method.__name__ = name
+    method.__doc__ = getattr(np.ndarray, name).__doc__
+    return method
+
 
 class FitsArray(Quantity):
     """
@@ -99,6 +166,9 @@ class FitsArray(Quantity):
 
     _header = None
 
+    # the attributes that have the shape of the data
+    _companions = ()
+
     def __new__(
         cls,
         data,
@@ -164,6 +234,90 @@ class FitsArray(Quantity):
     def __array_finalize__(self, array):
         super().__array_finalize__(array)
         self._header = getattr(array, '_header', None)
+        for name in self._companions:
+            companion = getattr(array, name, None)
+            if np.ndim(companion) > 0 and companion.shape != self.shape:
+                companion = None
+            setattr(self, name, companion)
+
+    def _set_companions(self, result, func):
+        """Set the companions of an array derived from this one."""
+        if isinstance(result, FitsArray):
+            for name in result._companions:
+                companion = getattr(self, name, None)
+                if np.ndim(companion) > 0:
+                    companion = func(companion)
+                setattr(result, name, companion)
+        return result
+
+    def _drop_companions(self):
+        for name in self._companions:
+            setattr(self, name, None)
+
+    def __array_function__(self, func, types, args, kwargs):
+        if func in (np.ravel, np.reshape) and isinstance(args[0], FitsArray):
+            return getattr(args[0], func.__name__)(*args[1:], **kwargs)
+
+        if func in _ELEMENTWISE_FUNCTIONS:
+            where = slice(1)
+        else:
+            where = _MOVING_FUNCTIONS.get(func)
+        if where is None or kwargs.get('out') is not None or not self._companions:
+            return super().__array_function__(func, types, args, kwargs)
+
+        def replace(arrays):
+            if where == 'sequence':
+                return (list(arrays), *args[1:])
+            start, stop, _ = where.indices(len(args))
+            return (*args[:start], *arrays, *args[stop:])
+
+        arrays = tuple(args[0]) if where == 'sequence' else args[where]
+        bare_arrays = []
+        for array in arrays:
+            if isinstance(array, FitsArray):
+                array = array.view()
+                array._drop_companions()
+            bare_arrays.append(array)
+        result = super().__array_function__(func, types, replace(bare_arrays), kwargs)
+
+        outputs = result if isinstance(result, (list, tuple)) else [result]
+        keywords = {k: v for k, v in kwargs.items() if k not in ('casting', 'dtype')}
+        for name in self._companions:
+            companions = self._get_companions(arrays, name)
+            if companions is None:
+                new_companions = len(outputs) * [None]
+            elif func in _ELEMENTWISE_FUNCTIONS - {np.copy}:
+                new_companions = companions
+            else:
+                new_companions = func(*replace(companions), **keywords)
+                if not isinstance(result, (list, tuple)):
+                    new_companions = [new_companions]
+            for output, companion in zip(outputs, new_companions):
+                if isinstance(output, FitsArray):
+                    setattr(output, name, companion)
+        return result
+
+    @staticmethod
+    def _get_companions(arrays, name):
+        companions = []
+        for array in arrays:
+            companion = getattr(array, name, None)
+            if companion is None:
+                return None
+            if np.ndim(companion) == 0:
+                companion = np.full(np.shape(array), companion)
+            companions.append(companion)
+        return companions
+
+    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
+        result = super().__array_ufunc__(ufunc, method, *inputs, **kwargs)
+        if (
+            (ufunc.signature is not None or method in ('outer', 'reduceat'))
+            and kwargs.get('out') is None
+            and isinstance(result, FitsArray)
+        ):
+            result._drop_companions()
+        return result
 
     def __getattr__(self, name):
         if self.dtype.names and name in self.dtype.names:
@@ -191,6 +345,107 @@ class FitsArray(Quantity):
 
     copy.__doc__ = np.ndarray.copy.__doc__
 
+    diagonal = _moving_method('diagonal')
+    repeat = _moving_method('repeat')
+    squeeze = _moving_method('squeeze')
+    swapaxes = _moving_method('swapaxes')
+    transpose = _moving_method('transpose')
+
+    @property
+    def T(self):
+        return self.transpose()
+
+    @property
+    def mT(self):
+        return self.swapaxes(-1, -2)
+
+    def compress(self, condition, axis=None, out=None):
+        result = super().compress(condition, axis, out)
+        if out is not None:
+            return result
+        return self._set_companions(
+            result, lambda companion: companion.compress(condition, axis)
+        )
+
+    compress.__doc__ = np.ndarray.compress.__doc__
+
+    def flatten(self, order='C'):
+        result = super().flatten(order)
+        return self._set_companions(
+            result, lambda companion: self._ravel_like(companion, order).copy()
+        )
+
+    flatten.__doc__ = np.ndarray.flatten.__doc__
+
+    def partition(self, kth, axis=-1, kind='introselect', order=None):
+        super().partition(kth, axis, kind, order)
+        self._drop_companions()
+
+    partition.__doc__ = np.ndarray.partition.__doc__
+
+    def ravel(self, order='C'):
+        result = super().ravel(order)
+        return self._set_companions(
+            result, lambda companion: self._ravel_like(companion, order)
+        )
+
+    ravel.__doc__ = np.ndarray.ravel.__doc__
+
+    def reshape(self, *newdims, order='C', **keywords):
+        result = super().reshape(*newdims, order=order, **keywords)
+        if order.upper() == 'A':
+            order = 'F' if self.flags.fnc else 'C'
+        return self._set_companions(
+            result, lambda companion: companion.reshape(result.shape, order=order)
+        )
+
+    reshape.__doc__ = np.ndarray.reshape.__doc__
+
+    def resize(self, *args, **keywords):
+        super().resize(*args, **keywords)
+        self._drop_companions()
+
+    resize.__doc__ = np.ndarray.resize.__doc__
+
+    def sort(self, axis=-1, kind=None, order=None):
+        super().sort(axis, kind, order)
+        self._drop_companions()
+
+    sort.__doc__ = np.ndarray.sort.__doc__
+
+    def take(self, indices, axis=None, out=None, mode='raise'):
+        result = super().take(indices, axis, out, mode)
+        if out is not None:
+            return result
+        return self._set_companions(
+            result, lambda companion: companion.take(indices, axis, mode=mode)
+        )
+
+    take.__doc__ = np.ndarray.take.__doc__
+
+    def view(self, *args, **keywords):
+        result = super().view(*args, **keywords)
+        if isinstance(result, FitsArray) and result.shape != self.shape:
+            result._drop_companions()
+        return result
+
+    view.__doc__ = np.ndarray.view.__doc__
+
+    def _ravel_like(self, companion, order):
+        """Flatten a companion in the order in which the data are flattened."""
+        order = order.upper()
+        if self.flags.c_contiguous:
+            order = 'C' if order in ('A', 'K') else order
+        elif self.flags.f_contiguous:
+            order = 'F' if order in ('A', 'K') else order
+        elif order == 'K':
+            index = np.empty_like(self.view(np.ndarray), dtype=int)
+            index[...] = np.arange(index.size).reshape(index.shape)
+            return companion.ravel()[index.ravel('K')]
+        elif order == 'A':
+            order = 'C'
+        return companion.ravel(order)
+
     def astype(self, dtype):
         """
         f.astype(t)
@@ -651,6 +906,7 @@ class Map(FitsArray):
     coverage = None
     error = None
     origin = None
+    _companions = 'coverage', 'error'
 
     def __new__(
         cls,
@@ -728,27 +984,25 @@ class Map(FitsArray):
 
     def __array_finalize__(self, array):
         super().__array_finalize__(array)
-        self.coverage = getattr(array, 'coverage', None)
-        self.error = getattr(array, 'error', None)
         self.origin = getattr(array, 'origin', 'lower')
 
-    def __array_function__(self, func, types, args, kwargs):
-        if func is np.reshape:
-            return args[0].reshape(*args[1:], **kwargs)
-        if func is np.ravel:
-            return args[0].ravel(*args[1:], **kwargs)
-        return super().__array_function__(func, types, args, kwargs)
-
     def __getitem__(self, key):
         item = super().__getitem__(key)
         if not isinstance(item, Map):
             return item
-        if item.coverage is not None:
-            item.coverage = item.coverage[key]
-        if item.error is not None:
-            item.error = item.error[key]
+        if np.ndim(self.coverage) > 0:
+            item.coverage = self.coverage[key]
+        if np.ndim(self.error) > 0:
+            item.error = self.error[key]
         return item
 
+    def _convert_function_outputs(self, arrays, output_units, conversion):
+        outputs = super()._convert_function_outputs(arrays, output_units, conversion)
+        for output in outputs if isinstance(outputs, (list, tuple)) else [outputs]:
+            if isinstance(output, Map):
+                output._drop_companions()
+        return outputs
+
     def copy(self, order='C'):
         result = super().copy(order)
         result.coverage = shallowcopy(self.coverage)
@@ -981,28 +1235,6 @@ class Map(FitsArray):
         if self.error is not None:
             write_fits(filename, self.error, None, True, 'Error', comm)
 
-    def ravel(self, order='C'):
-        result = super().ravel(order)
-        coverage = None if self.coverage is None else self.coverage.ravel(order)
-        error = None if self.error is None else self.error.ravel(order)
-        result.coverage = coverage
-        result.error = error
-        return result
-
-    def reshape(self, *newdims, order='C'):
-        result = super().reshape(*newdims, order=order)
-        coverage = (
-            None
-            if self.coverage is None
-            else self.coverage.reshape(*newdims, order=order)
-        )
-        error = (
-            None if self.error is None else self.error.reshape(*newdims, order=order)
-        )
-        result.coverage = coverage
-        result.error = error
-        return result
-
 
 class Tod(FitsArray):
     """
@@ -1063,6 +1295,7 @@ class Tod(FitsArray):
     """
 
     _mask = None
+    _companions = ('_mask',)
 
     def __new__(
         cls,
@@ -1118,7 +1351,7 @@ class Tod(FitsArray):
         if mask is not None:
             if not isinstance(mask, np.ndarray) or mask.dtype != bool:
                 copy = True
-            result._mask = np.array(mask, np.bool_, copy=copy)
+            result._mask = np.array(mask, np.bool_, copy=copy, ndmin=ndmin)
 
         return result
 
@@ -1164,15 +1397,8 @@ class Tod(FitsArray):
 
     def __array_finalize__(self, array):
         super().__array_finalize__(array)
-        self._mask = getattr(array, 'mask', None)
-
-    def __array_function__(self, func, types, args, kwargs):
-        """Handle NumPy functions on Tod objects, respecting the mask."""
-        if func is np.reshape:
-            return args[0].reshape(*args[1:], **kwargs)
-        if func is np.ravel:
-            return args[0].ravel(*args[1:], **kwargs)
-        return super().__array_function__(func, types, args, kwargs)
+        if self._mask is None and isinstance(array, np.ma.MaskedArray):
+            self.mask = array.mask
 
     @classmethod
     def _view_function_input(cls, array):
@@ -1223,10 +1449,28 @@ class Tod(FitsArray):
         item = super().__getitem__(key)
         if not isinstance(item, Tod):
             return item
-        if item.mask is not None:
-            item.mask = item.mask[key]
+        if np.ndim(self.mask) > 0:
+            item.mask = self.mask[key]
         return item
 
+    def astype(self, dtype):
+        result = super().astype(dtype)
+        result._mask = shallowcopy(self._mask)
+        return result
+
+    astype.__doc__ = FitsArray.astype.__doc__
+
+    @staticmethod
+    def _get_companions(arrays, name):
+        # the arrays without mask are not masked
+        masks = [getattr(array, 'mask', None) for array in arrays]
+        if all(mask is None or mask is np.ma.nomask for mask in masks):
+            return None
+        return [
+            np.array(np.broadcast_to(bool(mask) if np.ndim(mask) == 0 else mask, np.shape(array)))
+            for array, mask in zip(arrays, masks)
+        ]
+
     def copy(self, order='C'):
         result = super().copy(order)
         result._mask = shallowcopy(self._mask)
@@ -1355,18 +1599,6 @@ class Tod(FitsArray):
             mask = self.mask.view('uint8')
             write_fits(filename, mask, None, True, 'Mask', comm)
 
-    def ravel(self, order='C'):
-        result = super().ravel(order)
-        mask = None if self.mask is None else self.mask.ravel(order)
-        result.mask = mask
-        return result
-
-    def reshape(self, *newdims, order='C'):
-        result = super().reshape(*newdims, order=order)
-        mask = None if self.mask is None else self.mask.reshape(*newdims, order=order)
-        result.mask = mask
-        return result
-
     def median(self, axis=None):
         #        result = Tod(median(self, mask=self.mask, axis=axis),
         result = Tod(
-- 
2.43.0


From acc802c4903f407fa7f986632fb2fe6998a2e0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:37 +0000
Subject: [PATCH 086/160] fix: ignore the masked samples in the methods,
 medians and percentiles of time-ordered data

---
 src/pysimulators/datatypes.py | 102 +++++++++++++++++++++++++++++++++-
 1 file changed, 99 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index 6af371a..650b310 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -19,6 +19,7 @@ import pickle
 import sys
 import time
 import uuid
+import warnings
 from copy import copy as shallowcopy
 from copy import deepcopy
 from functools import reduce
@@ -33,7 +34,7 @@ from pyoperators.memory import empty
 from pyoperators.utils import isscalarlike
 
 from .mpiutils import read_fits, write_fits
-from .quantities import Quantity
+from .quantities import DEFAULT_CONVERSION, FUNCTIONS, Quantity, UnitError
 from .wcsutils import create_fitsheader_for, has_wcs
 
 __all__ = ['FitsArray', 'Map', 'Tod']
@@ -92,6 +93,23 @@ _ELEMENTWISE_FUNCTIONS = {
 }
 
 
+# functions that are given the masked samples as NaN, and their variant ignoring NaN
+_NAN_FUNCTIONS = {
+    np.median: np.nanmedian,
+    np.nanmax: np.nanmax,
+    np.nanmean: np.nanmean,
+    np.nanmedian: np.nanmedian,
+    np.nanmin: np.nanmin,
+    np.nanpercentile: np.nanpercentile,
+    np.nanquantile: np.nanquantile,
+    np.nanstd: np.nanstd,
+    np.nansum: np.nansum,
+    np.nanvar: np.nanvar,
+    np.percentile: np.nanpercentile,
+    np.quantile: np.nanquantile,
+}
+
+
 def _moving_method(name):
     """Return the array method that is also applied to the companion arrays."""
 
@@ -837,6 +855,26 @@ class FitsArray(Quantity):
         return d
 
 
+def _masked_method(name):
+    """Return the array method that ignores the masked samples."""
+
+    def method(self, *args, **keywords):
+        if self.mask is None:
+            return getattr(super(Tod, self), name)(*args, **keywords)
+        func = getattr(np, name)
+        if func in FUNCTIONS:
+            return func(self, *args, **keywords)
+        masked = self._view_function_input(self)
+        result = getattr(masked, name)(*args, **keywords)
+        if name == 'prod' and self._unit:
+            raise UnitError('The number of multiplied elements is not defined.')
+        return self._convert_function_outputs(result, {}, DEFAULT_CONVERSION)
+
+    method.__name__ = name
+    method.__doc__ = getattr(np.ndarray, name).__doc__
+    return method
+
+
 class Map(FitsArray):
     """
     Map(filename|object, header=None, unit=None, derived_units=None,
@@ -1400,6 +1438,66 @@ class Tod(FitsArray):
         if self._mask is None and isinstance(array, np.ma.MaskedArray):
             self.mask = array.mask
 
+    all = _masked_method('all')
+    any = _masked_method('any')
+    cumprod = _masked_method('cumprod')
+    cumsum = _masked_method('cumsum')
+    max = _masked_method('max')
+    mean = _masked_method('mean')
+    min = _masked_method('min')
+    prod = _masked_method('prod')
+    std = _masked_method('std')
+    sum = _masked_method('sum')
+    var = _masked_method('var')
+
+    def __array_function__(self, func, types, args, kwargs):
+        if not isinstance(args[0], Tod) or args[0].mask is None:
+            return super().__array_function__(func, types, args, kwargs)
+
+        array, mask = args[0], args[0].mask
+        if func is np.count_nonzero:
+            args = np.not_equal(array.view(np.ndarray), 0) & ~mask, *args[1:]
+            return func(*args, **kwargs)
+
+        if func is np.partition:
+            # numpy moves the values but not the mask
+            array = array.copy()
+            array.partition(*args[1:], **kwargs)
+            return array
+
+        if func not in _NAN_FUNCTIONS:
+            return super().__array_function__(func, types, args, kwargs)
+
+        # position of the axis argument
+        nq = int('quantile' in func.__name__ or 'percentile' in func.__name__)
+        axis = args[1 + nq] if len(args) > 1 + nq else kwargs.get('axis')
+        keywords = {'axis': axis, 'keepdims': kwargs.get('keepdims') in (True, 1)}
+        if isinstance(axis, list):
+            keywords['axis'] = tuple(axis)
+
+        bare = array.astype(np.result_type(array.dtype, np.float16))
+        bare._mask = None
+        invalid = np.isnan(bare.view(np.ndarray)) & ~mask
+        bare.view(np.ndarray)[mask] = np.nan
+        with warnings.catch_warnings():
+            warnings.simplefilter('ignore', RuntimeWarning)
+            result = super().__array_function__(
+                _NAN_FUNCTIONS[func], types, (bare, *args[1:]), kwargs
+            )
+        if not isinstance(result, Tod):
+            return result
+        if _NAN_FUNCTIONS[func] is not func:
+            # the NaN are not ignored by the original function
+            invalid = np.broadcast_to(np.any(invalid, **keywords), result.shape)
+            result.view(np.ndarray)[invalid] = np.nan
+        mask = np.broadcast_to(np.all(mask, **keywords), result.shape)
+        if result.ndim > 0:
+            result._mask = mask.copy()
+        elif mask:
+            result.view(np.ndarray)[...] = np.nan
+            result._mask = mask.copy()
+        return result
+
     @classmethod
     def _view_function_input(cls, array):
         if isinstance(array, Tod) and array.mask is not None:
@@ -1606,10 +1704,8 @@ class Tod(FitsArray):
             header=self.header.copy(),
             unit=self.unit,
             derived_units=self.derived_units,
-            dtype=self.dtype,
             copy=None,
         )
-        result.mask = None
         #        # median might introduce NaN from the mask, let's remove them
         #        tmf.processing.filter_nonfinite_mask_inplace(result.ravel(),
         #            result.mask.view(np.int8).ravel())
-- 
2.43.0


From 9b49780de681c5aa372b16808f217b8c01bf8e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:11 +0000
Subject: [PATCH 087/160] fix: make the local headers returned by read_fits
 describe their part for any projection and number of dimensions

---
 src/pysimulators/mpiutils.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index 5d18755..f91b907 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -197,12 +197,7 @@ def read_fits(filename, extname, comm):
         output = output.byteswap().view(output.dtype.newbyteorder('='))
 
     # update the header
-    header['NAXIS' + str(header['NAXIS'])] = s.stop - s.start
-    try:
-        if header['CTYPE1'] == 'RA---TAN' and header['CTYPE2'] == 'DEC--TAN':
-            header['CRPIX2'] -= s.start
-    except KeyError:
-        pass
+    header = scatter_fitsheader(header, comm)
     comm.Barrier()
 
     return output, header
-- 
2.43.0


From 674113e355ee22793f2cfb099b6c0fea8a4ce15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:41 +0000
Subject: [PATCH 088/160] fix: raise on all the processes if the shape of a
 local array to be written is invalid

---
 src/pysimulators/mpiutils.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index f91b907..a444720 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -278,13 +278,16 @@ def write_fits(filename, data, header, extension, extname, comm):
     nglobal = sum(s[0] for s in shapes)
     s = split(nglobal, comm.size, comm.rank)
     nlocal = s.stop - s.start
-    if data.shape[0] != nlocal:
-        msg = '' if comm.rank > 0 else f' Shapes are: {shapes}.'
-        raise ValueError(
-            f"On rank {comm.rank}, the local array shape '{data.shape}' is invalid. "
-            f"The first dimension does not match the expected local number '{nlocal}' "
-            f"given the global number '{nglobal}'.{msg}"
-        )
+    # all the processes raise the error, otherwise some of them would block for ever
+    for rank, shape in enumerate(shapes):
+        s_ = split(nglobal, comm.size, rank)
+        if shape[0] != s_.stop - s_.start:
+            raise ValueError(
+                f"On rank {rank}, the local array shape '{shape}' is invalid. The first "
+                f"dimension does not match the expected local number "
+                f"'{s_.stop - s_.start}' given the global number '{nglobal}'. Shapes "
+                f"are: {shapes}."
+            )
 
     # write FITS header
     if comm.rank == 0:
-- 
2.43.0


From e082a02263b075ab997eafb2d950676427d369ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:41 +0000
Subject: [PATCH 089/160] fix: write in parallel the same data and header as a
 single process

---
 src/pysimulators/mpiutils.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index a444720..4b0c5ab 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -2,8 +2,8 @@
 # All rights reserved
 #
 
+import io
 import os
-import sys
 from pathlib import Path
 
 import numpy as np
@@ -289,8 +289,24 @@ def write_fits(filename, data, header, extension, extname, comm):
                 f"are: {shapes}."
             )
 
+    # get the local data as stored in a FITS file
+    hdu = pyfits.PrimaryHDU(data)
+    buffer = io.BytesIO()
+    hdu.writeto(buffer)
+    itemsize = abs(hdu.header['BITPIX']) // 8
+    data = np.frombuffer(
+        buffer.getvalue(),
+        f'u{itemsize}',
+        count=product(data.shape),
+        offset=len(hdu.header.tostring()),
+    )
+
     # write FITS header
     if comm.rank == 0:
+        if extension and os.path.exists(filename):
+            header = pyfits.ImageHDU(hdu.data, header).header
+        else:
+            header = pyfits.PrimaryHDU(hdu.data, header).header
         header['NAXIS' + str(ndim)] = nglobal
         shdu = pyfits.StreamingHDU(filename, header)
         data_loc = shdu._datLoc
@@ -301,7 +317,7 @@ def write_fits(filename, data, header, extension, extname, comm):
 
     # get a communicator excluding the processes which have no work to do
     # (Create_subarray does not allow 0-sized subarrays)
-    chunk = product(data.shape[1:])
+    chunk = product(shapes[0][1:])
     rank_nowork = min(comm.size, nglobal)
     group = comm.Get_group()
     group.Incl(list(range(rank_nowork)))
@@ -309,14 +325,6 @@ def write_fits(filename, data, header, extension, extname, comm):
 
     # collectively write data
     if comm.rank < rank_nowork:
-        # mpi4py 1.2.2: pb with viewing data as big endian KeyError '>d'
-        if (
-            sys.byteorder == 'little'
-            and data.dtype.byteorder == '='
-            or data.dtype.byteorder == '<'
-        ):
-            data = data.byteswap()
-        data = data.newbyteorder('=')
         mtype = DTYPE_MAP[data.dtype]
         ftype = mtype.Create_subarray(
             [nglobal * chunk], [nlocal * chunk], [s.start * chunk]
@@ -333,7 +341,7 @@ def write_fits(filename, data, header, extension, extname, comm):
 
     # pad FITS file with zeros
     if comm.rank == 0:
-        datasize = nglobal * chunk * int(data.dtype.itemsize)
+        datasize = nglobal * chunk * itemsize
         BLOCK_SIZE = 2880
         padding = BLOCK_SIZE - (datasize % BLOCK_SIZE)
         with open(filename, 'a') as f:
-- 
2.43.0


From 012f5b72cd923024b1391c387b395f1acdf3b433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:41 +0000
Subject: [PATCH 090/160] fix: exclude from the collective writing the
 processes that have no data

---
 src/pysimulators/mpiutils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index 4b0c5ab..4d0f8be 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -318,9 +318,8 @@ def write_fits(filename, data, header, extension, extname, comm):
     # get a communicator excluding the processes which have no work to do
     # (Create_subarray does not allow 0-sized subarrays)
     chunk = product(shapes[0][1:])
-    rank_nowork = min(comm.size, nglobal)
-    group = comm.Get_group()
-    group.Incl(list(range(rank_nowork)))
+    rank_nowork = min(comm.size, nglobal) if chunk > 0 else 0
+    group = comm.Get_group().Incl(list(range(rank_nowork)))
     newcomm = comm.Create(group)
 
     # collectively write data
@@ -337,7 +336,7 @@ def write_fits(filename, data, header, extension, extname, comm):
         f.Write_all(data)
         f.Close()
         ftype.Free()
-    newcomm.Free()
+        newcomm.Free()
 
     # pad FITS file with zeros
     if comm.rank == 0:
-- 
2.43.0


From 9e4c8d1a29678996b0acf045aef5259c3c89f2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:41 +0000
Subject: [PATCH 091/160] fix: do not add an empty block to a FITS file already
 made of full blocks

---
 src/pysimulators/mpiutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index 4d0f8be..7440ca1 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -342,7 +342,7 @@ def write_fits(filename, data, header, extension, extname, comm):
     if comm.rank == 0:
         datasize = nglobal * chunk * itemsize
         BLOCK_SIZE = 2880
-        padding = BLOCK_SIZE - (datasize % BLOCK_SIZE)
+        padding = -datasize % BLOCK_SIZE
         with open(filename, 'a') as f:
             if f.tell() - data_loc != datasize:
                 raise RuntimeError('Unexpected file size.')
-- 
2.43.0


From 451cf7fc6740f7e3a9a55f4329d0549ba511c195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:39 +0000
Subject: [PATCH 092/160] fix: do not rely on a private attribute removed from
 astropy to write in parallel

---
 src/pysimulators/mpiutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index 7440ca1..62c9627 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -309,8 +309,8 @@ def write_fits(filename, data, header, extension, extname, comm):
             header = pyfits.PrimaryHDU(hdu.data, header).header
         header['NAXIS' + str(ndim)] = nglobal
         shdu = pyfits.StreamingHDU(filename, header)
-        data_loc = shdu._datLoc
         shdu.close()
+        data_loc = os.path.getsize(filename)
     else:
         data_loc = None
     data_loc = comm.bcast(data_loc)
-- 
2.43.0


From 0216a310db1bf357f61371ab95ab6f3f05c31397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:39 +0000
Subject: [PATCH 093/160] fix: raise the error that reports incompatible shapes

---
 src/pysimulators/mpiutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index 62c9627..89aa3c6 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -9,7 +9,7 @@ from pathlib import Path
 import numpy as np
 from astropy.io import fits as pyfits
 
-from pyoperators.utils import omp_num_threads, product, split, strshape
+from pyoperators.utils import omp_num_threads, product, split
 from pyoperators.utils.mpi import DTYPE_MAP, MPI, combine
 
 from .wcsutils import create_fitsheader_for, has_wcs
@@ -243,7 +243,7 @@ def write_fits(filename, data, header, extension, extname, comm):
     ndim = ndims[0]
     shapes = comm.allgather(data.shape)
     if any(s[1:] != shapes[0][1:] for s in shapes):
-        raise ValueError(f"The arrays have incompatible shapes: '{strshape(shapes)}'.")
+        raise ValueError(f'The arrays have incompatible shapes: {shapes}.')
 
     # FITS images cannot store booleans
     if data.dtype == bool:
-- 
2.43.0


From a9d5250cc344e4eb6abfd2e0a23267b2fa27edbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:39 +0000
Subject: [PATCH 094/160] fix: check that the projection of the headers to be
 gathered is the same

---
 src/pysimulators/mpiutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index 89aa3c6..9ea535b 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -54,7 +54,7 @@ def gather_fitsheader_if_needed(header, comm=MPI.COMM_WORLD):
             'The input FITS header does not define a world coordi' 'nate system.'
         )
     naxis = header['NAXIS']
-    required_same = ['CRVAL1', 'CRVAL2', 'CRTYPE1', 'CRTYPE2', 'CDELT1', 'CDELT2']
+    required_same = ['CRVAL1', 'CRVAL2', 'CTYPE1', 'CTYPE2', 'CDELT1', 'CDELT2']
     required_same += ['NAXIS' + str(i + 1) for i in range(naxis - 1)]
     required_same += ['CRPIX' + str(i + 1) for i in range(naxis - 1)]
     headers = comm.allgather(header)
-- 
2.43.0


From 9ed8216d444c6e986448447498a73c009dbb810b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:53 +0000
Subject: [PATCH 095/160] fix: append extensions written in parallel to the
 file of any directory

---
 src/pysimulators/mpiutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index 9ea535b..bba27ad 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -308,7 +308,7 @@ def write_fits(filename, data, header, extension, extname, comm):
         else:
             header = pyfits.PrimaryHDU(hdu.data, header).header
         header['NAXIS' + str(ndim)] = nglobal
-        shdu = pyfits.StreamingHDU(filename, header)
+        shdu = pyfits.StreamingHDU(str(filename), header)
         shdu.close()
         data_loc = os.path.getsize(filename)
     else:
-- 
2.43.0


From 424d782ebb96b6942a24c37136e47bef15df3a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:48 +0000
Subject: [PATCH 096/160] fix: distribute observations when there is no
 observation or no detector

---
 src/pysimulators/mpiutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index bba27ad..d83dee5 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -107,11 +107,11 @@ def distribute_observation(detectors, observations, rank=None, comm=MPI.COMM_WOR
     nx = nobservations
 
     # number of detectors, grouped by the number of cpu cores
-    ny = int(np.ceil(ndetectors / nthreads))
+    ny = max(int(np.ceil(ndetectors / nthreads)), 1)
 
     # we start with the minimum blocksize and increase it until we find a
     # configuration that covers all the observations
-    blocksize = int(np.ceil(nx * ny / size))
+    blocksize = max(int(np.ceil(nx * ny / size)), 1)
     while True:
         # by looping over x first, we favor larger numbers of detectors and
         # fewer numbers of observations per processor, to minimise inter-
-- 
2.43.0


From 7021789a498315c0b001f298134e81a21b2a03f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:16 +0000
Subject: [PATCH 097/160] fix: stack the blocks of the acquisition operator
 along the samplings

---
 src/pysimulators/acquisitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index 40bc987..48f4201 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -237,7 +237,7 @@ class Acquisition:
                             self.instrument.get_operator(self.sampling[b], self.scene)
                             for b in self.block
                         ],
-                        axisin=1,
+                        axisout=1,
                     ),
                     self.scene.get_distribution_operator(self.comm),
                 ]
-- 
2.43.0


From 1e22a9849f1cc09a0b704f1811e93d811ecc7cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:16 +0000
Subject: [PATCH 098/160] fix: do not use the operator of the whole acquisition
 for a restricted one

---
 src/pysimulators/acquisitions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index 48f4201..900916f 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -149,6 +149,7 @@ class Acquisition:
             return isinstance(x, slice) and x == slice(None)
 
         out = copy(self)
+        out._operator = None
         if not isinstance(x, tuple):
             x = (x,)
         elif len(x) == 2 and x[0] is Ellipsis:
-- 
2.43.0


From b253f06a4732610c8af4f4db4e9d63b35e8cf7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:16 +0000
Subject: [PATCH 099/160] fix: restrict the blocks of an acquisition as its
 samplings

---
 src/pysimulators/acquisitions.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index 900916f..1109e1d 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -18,7 +18,7 @@ from pyoperators.memory import empty
 from pyoperators.utils import isscalarlike, operation_assignment, split, strenum
 
 from .instruments import Instrument
-from .packedtables import Layout, Sampling, Scene
+from .packedtables import Layout, PackedTable, Sampling, Scene
 
 __all__ = ['Acquisition', 'MaskPolicy']
 
@@ -170,8 +170,9 @@ class Acquisition:
         out.instrument = self.instrument[x[0]]
         if not is_colon(x[0]):
             object.__setattr__(out.instrument.detector, 'comm', MPI.COMM_SELF)
-        out.sampling = self.sampling[x[1]]  # XXX FIX BLOCKS!!!
+        out.sampling = self.sampling[x[1]]
         if not is_colon(x[1]):
+            out.block = self._get_restricted_block(x[1])
             object.__setattr__(out.sampling, 'comm', MPI.COMM_SELF)
         out.scene = self.scene[x[2]]
 
@@ -184,6 +185,22 @@ class Acquisition:
 
         return out
 
+    def _get_restricted_block(self, selection):
+        """
+        Partition of the selected samplings: selected samplings that belong to different
+        blocks are kept apart.
+
+        """
+        iblock = np.zeros(len(self.sampling), int)
+        for i, b in enumerate(self.block):
+            iblock[b] = i
+        iblock = iblock[PackedTable(len(self.sampling))[selection].index]
+        edges = np.flatnonzero(np.diff(iblock)) + 1
+        return tuple(
+            slice(int(start), int(stop))
+            for start, stop in zip([0, *edges], [*edges, len(iblock)])
+        )
+
     def __str__(self):
         return f'{self.instrument}\nSamplings: {len(self.sampling)}'
 
-- 
2.43.0


From a81a74e7a739970701821ecfb0560df9320753e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:16 +0000
Subject: [PATCH 100/160] fix: honour the arguments of Acquisition.pack and
 unpack

---
 src/pysimulators/acquisitions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index 1109e1d..837d744 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -207,12 +207,14 @@ class Acquisition:
     __repr__ = __str__
 
     def pack(self, x, out=None, copy=False):
-        return self.instrument.detector.pack(x)
+        return self.instrument.detector.pack(x, out=out, copy=copy)
 
     pack.__doc__ = Layout.pack.__doc__
 
     def unpack(self, x, out=None, missing_value=None, copy=False):
-        return self.instrument.detector.unpack(x)
+        return self.instrument.detector.unpack(
+            x, out=out, missing_value=missing_value, copy=copy
+        )
 
     unpack.__doc__ = Layout.unpack.__doc__
 
-- 
2.43.0


From 24139e308b50dbf2f2ef213739ea3331dc1f8107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:16 +0000
Subject: [PATCH 101/160] fix: apply the operation of get_observation to the
 noise too

---
 src/pysimulators/acquisitions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index 837d744..3749e47 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -238,6 +238,9 @@ class Acquisition:
             operation(out, get_observation(x))
 
         """
+        if not noiseless and operation not in (operation_assignment, operator.iadd):
+            operation(out, self.get_observation(x))
+            return out
         H = self.get_operator()
         out = H(x, out, operation=operation)
         if not noiseless:
-- 
2.43.0


From c3ac0bfe14288989670305fa36012aca9538b517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:45 +0000
Subject: [PATCH 102/160] fix: do not create empty blocks when the memory of
 the acquisition operator is bounded

---
 src/pysimulators/acquisitions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index 3749e47..7363094 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -118,6 +118,7 @@ class Acquisition:
                 nbytes = self.get_operator_nbytes()
                 if nbytes > max_nbytes:
                     nblocks = int(np.ceil(nbytes / max_nbytes))
+                    nblocks = min(nblocks, len(self.sampling))
                     self.block = tuple(split(len(self.sampling), nblocks))
         elif not isinstance(block, (list, tuple)) or any(
             not isinstance(b, slice) for b in block
-- 
2.43.0


From c2435dbb281e3a8f995aa37f9702b737d6b5fbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:12 +0000
Subject: [PATCH 103/160] fix: accept any operation in get_observation

---
 src/pysimulators/acquisitions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index 7363094..e9e6172 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -239,8 +239,8 @@ class Acquisition:
             operation(out, get_observation(x))
 
         """
-        if not noiseless and operation not in (operation_assignment, operator.iadd):
-            operation(out, self.get_observation(x))
+        if operation not in (operation_assignment, operator.iadd):
+            operation(out, self.get_observation(x, noiseless))
             return out
         H = self.get_operator()
         out = H(x, out, operation=operation)
-- 
2.43.0


From fee19bef61e047cbf32799d1550e53fb9b49c641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:03 +0000
Subject: [PATCH 104/160] fix: accumulate observations of an acquisition split
 in blocks

---
 src/pysimulators/acquisitions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index e9e6172..fd1e69d 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -239,11 +239,12 @@ class Acquisition:
             operation(out, get_observation(x))
 
         """
-        if operation not in (operation_assignment, operator.iadd):
+        # not all the acquisition operators handle in-place reductions
+        if operation is not operation_assignment:
             operation(out, self.get_observation(x, noiseless))
             return out
         H = self.get_operator()
-        out = H(x, out, operation=operation)
+        out = H(x, out)
         if not noiseless:
             self.get_noise(out, operation=operator.iadd)
         return out
-- 
2.43.0


From 498c6128b3ac19df71d8693f562c385947dadea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:59 +0000
Subject: [PATCH 105/160] fix: use the right element of two-sided power spectra
 as the last one of the folded spectra

---
 src/pysimulators/noises.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/noises.py b/src/pysimulators/noises.py
index e5392ea..82a8f1b 100644
--- a/src/pysimulators/noises.py
+++ b/src/pysimulators/noises.py
@@ -19,8 +19,10 @@ def _fold_psd(p):
     n = p.shape[-1] // 2 + 1
     out = empty(p.shape[:-1] + (n,))
     out[..., 0] = p[..., 0]
-    np.multiply(p[..., 1 : n - 1], 2, out[..., 1:-1])
-    out[..., -1] = p[..., n]
+    np.multiply(p[..., 1:n], 2, out[..., 1:])
+    if p.shape[-1] % 2 == 0:
+        # the Nyquist frequency
+        out[..., -1] = p[..., n - 1]
     return out
 
 
-- 
2.43.0


From c88ee633ee0fd6a7e5340106ee134c8dfd9b2257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:00 +0000
Subject: [PATCH 106/160] fix: generate noise of an odd number of samples from
 a one-sided power spectrum

---
 src/pysimulators/instruments.py |  3 +++
 src/pysimulators/noises.py      | 22 +++++++++++++++-------
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/pysimulators/instruments.py b/src/pysimulators/instruments.py
index 347d769..778ffa2 100644
--- a/src/pysimulators/instruments.py
+++ b/src/pysimulators/instruments.py
@@ -326,6 +326,9 @@ class Instrument:
             # log-log interpolation of one-sided PSD
             f = np.arange(n // 2 + 1, dtype=float) * (sampling_frequency / n)
             p = _logloginterp_psd(f, bandwidth, psd)
+            if n % 2 == 1:
+                # there is no Nyquist frequency
+                p[..., -1] *= 2
 
         # looping over the detectors
         for out_ in out:
diff --git a/src/pysimulators/noises.py b/src/pysimulators/noises.py
index 82a8f1b..2e69cb8 100644
--- a/src/pysimulators/noises.py
+++ b/src/pysimulators/noises.py
@@ -26,15 +26,23 @@ def _fold_psd(p):
     return out
 
 
-def _unfold_psd(p):
-    """Convert one-sided PSD into even two-sided PSD."""
+def _unfold_psd(p, nsamples=None):
+    """
+    Convert one-sided PSD into even two-sided PSD, of even length unless specified
+    otherwise.
+
+    """
     p = np.asarray(p)
     n = p.shape[-1]
-    out = empty(p.shape[:-1] + (2 * (n - 1),))
+    if nsamples is None:
+        nsamples = 2 * (n - 1)
+    out = empty(p.shape[:-1] + (nsamples,))
     out[..., 0] = p[..., 0]
-    np.multiply(p[..., 1 : n - 1], 0.5, out[..., 1 : n - 1])
-    out[..., n - 1] = p[..., n - 1]
-    out[..., n:] = out[..., n - 2 : 0 : -1]
+    np.multiply(p[..., 1:], 0.5, out[..., 1:n])
+    if nsamples % 2 == 0:
+        # the Nyquist frequency
+        out[..., n - 1] = p[..., n - 1]
+    out[..., n:] = out[..., nsamples - n : 0 : -1]
     return out
 
 
@@ -114,7 +122,7 @@ def _gaussian_sample(
         out = empty(psd.shape[:-1] + (nsamples,))
 
     if not twosided:
-        psd = _unfold_psd(psd)
+        psd = _unfold_psd(psd, nsamples)
 
     shape = psd.shape[:-1] + (nsamples,)
     gauss = np.random.randn(*shape)
-- 
2.43.0


From 143bfb4ac223b02b60532c5cc9b18166091a8210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:00 +0000
Subject: [PATCH 107/160] fix: generate correlated noise for detectors that
 have different spectra

---
 src/pysimulators/instruments.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/instruments.py b/src/pysimulators/instruments.py
index 778ffa2..d18e2b1 100644
--- a/src/pysimulators/instruments.py
+++ b/src/pysimulators/instruments.py
@@ -331,9 +331,10 @@ class Instrument:
                 p[..., -1] *= 2
 
         # looping over the detectors
-        for out_ in out:
+        p = np.broadcast_to(p, (len(self), p.shape[-1]))
+        for out_, p_ in zip(out, p):
             operation(
-                out_, _gaussian_sample(n, sampling_frequency, p, twosided=twosided)
+                out_, _gaussian_sample(n, sampling_frequency, p_, twosided=twosided)
             )
 
         return out
-- 
2.43.0


From dc54224e6c1c96ae0917616ffa078934d36fda28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:00 +0000
Subject: [PATCH 108/160] fix: accept the default correlation length of the
 inverse noise covariance

---
 src/pysimulators/instruments.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/instruments.py b/src/pysimulators/instruments.py
index d18e2b1..4d2b0c8 100644
--- a/src/pysimulators/instruments.py
+++ b/src/pysimulators/instruments.py
@@ -214,6 +214,8 @@ class Instrument:
         sampling_frequency = 1 / sampling.period
 
         nsamples_max = len(sampling)
+        if ncorr is None:
+            ncorr = nsamples_max - 1
         fftsize = 2
         while fftsize < nsamples_max:
             fftsize *= 2
-- 
2.43.0


From c7a19683b4d619467cb944e101a2fa48b33393fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:00 +0000
Subject: [PATCH 109/160] fix: estimate the power spectrum of an odd number of
 samples

---
 src/pysimulators/noises.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/pysimulators/noises.py b/src/pysimulators/noises.py
index 2e69cb8..a678275 100644
--- a/src/pysimulators/noises.py
+++ b/src/pysimulators/noises.py
@@ -148,11 +148,9 @@ def _sampling2psd(sampling, sampling_frequency, fftw_flag='FFTW_MEASURE'):
         np.abs(fft.fft(sampling, axis=-1, planner_effort=fftw_flag, threads=nthreads))
         ** 2
     )
-    freq = np.fft.fftfreq(n, d=1 / sampling_frequency)[: n // 2 + 1]
-    freq[-1] += sampling_frequency
-    psd = np.concatenate([[0.0], 2 * psd[1 : n // 2], [psd[n // 2]]]) / (
-        n * sampling_frequency
-    )
+    freq = np.abs(np.fft.fftfreq(n, d=1 / sampling_frequency)[: n // 2 + 1])
+    psd = _fold_psd(psd) / (n * sampling_frequency)
+    psd[0] = 0
     return freq, psd
 
 
-- 
2.43.0


From fb83a71670038ba3db453116de7fb46c36d2ec4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:59 +0000
Subject: [PATCH 110/160] fix: accept different knee frequencies for the
 detectors

---
 src/pysimulators/instruments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/instruments.py b/src/pysimulators/instruments.py
index 4d2b0c8..7e350f4 100644
--- a/src/pysimulators/instruments.py
+++ b/src/pysimulators/instruments.py
@@ -206,7 +206,7 @@ class Instrument:
         shapein = len(self), len(sampling)
 
         # handle the non-correlated case first
-        if bandwidth is None and fknee == 0:
+        if bandwidth is None and np.all(fknee == 0):
             return DiagonalOperator(
                 1 / sigma**2, broadcast='rightward', shapein=shapein
             )
@@ -298,7 +298,7 @@ class Instrument:
         shape = (len(self), len(sampling))
 
         # handle non-correlated case first
-        if bandwidth is None and fknee == 0:
+        if bandwidth is None and np.all(fknee == 0):
             sigma = np.atleast_1d(sigma)
             noise = np.random.standard_normal(shape) * sigma[:, None]
             if out is None:
-- 
2.43.0


From d76a1a6dda28bb528f5b2b17a562f638ad614067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:28 +0000
Subject: [PATCH 111/160] fix: do not exchange the pixel indices and the
 weights of the MadMap1 data

---
 src/pysimulators/interfaces/madmap1.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/interfaces/madmap1.py b/src/pysimulators/interfaces/madmap1.py
index 6734d81..20042cf 100644
--- a/src/pysimulators/interfaces/madmap1.py
+++ b/src/pysimulators/interfaces/madmap1.py
@@ -196,7 +196,9 @@ class MadMap1Observation(Acquisition):
                 p = PointingMatrix.empty(
                     (ndetectors, b.n, npps), self.info.npixels_in_map
                 )
-                p[...] = data['matrix']
+                # structured arrays are assigned by position, not by field name
+                for field in 'index', 'value':
+                    p[field] = data['matrix'][field]
                 pmatrix.append(p)
         return tod, pmatrix
 
-- 
2.43.0


From 5c53a540629d39d59225aa2e86c1026a4a63309e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:28 +0000
Subject: [PATCH 112/160] fix: use the filters of each block in the MadMap1
 inverse noise covariance

---
 src/pysimulators/interfaces/madmap1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/interfaces/madmap1.py b/src/pysimulators/interfaces/madmap1.py
index 20042cf..c10000e 100644
--- a/src/pysimulators/interfaces/madmap1.py
+++ b/src/pysimulators/interfaces/madmap1.py
@@ -125,11 +125,11 @@ class MadMap1Observation(Acquisition):
         ops = [
             SymmetricBandToeplitzOperator(
                 (len(self.instrument), b.n),
-                self._filters,
+                f,
                 fftw_flag=fftw_flag,
                 nthreads=nthreads,
             )
-            for b in self.block
+            for b, f in zip(self.block, self._filters)
         ]
         return BlockDiagonalOperator(ops, axisin=-1)
 
-- 
2.43.0


From 396b373e7fd5f566dc28a0f36d38713500a58025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:02 +0000
Subject: [PATCH 113/160] fix: accept a path for the MadMap1 map mask

---
 src/pysimulators/interfaces/madmap1.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pysimulators/interfaces/madmap1.py b/src/pysimulators/interfaces/madmap1.py
index c10000e..e9db5f1 100644
--- a/src/pysimulators/interfaces/madmap1.py
+++ b/src/pysimulators/interfaces/madmap1.py
@@ -49,6 +49,9 @@ class MadMap1Observation(Acquisition):
                 'The parallelisation of the TOD is not implemented'
             )
 
+        todfilename = str(todfilename)
+        mapmaskfilename = str(mapmaskfilename)
+
         # Get information from files
         filters = _read_filters(invnttfilename, bigendian=bigendian)
         ncorrelations = filters[0]['data'].size
-- 
2.43.0


From 9c247e834234fa952db09ccb9574d7fa2e6ed06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:02 +0000
Subject: [PATCH 114/160] fix: do not interpret the name of the MadMap1 filters
 as a regular expression

---
 src/pysimulators/interfaces/madmap1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/interfaces/madmap1.py b/src/pysimulators/interfaces/madmap1.py
index e9db5f1..07ec3c3 100644
--- a/src/pysimulators/interfaces/madmap1.py
+++ b/src/pysimulators/interfaces/madmap1.py
@@ -216,9 +216,9 @@ def _read_one_filter(filename, bigendian=False):
 def _read_filters(filename, bigendian=False):
     if isinstance(filename, str):
         filename = Path(filename)
-    regex = re.compile(str(filename) + r'\.[0-9]+$')
+    regex = re.compile(re.escape(filename.name) + r'\.[0-9]+$')
     files = sorted(
-        (_ for _ in filename.parent.iterdir() if regex.match(str(_))),
+        (_ for _ in filename.parent.iterdir() if regex.match(_.name)),
         key=lambda f: int(f.suffix[1:]),
     )
     if not files:
-- 
2.43.0


From 586b8eb8a16e9a81cd277fdcb528ce8ee10d4bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:34 +0000
Subject: [PATCH 115/160] fix: set the sampling of the MadMap1 observations

---
 src/pysimulators/interfaces/madmap1.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/interfaces/madmap1.py b/src/pysimulators/interfaces/madmap1.py
index 07ec3c3..0164d5d 100644
--- a/src/pysimulators/interfaces/madmap1.py
+++ b/src/pysimulators/interfaces/madmap1.py
@@ -120,6 +120,7 @@ class MadMap1Observation(Acquisition):
         # Store pointing information
         self.pointing = np.recarray(np.sum(ns), [('removed', np.bool_)])
         self.pointing.removed = False
+        self.sampling = self.pointing
 
     def get_map_header(self, **keywords):
         return create_fitsheader(np.sum(~self.info.mapmask), dtype=float)
-- 
2.43.0


From e07028c747aea6253cfec7741e67002df7043944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:07 +0000
Subject: [PATCH 116/160] fix: report truncated MadMap1 filters

---
 src/pysimulators/interfaces/madmap1.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/interfaces/madmap1.py b/src/pysimulators/interfaces/madmap1.py
index 0164d5d..75f47b2 100644
--- a/src/pysimulators/interfaces/madmap1.py
+++ b/src/pysimulators/interfaces/madmap1.py
@@ -209,7 +209,11 @@ class MadMap1Observation(Acquisition):
 
 def _read_one_filter(filename, bigendian=False):
     dtype = '>i8' if bigendian else '<i8'
-    first, last, ncorr = np.fromfile(filename, dtype, count=3)
+    header = np.fromfile(filename, dtype, count=3)
+    filesize = os.stat(filename).st_size
+    if header.size < 3 or header[2] < 0 or filesize != (4 + int(header[2])) * 8:
+        raise ValueError(f"Invalid size '{filesize}' for file {str(filename)!r}.")
+    first, last, ncorr = header
     data = np.fromfile(filename, dtype.replace('i', 'f'), count=4 + ncorr)[3:]
     return {'first': first, 'last': last, 'data': data}
 
-- 
2.43.0


From 585fcca7e104f5667d20f158cfab2e250c9cba4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:34 +0000
Subject: [PATCH 117/160] fix: report missing MadMap1 filters

---
 src/pysimulators/interfaces/madmap1.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/pysimulators/interfaces/madmap1.py b/src/pysimulators/interfaces/madmap1.py
index 75f47b2..0c9619b 100644
--- a/src/pysimulators/interfaces/madmap1.py
+++ b/src/pysimulators/interfaces/madmap1.py
@@ -56,6 +56,15 @@ class MadMap1Observation(Acquisition):
         filters = _read_filters(invnttfilename, bigendian=bigendian)
         ncorrelations = filters[0]['data'].size
         nblocks = len(filters) // ndetectors
+        if len(filters) != nblocks * ndetectors:
+            raise ValueError(
+                f"The number of filters '{len(filters)}' is not a multiple of the "
+                f"number of detectors '{ndetectors}'."
+            )
+        lengths = np.array([f['last'] - f['first'] + 1 for f in filters])
+        lengths = lengths.reshape((nblocks, ndetectors))
+        if np.any(lengths != lengths[:, :1]) or np.any(lengths <= 0):
+            raise ValueError('The filters of a block have different lengths.')
         ns = [f['last'] - f['first'] + 1 for f in filters[::ndetectors]]
         filters = np.array([f['data'] for f in filters]).reshape(
             (nblocks, ndetectors, ncorrelations)
@@ -233,4 +242,8 @@ def _read_filters(filename, bigendian=False):
     ncorrelations = filters[0]['data'].size
     if any(f['data'].size != ncorrelations for f in filters):
         raise ValueError('Blocks do not have the same correlation lengths.')
+    if any(int(f.suffix[1:]) != i for i, f in enumerate(files)) or any(
+        f1['last'] + 1 != f2['first'] for f1, f2 in zip(filters[:-1], filters[1:])
+    ):
+        raise ValueError(f'Some filters {filename} are missing or misplaced.')
     return filters
-- 
2.43.0


From d38d773e10f92dbfa7ac7069663908d0f6c3f5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:34 +0000
Subject: [PATCH 118/160] fix: report the map pixels of the MadMap1 data that
 are not in the map

---
 src/pysimulators/interfaces/madmap1.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pysimulators/interfaces/madmap1.py b/src/pysimulators/interfaces/madmap1.py
index 0c9619b..963ad18 100644
--- a/src/pysimulators/interfaces/madmap1.py
+++ b/src/pysimulators/interfaces/madmap1.py
@@ -212,6 +212,10 @@ class MadMap1Observation(Acquisition):
                 # structured arrays are assigned by position, not by field name
                 for field in 'index', 'value':
                     p[field] = data['matrix'][field]
+                if not p.isvalid():
+                    raise ValueError(
+                        f'The file {self.info.todfilename!r} has invalid map pixels.'
+                    )
                 pmatrix.append(p)
         return tod, pmatrix
 
-- 
2.43.0


From bba71bcf37d4ee092c8a169f6ab9f2cce19c1af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:27 +0000
Subject: [PATCH 119/160] fix: define the NaN and infinity double precision
 constants

---
 src/flib/module_math_old.f90 | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/flib/module_math_old.f90 b/src/flib/module_math_old.f90
index 61df943..5071ce1 100644
--- a/src/flib/module_math_old.f90
+++ b/src/flib/module_math_old.f90
@@ -46,12 +46,10 @@ module module_math_old
     real(p), parameter :: PI = 4._p * atan(1._p)
     real(p), parameter :: DEG2RAD = PI / 180._p
     real(p), parameter :: RAD2DEG = 180._p / PI
-    !XXX should use ieee_arithmetic instead when gfortran implements it. So far, gfortran doesn't allow NaN, mInf, pInf conversion
-    ! between different real kinds...
 #if PRECISION_REAL == 8
-    real(8), parameter :: NaN  = real(z'FFFFFFFF', 8)
-    real(8), parameter :: mInf = real(z'FFFF0000', 8)
-    real(8), parameter :: pInf = real(z'7FFF0000', 8)
+    real(8), parameter :: NaN  = real(z'7FF8000000000000', 8)
+    real(8), parameter :: mInf = real(z'FFF0000000000000', 8)
+    real(8), parameter :: pInf = real(z'7FF0000000000000', 8)
 #elif PRECISION_REAL == 16
     real(16), parameter :: NaN  = z'FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF'
     real(16), parameter :: mInf = z'FFFF0000000000000000000000000000'
-- 
2.43.0


From 3dbf45b33e652cdc4e1f7cf0782ae22ede5dbe38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:27 +0000
Subject: [PATCH 120/160] fix: compute accurately the separation of close
 directions

---
 src/flib/module_math_old.f90 | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/flib/module_math_old.f90 b/src/flib/module_math_old.f90
index 5071ce1..25c0db2 100644
--- a/src/flib/module_math_old.f90
+++ b/src/flib/module_math_old.f90
@@ -502,9 +502,14 @@ contains
 
         real(p), intent(in)  :: lon1, lat1, lon2, lat2
         real(p), intent(out) :: angle
-
-        angle = acos(cos(lat1*DEG2RAD) * cos(lat2*DEG2RAD) * cos((lon2 - lon1)*DEG2RAD) + sin(lat1*DEG2RAD) * sin(lat2*DEG2RAD)) * &
-                RAD2DEG
+        real(p)              :: c1, s1, c2, s2, dlon
+
+        c1 = cos(lat1*DEG2RAD)
+        s1 = sin(lat1*DEG2RAD)
+        c2 = cos(lat2*DEG2RAD)
+        s2 = sin(lat2*DEG2RAD)
+        dlon = (lon2 - lon1) * DEG2RAD
+        angle = atan2(sqrt((c2 * sin(dlon))**2 + (c1 * s2 - s1 * c2 * cos(dlon))**2), s1 * s2 + c1 * c2 * cos(dlon)) * RAD2DEG
 
     end subroutine angle_lonlat
 
-- 
2.43.0


From 298a96f258a26c0d9ad53e8a30e5e5dfc8e5565e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:27 +0000
Subject: [PATCH 121/160] fix: compute accurately the latitude of the
 barycentre of directions

---
 src/flib/wcsutils.f90 | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/flib/wcsutils.f90 b/src/flib/wcsutils.f90
index 6bb9a70..e8e9284 100644
--- a/src/flib/wcsutils.f90
+++ b/src/flib/wcsutils.f90
@@ -65,9 +65,14 @@ contains
         end do
         !$omp end parallel do
 
+        if (x == 0 .and. y == 0 .and. z == 0) then
+            lon0 = NaN
+            lat0 = NaN
+            return
+        end if
+
         lon0 = modulo(atan2(y,x) * RAD2DEG + 360._p, 360._p)
-        lat0 = acos(sqrt((x**2 + y**2)/(x**2 + y**2 + z**2))) * RAD2DEG
-        lat0 = sign(lat0, z)
+        lat0 = atan2(z, sqrt(x**2 + y**2)) * RAD2DEG
 
     end subroutine barycenter_lonlat
 
-- 
2.43.0


From 90fdc8d83df3ad9a6f44f5dbe35abc7e1b3d74e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:27 +0000
Subject: [PATCH 122/160] fix: average the angles that are up to half a turn
 apart across the 0/360 limit

---
 src/flib/wcsutils.f90 | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/flib/wcsutils.f90 b/src/flib/wcsutils.f90
index e8e9284..8ec9a24 100644
--- a/src/flib/wcsutils.f90
+++ b/src/flib/wcsutils.f90
@@ -86,31 +86,35 @@ contains
         real(p), intent(in)   :: array(n)
         real(p), intent(out)  :: mean
 
-        real(p) :: val
-        integer*8 :: isample, n180, nvalids
-        logical :: zero_minus, zero_plus
+        real(p) :: val, x, y, opposite
+        integer*8 :: isample, nvalids
+
+        ! get the direction opposite to that of the values
+        x = 0
+        y = 0
+        !$omp parallel do default(shared) reduction(+:x, y) private(isample, val)
+        do isample = 1, n
+            val = modulo(array(isample), 360._p)
+            if (val /= val) cycle
+            x = x + cos(val * DEG2RAD)
+            y = y + sin(val * DEG2RAD)
+        end do
+        !$omp end parallel do
+        opposite = modulo(atan2(-y, -x) * RAD2DEG, 360._p)
 
         mean = 0
-        zero_minus = .false.
-        zero_plus  = .false.
-        n180 = 0
         nvalids = 0
 
-        !$omp parallel do default(shared) reduction(+:n180, nvalids, mean)     &
-        !$omp reduction(.or.:zero_minus,zero_plus) private(isample, val)
+        !$omp parallel do default(shared) reduction(+:nvalids, mean) private(isample, val)
         do isample = 1, n
             val = modulo(array(isample), 360._p)
             if (val /= val) cycle
-            zero_minus = zero_minus .or. val > 270._p
-            zero_plus  = zero_plus  .or. val <= 90._p
-            if (val >= 180._p) n180 = n180 + 1
+            if (val > opposite) val = val - 360._p
             mean = mean + val
             nvalids = nvalids + 1
         end do
         !$omp end parallel do
 
-        if (zero_minus .and. zero_plus) mean = mean - 360._p * n180
-
         if (nvalids > 0) then
             mean = modulo(mean / nvalids, 360._p)
         else
-- 
2.43.0


From 5ab950d84f87db786473f2ff3d9086ecde981b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:45 +0000
Subject: [PATCH 123/160] fix: report incompatible numbers of vectors in
 angle_lonlat

---
 src/pysimulators/wcsutils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pysimulators/wcsutils.py b/src/pysimulators/wcsutils.py
index 9e94496..3c32c34 100644
--- a/src/pysimulators/wcsutils.py
+++ b/src/pysimulators/wcsutils.py
@@ -58,6 +58,10 @@ def angle_lonlat(lon1, lat1, lon2=None, lat2=None):
     lat1 = np.asarray(lat1, float)
     lon2 = np.asarray(lon2, float)
     lat2 = np.asarray(lat2, float)
+    if lon1.size != lon2.size and 1 not in (lon1.size, lon2.size):
+        raise ValueError(
+            f"Incompatible numbers of vectors: '{lon1.size}' and '{lon2.size}'."
+        )
     angle = flib.wcsutils.angle_lonlat(
         lon1.ravel(), lat1.ravel(), lon2.ravel(), lat2.ravel()
     )
-- 
2.43.0


From b264bbbb0e33c7bcd2126f77ccc498c5b543bbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:58 +0000
Subject: [PATCH 124/160] fix: create a FITS header from a CD matrix

---
 src/pysimulators/wcsutils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/wcsutils.py b/src/pysimulators/wcsutils.py
index 3c32c34..98b7b3c 100644
--- a/src/pysimulators/wcsutils.py
+++ b/src/pysimulators/wcsutils.py
@@ -285,9 +285,9 @@ def create_fitsheader(
         if pa is None:
             pa = 0.0
         theta = np.deg2rad(-pa)
-    cd = np.diag(cdelt).dot(
-        np.array([[np.cos(theta), np.sin(theta)], [-np.sin(theta), np.cos(theta)]])
-    )
+        cd = np.diag(cdelt).dot(
+            np.array([[np.cos(theta), np.sin(theta)], [-np.sin(theta), np.cos(theta)]])
+        )
 
     crval = np.asarray(crval, float)
     if crval.size != 2:
-- 
2.43.0


From 7c0697728e9e4de3f8e3e17eb63b494f89b4a974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:58 +0000
Subject: [PATCH 125/160] fix: headers without axes do not define a world
 coordinate system

---
 src/pysimulators/wcsutils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/wcsutils.py b/src/pysimulators/wcsutils.py
index 98b7b3c..14cca95 100644
--- a/src/pysimulators/wcsutils.py
+++ b/src/pysimulators/wcsutils.py
@@ -463,6 +463,8 @@ def has_wcs(header):
     System.
     """
 
+    if header['NAXIS'] == 0:
+        return False
     required = 'CRPIX,CRVAL,CTYPE'.split(',')
     keywords = np.concatenate(
         [
-- 
2.43.0


From 6cce9ec89afcce333665a803fa8a56c179372f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 126/160] fix: do not rely on an attribute removed from astropy
 to convert a string into a header

---
 src/pysimulators/wcsutils.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/pysimulators/wcsutils.py b/src/pysimulators/wcsutils.py
index 14cca95..59fe928 100644
--- a/src/pysimulators/wcsutils.py
+++ b/src/pysimulators/wcsutils.py
@@ -498,16 +498,7 @@ def str2fitsheader(string):
     All cards are extracted from the input string until the END keyword is
     reached.
     """
-    header = pyfits.Header()
-    cards = header.ascard()
-    iline = 0
-    while iline * 80 < len(string):
-        line = string[iline * 80 : (iline + 1) * 80]
-        if line[0:3] == 'END':
-            break
-        cards.append(pyfits.Card().fromstring(line))
-        iline += 1
-    return header
+    return pyfits.Header.fromstring(string)
 
 
 @real
-- 
2.43.0


From a1f24651ee4ae7375525efe2724ea7ca5914b691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 127/160] fix: write the converted coordinates in
 non-contiguous outputs

---
 src/pysimulators/wcsutils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pysimulators/wcsutils.py b/src/pysimulators/wcsutils.py
index 59fe928..704ceaa 100644
--- a/src/pysimulators/wcsutils.py
+++ b/src/pysimulators/wcsutils.py
@@ -710,8 +710,8 @@ class WCSToPixelOperator(_WCSOperator):
     def direct(self, input, output, operation=operation_assignment):
         if ASTROPY_WCS_NDIM_IS_2:
             input = input.reshape((-1, 2))
-            output = output.reshape((-1, 2))
-        operation(output, self.wcs.wcs_world2pix(input, self.origin))
+        result = self.wcs.wcs_world2pix(input, self.origin)
+        operation(output, result.reshape(output.shape))
 
 
 class WCSToWorldOperator(_WCSOperator):
@@ -738,5 +738,5 @@ class WCSToWorldOperator(_WCSOperator):
     def direct(self, input, output, operation=operation_assignment):
         if ASTROPY_WCS_NDIM_IS_2:
             input = input.reshape((-1, 2))
-            output = output.reshape((-1, 2))
-        operation(output, self.wcs.wcs_pix2world(input, self.origin))
+        result = self.wcs.wcs_pix2world(input, self.origin)
+        operation(output, result.reshape(output.shape))
-- 
2.43.0


From bc7184e65a421fefdc85c71aaa9a8db3b53a8d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 128/160] fix: use the universal time to compute the sidereal
 time

---
 src/pysimulators/operators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 7f99869..68968ee 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1390,6 +1390,8 @@ class _CartesianEquatorialHorizontal(DenseBlockDiagonalOperator):
                 f'Invalid azimuth angle convention {convention!r}. Expected values are '
                 f'{strenum(conventions)}.'
             )
+        if time.scale not in ('utc', 'ut1', 'local'):
+            time = time.utc
         lst = self._gst2lst(self._jd2gst(time.jd), longitude)
         lst = np.radians(lst * 15)
         latitude = np.radians(latitude)
-- 
2.43.0


From ef202e8567726cf052dd336768114c683108aaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 129/160] fix: accept sequences as longitudes of the horizontal
 conversions

---
 src/pysimulators/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 68968ee..9a73324 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1442,7 +1442,7 @@ class _CartesianEquatorialHorizontal(DenseBlockDiagonalOperator):
         Convert Greenwich Sidereal Time into Local Sidereal Time.
         longitude : Geographic longitude EAST in degrees.
         """
-        return (gst + longitude / 15) % 24
+        return (gst + np.asarray(longitude) / 15) % 24
 
 
 class CartesianEquatorial2HorizontalOperator(_CartesianEquatorialHorizontal):
-- 
2.43.0


From f4fadcd94eff791c019ff3251d856a154aac8066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 130/160] fix: convert the directions at the zenith despite the
 rounding errors

---
 src/pysimulators/operators.py | 46 +++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 9a73324..8b79af9 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -10,6 +10,7 @@ from pyoperators import (
     BlockDiagonalOperator,
     Cartesian2SphericalOperator,
     CompositionOperator,
+    DegreesOperator,
     DenseBlockDiagonalOperator,
     DenseOperator,
     DiagonalNumexprOperator,
@@ -17,6 +18,7 @@ from pyoperators import (
     HomothetyOperator,
     IdentityOperator,
     Operator,
+    RadiansOperator,
     Spherical2CartesianOperator,
 )
 from pyoperators.flags import inplace, linear, orthogonal, real, square
@@ -1539,6 +1541,34 @@ class CartesianHorizontal2EquatorialOperator(_CartesianEquatorialHorizontal):
         )
 
 
+class _Cartesian2SphericalOperator(Cartesian2SphericalOperator):
+    """
+    Cartesian-to-spherical conversion of unit vectors, whose norm may exceed
+    one because of rounding errors.
+
+    """
+
+    def __init__(self, convention, **keywords):
+        Cartesian2SphericalOperator.__init__(self, convention, **keywords)
+        self.set_rule('I', lambda s: _spherical2cartesian(s.convention))
+
+    def direct(self, input, output):
+        input = np.array(input)
+        np.clip(input[..., 2], -1, 1, out=input[..., 2])
+        Cartesian2SphericalOperator.direct(self, input, output)
+
+
+def _cartesian2spherical(convention, degrees=False):
+    op = _Cartesian2SphericalOperator(convention)
+    return DegreesOperator()(op) if degrees else op
+
+
+def _spherical2cartesian(convention, degrees=False):
+    op = Spherical2CartesianOperator(convention)
+    op.set_rule('I', lambda s: _Cartesian2SphericalOperator(s.convention))
+    return op(RadiansOperator()) if degrees else op
+
+
 class SphericalEquatorial2GalacticOperator(CompositionOperator):
     """
     ICRS-to-Galactic cartesian coordinate transform.
@@ -1594,9 +1624,9 @@ class SphericalEquatorial2GalacticOperator(CompositionOperator):
 
         """
         operands = [
-            Cartesian2SphericalOperator(conventionout, degrees=degrees),
+            _cartesian2spherical(conventionout, degrees=degrees),
             CartesianEquatorial2GalacticOperator(),
-            Spherical2CartesianOperator(conventionin, degrees=degrees),
+            _spherical2cartesian(conventionin, degrees=degrees),
         ]
         CompositionOperator.__init__(self, operands, **keywords)
 
@@ -1657,9 +1687,9 @@ class SphericalGalactic2EquatorialOperator(CompositionOperator):
 
         """
         operands = [
-            Cartesian2SphericalOperator(conventionout, degrees=degrees),
+            _cartesian2spherical(conventionout, degrees=degrees),
             CartesianGalactic2EquatorialOperator(),
-            Spherical2CartesianOperator(conventionin, degrees=degrees),
+            _spherical2cartesian(conventionin, degrees=degrees),
         ]
         CompositionOperator.__init__(self, operands, **keywords)
 
@@ -1728,11 +1758,11 @@ class SphericalEquatorial2HorizontalOperator(CompositionOperator):
 
         """
         operands = [
-            Cartesian2SphericalOperator(conventionout, degrees=degrees),
+            _cartesian2spherical(conventionout, degrees=degrees),
             CartesianEquatorial2HorizontalOperator(
                 convention_horizontal, time, latitude, longitude
             ),
-            Spherical2CartesianOperator(conventionin, degrees=degrees),
+            _spherical2cartesian(conventionin, degrees=degrees),
         ]
         CompositionOperator.__init__(self, operands, **keywords)
 
@@ -1801,10 +1831,10 @@ class SphericalHorizontal2EquatorialOperator(CompositionOperator):
 
         """
         operands = [
-            Cartesian2SphericalOperator(conventionout, degrees=degrees),
+            _cartesian2spherical(conventionout, degrees=degrees),
             CartesianHorizontal2EquatorialOperator(
                 convention_horizontal, time, latitude, longitude
             ),
-            Spherical2CartesianOperator(conventionin, degrees=degrees),
+            _spherical2cartesian(conventionin, degrees=degrees),
         ]
         CompositionOperator.__init__(self, operands, **keywords)
-- 
2.43.0


From bb4a6921ac023c68ff905569493e8c4c3d1b09b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 131/160] fix: return floating-point celestial coordinates for
 integer coordinates of the object plane

---
 src/pysimulators/wcsutils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/wcsutils.py b/src/pysimulators/wcsutils.py
index 704ceaa..d8bc53b 100644
--- a/src/pysimulators/wcsutils.py
+++ b/src/pysimulators/wcsutils.py
@@ -567,6 +567,8 @@ class RotationBoresightEquatorialOperator(Operator):
         if any(k not in pointing.dtype.names for k in ('ra', 'dec', 'pa')):
             raise TypeError('The input is not an equatorial pointing.')
         self.pointing = pointing
+        if 'dtype' not in keywords:
+            keywords['dtype'] = float
         Operator.__init__(self, **keywords)
 
     def direct(self, x, out):
-- 
2.43.0


From 3c47bdcda24ea5ba2fcaef821e09015bde94546f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 132/160] fix: reject coordinates of the object plane which are
 not two-dimensional

---
 src/pysimulators/wcsutils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pysimulators/wcsutils.py b/src/pysimulators/wcsutils.py
index d8bc53b..70c7bc5 100644
--- a/src/pysimulators/wcsutils.py
+++ b/src/pysimulators/wcsutils.py
@@ -586,6 +586,10 @@ class RotationBoresightEquatorialOperator(Operator):
     def reshapein(self, shape):
         return self.pointing.shape + shape
 
+    def validatein(self, shape):
+        if len(shape) == 0 or shape[-1] != 2:
+            raise ValueError('The last dimension of the coordinates is not 2.')
+
 
 @real
 @square
-- 
2.43.0


From a8220324942e622a7525178a2ce2c078258c0d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 133/160] fix: compose the cartesian conversions with a scalar

---
 src/pysimulators/operators.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 8b79af9..a32f23e 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1297,6 +1297,10 @@ class _CartesianEquatorialGalactic(DenseOperator):
         ]
     )[0]
 
+    @staticmethod
+    def _rule_homothety(self, other):
+        return DenseOperator(other.data * self.data, broadcast=self.broadcast)
+
 
 class CartesianEquatorial2GalacticOperator(_CartesianEquatorialGalactic):
     """
@@ -1420,6 +1424,12 @@ class _CartesianEquatorialHorizontal(DenseBlockDiagonalOperator):
         )
         DenseBlockDiagonalOperator.__init__(self, m, **keywords)
 
+    @staticmethod
+    def _rule_homothety(self, other):
+        return DenseBlockDiagonalOperator(
+            other.data * self.data, broadcast=self.broadcast
+        )
+
     @staticmethod
     def _jd2gst(jd):
         """
-- 
2.43.0


From f09b17a85cd06fee0be346c66941cc261999ac7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 134/160] fix: reject the invalid resolution parameters of the
 Healpix operators

---
 src/pysimulators/interfaces/healpy/operators.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pysimulators/interfaces/healpy/operators.py b/src/pysimulators/interfaces/healpy/operators.py
index 840a84b..c2ff815 100644
--- a/src/pysimulators/interfaces/healpy/operators.py
+++ b/src/pysimulators/interfaces/healpy/operators.py
@@ -22,11 +22,18 @@ __all__ = [
 ]
 
 
+def _validate_nside(nside, nest):
+    # the compiled routines of Healpy abort if the resolution parameter is invalid
+    if not hp.isnsideok(int(nside), nest=bool(nest)):
+        raise ValueError(f"Invalid resolution parameter '{nside}'.")
+
+
 @real
 class _HealPixCartesian(Operator):
     def __init__(self, nside, nest=False, dtype=float, **keywords):
         if hp is None:
             raise ImportError('The package healpy is not installed.')
+        _validate_nside(nside, nest)
         self.nside = int(nside)
         self.nest = bool(nest)
         Operator.__init__(self, dtype=dtype, **keywords)
@@ -137,6 +144,7 @@ class _HealPixSpherical(Operator):
                 f'Invalid spherical convention {convention!r}. Expected values are '
                 f'{strenum(self.CONVENTIONS)}.'
             )
+        _validate_nside(nside, nest)
         self.nside = int(nside)
         self.convention = convention_
         self.nest = bool(nest)
-- 
2.43.0


From 07aee7d2af50c75e29a6ad0c9b27038350666b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 135/160] fix: accept Time instances as the start date of a
 sampling

---
 src/pysimulators/packedtables/samplings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/packedtables/samplings.py b/src/pysimulators/packedtables/samplings.py
index 116bd86..99b90cf 100644
--- a/src/pysimulators/packedtables/samplings.py
+++ b/src/pysimulators/packedtables/samplings.py
@@ -34,8 +34,8 @@ class Sampling(PackedTable):
             date_obs = Time([date_obs], scale='utc')
         elif not isinstance(date_obs, Time):
             raise TypeError('The observation start date is invalid.')
-        elif date_obs.is_scalar:  # work around astropy.time bug
-            date_obs = Time([str(date_obs)], scale='utc')
+        elif date_obs.isscalar:
+            date_obs = date_obs.reshape(1)
         if period is None:
             if hasattr(keywords, 'time'):
                 period = np.median(np.diff(keywords['time']))
-- 
2.43.0


From 09a2fe9f5fcad8dc4ce28b2239fcc4b378a04718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 136/160] fix: derive the period of a sampling from its times

---
 src/pysimulators/packedtables/samplings.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/packedtables/samplings.py b/src/pysimulators/packedtables/samplings.py
index 99b90cf..43210f5 100644
--- a/src/pysimulators/packedtables/samplings.py
+++ b/src/pysimulators/packedtables/samplings.py
@@ -37,8 +37,9 @@ class Sampling(PackedTable):
         elif date_obs.isscalar:
             date_obs = date_obs.reshape(1)
         if period is None:
-            if hasattr(keywords, 'time'):
-                period = np.median(np.diff(keywords['time']))
+            time = keywords.get('time')
+            if time is not None and not callable(time) and np.size(time) > 1:
+                period = np.median(np.diff(time))
             else:
                 period = self.DEFAULT_PERIOD
         masked = keywords.pop('masked', False)
-- 
2.43.0


From e7c6b9fc18199fc1f6f22b0969e3b857c3d5517d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 137/160] fix: do not discard the third angle of a sampling
 when it is a keyword

---
 src/pysimulators/packedtables/samplings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/samplings.py b/src/pysimulators/packedtables/samplings.py
index 43210f5..ad31751 100644
--- a/src/pysimulators/packedtables/samplings.py
+++ b/src/pysimulators/packedtables/samplings.py
@@ -93,7 +93,7 @@ class SamplingSpherical(Sampling):
         elif len(args) <= 3:
             keywords[names[0]] = args[0]
             keywords[names[1]] = args[1]
-            keywords[names[2]] = args[2] if len(args) == 3 else 0
+            keywords[names[2]] = args[2] if len(args) == 3 else keywords.get(names[2], 0)
         else:
             raise ValueError('Invalid number of arguments.')
 
-- 
2.43.0


From 02091e5e6592e5a6641f5462c77d28c0be3549e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 138/160] fix: spherical coordinates of samplings with a
 constant angle

---
 src/pysimulators/packedtables/samplings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/samplings.py b/src/pysimulators/packedtables/samplings.py
index ad31751..41b9a66 100644
--- a/src/pysimulators/packedtables/samplings.py
+++ b/src/pysimulators/packedtables/samplings.py
@@ -127,7 +127,8 @@ class SamplingSpherical(Sampling):
         Return the spherical coordinates as an (N, 2) ndarray.
 
         """
-        return np.array([getattr(self, self.names[0]), getattr(self, self.names[1])]).T
+        angles = getattr(self, self.names[0]), getattr(self, self.names[1])
+        return np.array([np.broadcast_to(_, len(self)) for _ in angles]).T
 
     @property
     def spherical2cartesian(self):
-- 
2.43.0


From 35abe78543d588a346ef2bfa799c65611fe3a8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 139/160] fix: do not modify the coordinates of a sampling when
 getting its centre

---
 src/pysimulators/packedtables/samplings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/samplings.py b/src/pysimulators/packedtables/samplings.py
index 41b9a66..ced1ca6 100644
--- a/src/pysimulators/packedtables/samplings.py
+++ b/src/pysimulators/packedtables/samplings.py
@@ -163,7 +163,7 @@ class SamplingSpherical(Sampling):
             coords = self.cartesian
             if not isscalarlike(self.masked):
                 valid = 1 - self.masked
-                coords *= valid[:, None]
+                coords = coords * valid[:, None]
                 n = np.sum(valid)
             else:
                 n = len(self)
-- 
2.43.0


From d179e75c83f3e95e49e5da0b122c08467e6fd2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 140/160] fix: angular velocity of a sampling

---
 src/pysimulators/packedtables/samplings.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/pysimulators/packedtables/samplings.py b/src/pysimulators/packedtables/samplings.py
index ced1ca6..d45922e 100644
--- a/src/pysimulators/packedtables/samplings.py
+++ b/src/pysimulators/packedtables/samplings.py
@@ -2,12 +2,7 @@ import numpy as np
 from astropy.time import Time, TimeDelta
 
 import pyoperators
-from pyoperators import (
-    MPI,
-    DifferenceOperator,
-    NormalizeOperator,
-    Spherical2CartesianOperator,
-)
+from pyoperators import MPI, Spherical2CartesianOperator
 from pyoperators.utils import deprecated, isscalarlike, tointtuple
 from pyoperators.utils.mpi import as_mpi
 
@@ -53,6 +48,8 @@ class Sampling(PackedTable):
 
 
 class SamplingSpherical(Sampling):
+    DEFAULT_VELOCITY_UNIT = 'rad/s'
+
     def __init__(self, *args, **keywords):
         """
         ptg = SamplingSpherical(n)
@@ -147,8 +144,15 @@ class SamplingSpherical(Sampling):
         return self.spherical2cartesian.I
 
     def velocity(self):
-        op = NormalizeOperator() * DifferenceOperator(axis=-2) / self.period
-        velocity = Quantity(op(self.cartesian), 'rad/s')
+        """
+        Return the angular velocities between successive samples.
+
+        """
+        distance = np.sqrt(np.sum(np.diff(self.cartesian, axis=0) ** 2, axis=-1))
+        angle = 2 * np.arcsin(np.minimum(distance / 2, 1))
+        time = np.asarray(self.time)
+        interval = np.abs(np.diff(time)) if time.ndim > 0 else self.period
+        velocity = Quantity(angle / interval, 'rad/s')
         return velocity.tounit(self.DEFAULT_VELOCITY_UNIT)
 
     def get_center(self):
-- 
2.43.0


From d1851a5df4d5414c33e1b25f204dc8526f4826b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 141/160] fix: select a single element of a table several times

---
 src/pysimulators/packedtables/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index e15c894..3915edc 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -725,7 +725,7 @@ class PackedTable:
             return s
         start = s[0]
         step = s[1] - s[0]
-        if np.all(s == start + np.arange(size) * step):
+        if step != 0 and np.all(s == start + np.arange(size) * step):
             if size == n and step == 1:
                 return Ellipsis
             else:
-- 
2.43.0


From 8dea6463fb43d7e7c2bb3f3b52b4ab4128ed07fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:56 +0000
Subject: [PATCH 142/160] fix: set the missing values of the tables with
 repeated elements

---
 src/pysimulators/packedtables/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 3915edc..6315d6b 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -629,7 +629,12 @@ class PackedTable:
             out = np.empty(unpacked_shape, dtype=x.dtype).view(type(x))
             if out.__array_finalize__ is not None:
                 out.__array_finalize__(x)
-        if self._size_actual > len(self):
+        is_incomplete = self._size_actual > len(self) or (
+            isinstance(index, np.ndarray)
+            and index.dtype != bool
+            and self._size_actual > np.unique(index).size
+        )
+        if is_incomplete:
             if missing_value is None:
                 missing_value = self._get_default_missing_value(x.dtype)
             out[...] = missing_value
-- 
2.43.0


From 7a528b8d5aec8a4539691766ea2749b1148235fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 143/160] fix: copy the scenes

---
 src/pysimulators/packedtables/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 6315d6b..5747091 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -24,7 +24,7 @@ from collections.abc import Callable
 
 import numpy as np
 
-from pyoperators import MPI
+from pyoperators import MPI, Operator
 from pyoperators.utils import (
     ilast_is_not,
     isalias,
@@ -368,7 +368,11 @@ class PackedTable:
         Return a deep copy of the packed array.
 
         """
+        # the communicator and the operators, which are immutable, are not copied
         memo = {id(self.comm): self.comm}
+        memo.update(
+            (id(_), _) for _ in vars(self).values() if isinstance(_, Operator)
+        )
         out = copy.deepcopy(self, memo)
         object.__setattr__(out, 'comm', self.comm.Dup())
         return out
-- 
2.43.0


From 278ec5e3ef99892850021ee94cb9a28bc23d52b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:27 +0000
Subject: [PATCH 144/160] fix: allocate the column storage of the sparse
 matrices with rectangular blocks

---
 src/pysimulators/sparse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index 0180ed1..5e97817 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -59,7 +59,8 @@ class _FSMatrix:
                     f'The maximum number of non-zero {straxes[0]}s per {straxes[1]} '
                     f'is not specified.'
                 )
-            shape_data = (shape[1 - sparse_axis] // block_shape[0], nmax)
+            axis = 1 - sparse_axis
+            shape_data = (shape[axis] // block_shape[axis], nmax)
             if dtype is None:
                 dtype = float
             if dtype_index is None:
-- 
2.43.0


From c5320b6438f5e97b6ee76f6416f0f87754930fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:16 +0000
Subject: [PATCH 145/160] fix: solid angle of the pixels of coarse gnomonic
 maps

---
 src/flib/module_wcs.f90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flib/module_wcs.f90 b/src/flib/module_wcs.f90
index a9f399e..6d9f35b 100644
--- a/src/flib/module_wcs.f90
+++ b/src/flib/module_wcs.f90
@@ -335,7 +335,8 @@ contains
         real(p), intent(in)  :: origin(2)
         real(p), intent(in)  :: resolution(2)
 
-        call distance_2d(array, origin - 1, tan(resolution * DEG2RAD))
+        ! the intermediate coordinates of the gnomonic projection are the tangent of the distance
+        call distance_2d(array, origin - 1, resolution * DEG2RAD)
 
         !$omp parallel workshare
         array = cos(atan(array))**3
-- 
2.43.0


From 28bb1c558f897451a37a9e0ceffe6a6e0db47586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:58 +0000
Subject: [PATCH 146/160] fix: former kernel method without compiled routine

---
 src/pysimulators/operators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index a32f23e..9ec7d31 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1045,9 +1045,12 @@ class ProjectionOperator(SparseOperator):
                 indices = data.index[data.value != 0]
             elif isinstance(self.matrix, FSRRotation2dMatrix):
                 indices = data.index[(data.r11 != 0) | (data.r21 != 0)]
+            elif isinstance(self.matrix, FSRBlockMatrix):
+                indices = data.index[np.any(data.value != 0, axis=(-2, -1))]
             else:
                 indices = data.index[data.r11 != 0]
             kernel = np.histogram(indices, n, range=(0, n))[0] == 0
+            kernel = kernel.reshape(shape)
         operation(out, kernel)
         return out
 
-- 
2.43.0


From bcb7f07505beee60980e85ddc49e1d9b3ea3e6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:47 +0000
Subject: [PATCH 147/160] fix: truncated exponential convolution of read-only
 inputs

---
 src/pysimulators/operators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 9ec7d31..df8ca40 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -395,7 +395,7 @@ class ConvolutionTruncatedExponentialOperator(Operator):
         if input.size == 0:
             return
         if not _has_contiguous_rows(input):
-            input = np.ascontiguousarray(input)
+            input = np.array(input, order='C')
         output_ = output
         if not _has_contiguous_rows(output):
             output_ = np.empty(output.shape, output.dtype)
@@ -425,6 +425,8 @@ class ConvolutionTruncatedExponentialOperator(Operator):
 
 
 def _has_contiguous_rows(x):
+    if not x.flags.behaved:
+        return False
     if x.flags.c_contiguous:
         return True
     return (
-- 
2.43.0


From 87870b8514b0f4eec0ff7ad57dadfcc94cc75386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:47 +0000
Subject: [PATCH 148/160] fix: back projection and coverage in outputs that are
 not contiguous

---
 src/pysimulators/operators.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index df8ca40..dfc18f0 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -780,13 +780,14 @@ class ProjectionBaseOperator(Operator):
             return out
         if mask is None:
             mask = getattr(x, 'mask', None)
+        out_ = [np.ascontiguousarray(_) for _ in out]
         if mask is not None:
             flib.pointingmatrix.backprojection_weight_mask(
                 matrix.ravel().view(np.int64),
                 x.ravel(),
                 np.asarray(mask, bool).ravel().view(np.int8),
-                out[0].ravel(),
-                out[1].ravel(),
+                out_[0].ravel(),
+                out_[1].ravel(),
                 matrix.shape[-1],
                 matrix.size // matrix.shape[-1],
             )
@@ -794,11 +795,14 @@ class ProjectionBaseOperator(Operator):
             flib.pointingmatrix.backprojection_weight(
                 matrix.ravel().view(np.int64),
                 x.ravel(),
-                out[0].ravel(),
-                out[1].ravel(),
+                out_[0].ravel(),
+                out_[1].ravel(),
                 matrix.shape[-1],
                 matrix.size // matrix.shape[-1],
             )
+        for o, o_ in zip(out, out_):
+            if not np.may_share_memory(o, o_):
+                o[...] = o_
         return out
 
     def intersects(self, fitscoords, axis=None, f=None):
-- 
2.43.0


From 614abbbec983dcd37969256250f0a472afbc709e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:38 +0000
Subject: [PATCH 149/160] fix: indices of the nonzero elements of quantities by
 np.where

---
 src/pysimulators/quantities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 21abd34..7f6c424 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -546,6 +546,8 @@ class Quantity(np.ndarray):
             raise UnitError('The number of multiplied elements is not defined.')
         if func is np.interp:
             return self._interp(*args, **kwargs)
+        if func is np.where and len(args) == 1:
+            return np.nonzero(*args)
         if conversion is None:
             return super().__array_function__(func, types, args, kwargs)
 
-- 
2.43.0


From 9342c2041028880e944bc4717fac26833c1b449f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:19 +0000
Subject: [PATCH 150/160] fix: check the output arrays of the back projection

---
 src/pysimulators/operators.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index dfc18f0..f5fbd8b 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -776,6 +776,12 @@ class ProjectionBaseOperator(Operator):
             self.set_attrin(out[0].__dict__)
             if hasattr(x, 'unit'):
                 out[0].unit = x.unit
+        elif not isinstance(out, (list, tuple)) or len(out) != 2:
+            raise TypeError('The out keyword is not a 2-tuple.')
+        elif any(not isinstance(_, np.ndarray) or _.dtype != float for _ in out):
+            raise TypeError('The output arrays have an invalid type.')
+        elif any(_.shape != tuple(matrix.shape_input) for _ in out):
+            raise ValueError('The output arrays have an incompatible shape.')
         if matrix.size == 0:
             return out
         if mask is None:
-- 
2.43.0


From c1907d3a1fa73a2f7014e1a49e12d3aee6815039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:19 +0000
Subject: [PATCH 151/160] fix: check the mask of the pixels discarded by a
 pointing matrix

---
 src/pysimulators/operators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index f5fbd8b..b14838b 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -596,6 +596,9 @@ class PointingMatrix(FitsArray):
         discarding masked or unobserved pixels.
 
         """
+        mask = np.asarray(mask, bool)
+        if mask.size != product(self.shape_input):
+            raise ValueError('The mask argument has an incompatible shape.')
         if self.size == 0:
             return
         flib.pointingmatrix.pack(
-- 
2.43.0


From 257a8d6a40e632c52d993223d65f9a1dd5d02587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:19 +0000
Subject: [PATCH 152/160] fix: coverage and back projection written in maps

---
 src/pysimulators/operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index b14838b..5914053 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1181,7 +1181,7 @@ class ProjectionOperator(SparseOperator):
                 shapein = self.shapeout
             if isinstance(self.matrix, FSRMatrix):
                 x = ones(shapein, self.dtype)
-                self.T(x, out=out, operation=operation)
+                self.T(x, out=out.view(np.ndarray), operation=operation)
             elif isinstance(self.matrix, FSRRotation2dMatrix):
                 if operation is operation_assignment:
                     out[...] = 0
@@ -1269,7 +1269,7 @@ class ProjectionOperator(SparseOperator):
         else:
             self.pT1(out=pT1, operation=operation)
             if isinstance(self.matrix, FSRMatrix):
-                self.T(x, out=pTx, operation=operation)
+                self.T(x, out=pTx.view(np.ndarray), operation=operation)
             elif self.matrix.block_shape[1] == 1:
                 operation(pTx, self.T(x))
             else:
-- 
2.43.0


From 47fcd40e7f9f7758bbb2b0803624c21f3fad9748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:19 +0000
Subject: [PATCH 153/160] fix: check the shape of the noise buffer before
 writing in it

---
 src/pysimulators/acquisitions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index fd1e69d..f680069 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -302,6 +302,8 @@ class Acquisition:
             if operation is not operation_assignment:
                 raise ValueError('The output buffer is not specified.')
             out = empty((len(self.instrument), len(self.sampling)))
+        elif np.shape(out) != (len(self.instrument), len(self.sampling)):
+            raise ValueError('The output buffer has an incompatible shape.')
         for b in self.block:
             self.instrument.get_noise(
                 self.sampling[b], out=out[:, b], operation=operation
-- 
2.43.0


From 7c80a098aa31b070a5645b1bbd2e68f91f1fd916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:17 +0000
Subject: [PATCH 154/160] fix: check the shape of the buffer before the noise
 of detectors is written

---
 src/pysimulators/instruments.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/instruments.py b/src/pysimulators/instruments.py
index 7e350f4..7d7abb9 100644
--- a/src/pysimulators/instruments.py
+++ b/src/pysimulators/instruments.py
@@ -296,6 +296,8 @@ class Instrument:
             raise ValueError('The output buffer is not specified.')
 
         shape = (len(self), len(sampling))
+        if out is not None and np.shape(out) != shape:
+            raise ValueError('The output buffer has an incompatible shape.')
 
         # handle non-correlated case first
         if bandwidth is None and np.all(fknee == 0):
-- 
2.43.0


From db1a306c7784dd1fd4b8b2b91a26b494f4a4729f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:00 +0000
Subject: [PATCH 155/160] fix: keep the existing file when an array cannot be
 stored in a FITS file

---
 src/pysimulators/mpiutils.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index d83dee5..58a4d8a 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -257,14 +257,6 @@ def write_fits(filename, data, header, extension, extname, comm):
     if extname is not None:
         header['extname'] = extname
 
-    # we remove the file first to avoid an annoying pyfits informative message
-    if not extension:
-        if comm.rank == 0:
-            try:
-                os.remove(filename)
-            except OSError:
-                pass
-
     # case without MPI communication
     if comm.size == 1:
         if not extension:
@@ -303,6 +295,12 @@ def write_fits(filename, data, header, extension, extname, comm):
 
     # write FITS header
     if comm.rank == 0:
+        if not extension:
+            # the header would be appended to an existing file
+            try:
+                os.remove(filename)
+            except OSError:
+                pass
         if extension and os.path.exists(filename):
             header = pyfits.ImageHDU(hdu.data, header).header
         else:
-- 
2.43.0


From 843b2833567028f66c63d9c764da90950e9fb5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:00 +0000
Subject: [PATCH 156/160] fix: check that the derived units can be stored
 before the file is written

---
 src/pysimulators/datatypes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index 650b310..b7d78d2 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -614,12 +614,15 @@ class FitsArray(Quantity):
             header.remove('BUNIT', ignore_missing=True)
             header.remove('QTTY____', ignore_missing=True)
 
+        # the derived units may not be picklable: nothing is written in this case
+        if self.derived_units:
+            buf = io.BytesIO()
+            pickle.dump(self.derived_units, buf, pickle.HIGHEST_PROTOCOL)
+
         write_fits(filename, self, header, False, None, comm)
         if not self.derived_units:
             return
         if comm is None or comm.rank == 0:
-            buf = io.BytesIO()
-            pickle.dump(self.derived_units, buf, pickle.HIGHEST_PROTOCOL)
             data = np.frombuffer(buf.getvalue(), np.uint8)
             write_fits(filename, data, None, True, 'derived_units', MPI.COMM_SELF)
         comm.Barrier()
-- 
2.43.0


From 398e1da7252cfea8c509a9b0479c9420ec9e78f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:55 +0000
Subject: [PATCH 157/160] fix: leave the map, its header and the existing file
 as they are when it cannot be saved

---
 src/pysimulators/datatypes.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index b7d78d2..cc10db2 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -1269,8 +1269,15 @@ class Map(FitsArray):
         if comm is None:
             comm = MPI.COMM_SELF
 
-        self.header['DISPORIG'] = self.origin, 'Map display convention'
-        FitsArray.save(self, filename, comm=comm)
+        # nothing is written if the companions cannot be stored
+        for companion in self.coverage, self.error:
+            if companion is not None:
+                create_fitsheader_for(np.empty(0, companion.dtype))
+
+        out = self.view()
+        out.header = self.header.copy()
+        out.header['DISPORIG'] = self.origin, 'Map display convention'
+        FitsArray.save(out, filename, comm=comm)
         if self.coverage is not None:
             write_fits(filename, self.coverage, None, True, 'Coverage', comm)
         if self.error is not None:
-- 
2.43.0


From eec2a7d6f33975756ed37d1b248f3e7053b1c65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:46 +0000
Subject: [PATCH 158/160] fix: coverage and back projection added in outputs
 that are not contiguous

---
 src/pysimulators/operators.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 5914053..7cb52f7 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1181,7 +1181,10 @@ class ProjectionOperator(SparseOperator):
                 shapein = self.shapeout
             if isinstance(self.matrix, FSRMatrix):
                 x = ones(shapein, self.dtype)
-                self.T(x, out=out.view(np.ndarray), operation=operation)
+                if out.flags.c_contiguous:
+                    self.T(x, out=out.view(np.ndarray), operation=operation)
+                else:
+                    operation(out, self.T(x))
             elif isinstance(self.matrix, FSRRotation2dMatrix):
                 if operation is operation_assignment:
                     out[...] = 0
@@ -1268,7 +1271,7 @@ class ProjectionOperator(SparseOperator):
             )
         else:
             self.pT1(out=pT1, operation=operation)
-            if isinstance(self.matrix, FSRMatrix):
+            if isinstance(self.matrix, FSRMatrix) and pTx.flags.c_contiguous:
                 self.T(x, out=pTx.view(np.ndarray), operation=operation)
             elif self.matrix.block_shape[1] == 1:
                 operation(pTx, self.T(x))
-- 
2.43.0


From 27e0de0051b919f692367754a2f6dd2c950da46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:08 +0000
Subject: [PATCH 159/160] fix: refuse the in-place coverage and back projection
 without an output

---
 src/pysimulators/operators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 7cb52f7..fae067d 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1149,6 +1149,8 @@ class ProjectionOperator(SparseOperator):
         elif self.matrix.block_shape[1] > 1:
             shapeout = shapeout[:-1]
         if out is None:
+            if operation is not operation_assignment:
+                raise ValueError('The array for inplace operation is not specified')
             out = empty(shapeout, self.dtype)
         elif not isinstance(out, np.ndarray):
             raise TypeError('The output keyword is not an ndarray.')
@@ -1233,6 +1235,8 @@ class ProjectionOperator(SparseOperator):
             )
         dtypeout = max(self.dtype, x.dtype)
         if out is None:
+            if operation is not operation_assignment:
+                raise ValueError('The array for inplace operation is not specified')
             pTx = empty(shapeout, dtypeout)
             pT1 = empty(shapeout, dtypeout)
         elif not isinstance(out, (list, tuple)) or len(out) != 2:
-- 
2.43.0


From 509d3e281dfa915adb897d5b0c9506653f29ec28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:51 +0000
Subject: [PATCH 160/160] fix: reshape the coverage, error and mask when the
 shape of an array is set

---
 src/pysimulators/datatypes.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index cc10db2..3adc94a 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -419,6 +419,18 @@ class FitsArray(Quantity):
 
     reshape.__doc__ = np.ndarray.reshape.__doc__
 
+    @property
+    def shape(self):
+        return np.ndarray.shape.__get__(self)
+
+    @shape.setter
+    def shape(self, shape):
+        np.ndarray.shape.__set__(self, shape)
+        for name in self._companions:
+            companion = getattr(self, name)
+            if companion is not None:
+                setattr(self, name, companion.reshape(self.shape))
+
     def resize(self, *args, **keywords):
         super().resize(*args, **keywords)
         self._drop_companions()
-- 
2.43.0

