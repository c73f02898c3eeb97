From 18d67a42dc7ce2a42c1a4bdacd39ef8f3fc196bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:07 +0000
Subject: [PATCH 01/70] fix: inplace subtraction of a scalar added it to the
 tensor

---
 src/sigmaepsilon/math/linalg/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/abstract.py b/src/sigmaepsilon/math/linalg/abstract.py
index 3e29bef..5145b9f 100644
--- a/src/sigmaepsilon/math/linalg/abstract.py
+++ b/src/sigmaepsilon/math/linalg/abstract.py
@@ -101,7 +101,7 @@ class AbstractTensor(TensorLike):
 
     def __isub__(self, other) -> TensorLike:
         if isinstance(other, numbers.Number):
-            self.array += other
+            self.array -= other
         elif isinstance(other, TensorLike):
             if not self.array.shape == other.array.shape:
                 raise TensorShapeMismatchError
-- 
2.43.0


From f1421a8378520687edcc33de2bb47b23533bf4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:07 +0000
Subject: [PATCH 02/70] fix: inplace addition and subtraction silently ignored
 unsupported operands

---
 src/sigmaepsilon/math/linalg/abstract.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sigmaepsilon/math/linalg/abstract.py b/src/sigmaepsilon/math/linalg/abstract.py
index 5145b9f..3677edc 100644
--- a/src/sigmaepsilon/math/linalg/abstract.py
+++ b/src/sigmaepsilon/math/linalg/abstract.py
@@ -63,6 +63,8 @@ class AbstractTensor(TensorLike):
             if not self.array.shape == other.array.shape:
                 raise TensorShapeMismatchError
             self.array += other.show(self.frame)
+        else:
+            raise TypeError("The operand must be a scalar or a tensor.")
         return self
 
     def __add__(self, other) -> TensorLike:
@@ -106,6 +108,8 @@ class AbstractTensor(TensorLike):
             if not self.array.shape == other.array.shape:
                 raise TensorShapeMismatchError
             self.array -= other.show(self.frame)
+        else:
+            raise TypeError("The operand must be a scalar or a tensor.")
         return self
 
     def __itruediv__(self, other) -> TensorLike:
-- 
2.43.0


From 6455e9ce548a7efa6306ea80aad6159de0d12f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:07 +0000
Subject: [PATCH 03/70] fix: operations on collections of tensors lost the bulk
 property of the operand

---
 src/sigmaepsilon/math/linalg/abstract.py | 16 +++++++---------
 src/sigmaepsilon/math/linalg/meta.py     | 11 +++++++++--
 src/sigmaepsilon/math/linalg/tensor.py   |  4 ++--
 3 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/abstract.py b/src/sigmaepsilon/math/linalg/abstract.py
index 3677edc..4cf412f 100644
--- a/src/sigmaepsilon/math/linalg/abstract.py
+++ b/src/sigmaepsilon/math/linalg/abstract.py
@@ -48,7 +48,7 @@ class AbstractTensor(TensorLike):
         if not isinstance(other, numbers.Number):
             raise TypeError("The multiplier must be a scalar.")
         arr = self.array * other
-        return self.__class__(arr, frame=self.frame)
+        return self._new_like(arr, frame=self.frame)
 
     def __imatmul__(self, other) -> TensorLike:
         raise LinalgInvalidTensorOperationError("Use a dot product.")
@@ -71,11 +71,10 @@ class AbstractTensor(TensorLike):
         if other.__class__ == self.__class__:
             if not self.array.shape == other.array.shape:
                 raise TensorShapeMismatchError
-            cls = self.__class__
-            fcls = cls._frame_cls_
+            fcls = self.__class__._frame_cls_
             frame = _new_and_init_(fcls, deepcopy(self.frame.axes))
             arr = self.array + other.show(self.frame)
-            return cls(arr, frame=frame)
+            return self._new_like(arr, frame=frame)
         else:
             raise TypeError(
                 (
@@ -88,11 +87,10 @@ class AbstractTensor(TensorLike):
         if other.__class__ == self.__class__:
             if not self.array.shape == other.array.shape:
                 raise TensorShapeMismatchError
-            cls = self.__class__
-            fcls = cls._frame_cls_
+            fcls = self.__class__._frame_cls_
             frame = _new_and_init_(fcls, deepcopy(self.frame.axes))
             arr = self.array - other.show(self.frame)
-            return cls(arr, frame=frame)
+            return self._new_like(arr, frame=frame)
         else:
             raise TypeError(
                 (
@@ -122,7 +120,7 @@ class AbstractTensor(TensorLike):
         if not isinstance(other, numbers.Number):
             raise TypeError("The multiplier must be a scalar.")
         arr = self.array / other
-        return self.__class__(arr, frame=self.frame)
+        return self._new_like(arr, frame=self.frame)
 
     def __ipow__(self, other) -> TensorLike:
         raise NotImplementedError("This operation is not implemented yet.")
@@ -159,7 +157,7 @@ def negative_implementation(method, *args, **kwargs):
         raise LinalgOperationInputError(msg)
     obj = args[0]
     arr = getattr(np.negative, method)(obj._array, **kwargs)
-    return obj.__class__(arr, frame=obj.frame)
+    return obj._new_like(arr, frame=obj.frame)
 
 
 @implements(np.dot)
diff --git a/src/sigmaepsilon/math/linalg/meta.py b/src/sigmaepsilon/math/linalg/meta.py
index d7228fb..58b7f04 100644
--- a/src/sigmaepsilon/math/linalg/meta.py
+++ b/src/sigmaepsilon/math/linalg/meta.py
@@ -358,7 +358,14 @@ class TensorLike(ArrayWrapper):
         if is_deep:
             memo[id(self.array)] = arr
 
-        return cls(arr, frame=frame)
+        return self._new_like(arr, frame=frame)
+
+    def _new_like(self, arr: ndarray, frame: FrameLike) -> "TensorLike":
+        """
+        Returns a new instance of the same kind (class, rank and bulk property)
+        with the provided components and frame.
+        """
+        return self.__class__(arr, frame=frame, bulk=self._bulk, rank=self._rank)
 
     @classmethod
     def _from_any_input(cls, *args, **kwargs) -> "TensorLike":
@@ -464,7 +471,7 @@ class TensorLike(ArrayWrapper):
         else:
             f = self.frame
             frame = f.__class__(np.copy(f.axes))
-            return self.__class__(np.transpose(self.array, indices), frame=frame)
+            return self._new_like(np.transpose(self.array, indices), frame=frame)
 
     @abstractmethod
     def show(self) -> Array: ...
diff --git a/src/sigmaepsilon/math/linalg/tensor.py b/src/sigmaepsilon/math/linalg/tensor.py
index 6bc6309..f19ce2c 100644
--- a/src/sigmaepsilon/math/linalg/tensor.py
+++ b/src/sigmaepsilon/math/linalg/tensor.py
@@ -88,7 +88,7 @@ class Tensor(AbstractTensor):
         Returns the tensor described in the dual (or reciprocal) frame.
         """
         a = self.transform_components(self.frame.Gram())
-        return self.__class__(a, frame=self.frame.dual())
+        return self._new_like(a, frame=self.frame.dual())
 
     def transform_components(self, Q: ndarray) -> ndarray:
         """
@@ -169,7 +169,7 @@ class Tensor(AbstractTensor):
         fcls: Frame = self.__class__._frame_cls_
         dcm = fcls.eye(dim=self.frame.shape[-1]).orient_new(*args, **kwargs).dcm()
         array = self.transform_components(dcm.T)
-        return self.__class__(array, frame=self.frame)
+        return self._new_like(array, frame=self.frame)
 
     def copy(self, deep: bool = False, name: str = None) -> "Tensor":
         """
-- 
2.43.0


From 3ce23f16cbf2d40656ede736ace238124bc5d295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:07 +0000
Subject: [PATCH 04/70] fix: is_bulk returned None instead of a boolean

---
 src/sigmaepsilon/math/linalg/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/meta.py b/src/sigmaepsilon/math/linalg/meta.py
index 58b7f04..0f3dce7 100644
--- a/src/sigmaepsilon/math/linalg/meta.py
+++ b/src/sigmaepsilon/math/linalg/meta.py
@@ -490,7 +490,7 @@ class TensorLike(ArrayWrapper):
         if self._bulk:
             return True
         else:
-            not self.rank == len(self.array.shape)
+            return not self.rank == len(self.array.shape)
 
 
 ArrayLike = Union[ArrayWrapper, ndarray, Array]
-- 
2.43.0


From 23eaf382ae8d123d56fa5985f79b9823d7310910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:07 +0000
Subject: [PATCH 05/70] fix: inplace transposition of a tensor left the wrapped
 data untransposed

---
 src/sigmaepsilon/math/linalg/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/meta.py b/src/sigmaepsilon/math/linalg/meta.py
index 0f3dce7..65ac6d2 100644
--- a/src/sigmaepsilon/math/linalg/meta.py
+++ b/src/sigmaepsilon/math/linalg/meta.py
@@ -466,7 +466,7 @@ class TensorLike(ArrayWrapper):
         tensor_indices = indices[len(shape) - r :]
         indices = data_indices + tensor_indices[::-1]
         if inplace:
-            self._array = np.transpose(self.array, indices)
+            self.array = np.transpose(self.array, indices)
             return self
         else:
             f = self.frame
-- 
2.43.0


From 7e45d6480058ba77158d7acd695f069125b2f826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:07 +0000
Subject: [PATCH 06/70] fix: copy and deepcopy of tensors dropped the frame of
 the original

---
 src/sigmaepsilon/math/linalg/tensor.py | 6 +++---
 src/sigmaepsilon/math/linalg/vector.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/tensor.py b/src/sigmaepsilon/math/linalg/tensor.py
index f19ce2c..dc092c6 100644
--- a/src/sigmaepsilon/math/linalg/tensor.py
+++ b/src/sigmaepsilon/math/linalg/tensor.py
@@ -1,4 +1,4 @@
-from copy import deepcopy as dcopy
+from copy import copy, deepcopy as dcopy
 
 import numpy as np
 from numpy import ndarray
@@ -177,9 +177,9 @@ class Tensor(AbstractTensor):
         argument `deepcopy` (default is False).
         """
         if deep:
-            return self.__class__(dcopy(self.array), name=name)
+            return dcopy(self)
         else:
-            return self.__class__(self.array, name=name)
+            return copy(self)
 
     def deepcopy(self, name: str = None) -> "Tensor":
         """
diff --git a/src/sigmaepsilon/math/linalg/vector.py b/src/sigmaepsilon/math/linalg/vector.py
index 7741607..0b5e857 100644
--- a/src/sigmaepsilon/math/linalg/vector.py
+++ b/src/sigmaepsilon/math/linalg/vector.py
@@ -1,4 +1,4 @@
-from copy import deepcopy as dcopy
+from copy import copy, deepcopy as dcopy
 
 from numpy import ndarray
 import numbers
@@ -204,9 +204,9 @@ class Vector(AbstractTensor):
         argument `deepcopy` (default is False).
         """
         if deep:
-            return self.__class__(dcopy(self.array), name=name)
+            return dcopy(self)
         else:
-            return self.__class__(self.array, name=name)
+            return copy(self)
 
     def deepcopy(self, name: str = None) -> "Vector":
         """
-- 
2.43.0


From c7c038f622b7a3aa13005cfc845f5078d05b8ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:49 +0000
Subject: [PATCH 07/70] fix: setting the axes of a frame read the raw buffer of
 the input and aliased it

---
 src/sigmaepsilon/math/linalg/frame.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index 399d3a9..5904262 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -293,11 +293,11 @@ class ReferenceFrame(FrameLike):
         Sets the array of the frame.
         """
         if isinstance(value, np.ndarray):
-            buf = value
+            buf = np.array(value, dtype=float, order="C")
         else:
             if not issequence(value):
                 raise TypeError("'value' must be some kind of iterable")
-            buf = np.array(value).astype(float)
+            buf = np.array(value, dtype=float, order="C")
         value = self._array_cls_(shape=buf.shape, buffer=buf, dtype=buf.dtype)
         if value.shape == self._array.shape:
             if self._weakrefs and len(self._weakrefs) > 0:
-- 
2.43.0


From 44cdf40a98138b83fbd9f936fa33d5cd45d03b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:49 +0000
Subject: [PATCH 08/70] fix: a copied frame shared the tensor registry of the
 original

---
 src/sigmaepsilon/math/linalg/meta.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/sigmaepsilon/math/linalg/meta.py b/src/sigmaepsilon/math/linalg/meta.py
index 65ac6d2..020c250 100644
--- a/src/sigmaepsilon/math/linalg/meta.py
+++ b/src/sigmaepsilon/math/linalg/meta.py
@@ -231,6 +231,18 @@ class FrameLike(ArrayWrapper):
         super().__init__(*args, **kwargs)
         self._weakrefs = weakref.WeakValueDictionary()
 
+    def __copy__(self) -> "FrameLike":
+        return deepcopy(self)
+
+    def __deepcopy__(self, memo) -> "FrameLike":
+        result = self.__class__.__new__(self.__class__)
+        memo[id(self)] = result
+        for key, value in self.__dict__.items():
+            if key != "_weakrefs":
+                result.__dict__[key] = deepcopy(value, memo)
+        result._weakrefs = weakref.WeakValueDictionary()
+        return result
+
     @abstractmethod
     def dcm(self) -> ndarray: ...
 
-- 
2.43.0


From 74810b29f48c06b7c6b2fb0af04b4f495c320175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:49 +0000
Subject: [PATCH 09/70] fix: the signed volume of a left-handed frame was
 positive

---
 src/sigmaepsilon/math/linalg/frame.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index 5904262..4829c04 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -250,7 +250,7 @@ class ReferenceFrame(FrameLike):
         Returns the signed volume of the general parallelepiped described by the
         base vectors that make up the frame.
         """
-        return np.sqrt(np.linalg.det(self.Gram()))
+        return np.linalg.det(self.show())
 
     def dual(self) -> "ReferenceFrame":
         """
@@ -791,7 +791,7 @@ class CartesianFrame(RectangularFrame):
         Returns the signed volume of the general parallelepiped described by the
         base vectors that make up the frame.
         """
-        return 1.0
+        return np.sign(np.linalg.det(self.show()))
 
     def dual(self) -> ReferenceFrame:
         """
-- 
2.43.0


From 54063b4eca418e2cf4bd75cd5a56893871a08456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:49 +0000
Subject: [PATCH 10/70] fix: rectangular and cartesian frames accepted axes
 that are not

---
 src/sigmaepsilon/math/linalg/frame.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index 4829c04..f462a79 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -300,6 +300,7 @@ class ReferenceFrame(FrameLike):
             buf = np.array(value, dtype=float, order="C")
         value = self._array_cls_(shape=buf.shape, buffer=buf, dtype=buf.dtype)
         if value.shape == self._array.shape:
+            self._verify_axes(value)
             if self._weakrefs and len(self._weakrefs) > 0:
                 target = ReferenceFrame(value)
                 dcm = self.dcm(target=target)
@@ -310,6 +311,11 @@ class ReferenceFrame(FrameLike):
         else:
             raise ValueError("Mismatch in data dimensinons!")
 
+    def _verify_axes(self, axes: ndarray) -> None:
+        """
+        Ought to raise an exception if the axes are not acceptable for the class.
+        """
+
     def show(self, target: "ReferenceFrame" = None) -> ndarray:
         """
         Returns the components of the current frame in a target frame.
@@ -677,6 +683,10 @@ class RectangularFrame(ReferenceFrame):
         """
         return True
 
+    def _verify_axes(self, axes: ndarray) -> None:
+        if len(axes.shape) == 2 and not is_rectangular_frame(axes):
+            raise ValueError("The axes are not rectangular, check your input!")
+
     @property
     def is_independent(self) -> bool:
         """
@@ -766,6 +776,10 @@ class CartesianFrame(RectangularFrame):
                     self.axes
                 ), "This frame is not cartesian, check your input!"
 
+    def _verify_axes(self, axes: ndarray) -> None:
+        if len(axes.shape) == 2 and not is_orthonormal_frame(axes):
+            raise ValueError("The axes are not cartesian, check your input!")
+
     @property
     def is_rectangular(self) -> bool:
         """
-- 
2.43.0


From f2af4579570149ce5b566e51d03010afc8562afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:49 +0000
Subject: [PATCH 11/70] fix: the dual of a collection of vectors mixed up the
 components

---
 src/sigmaepsilon/math/linalg/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/vector.py b/src/sigmaepsilon/math/linalg/vector.py
index 0b5e857..fac148a 100644
--- a/src/sigmaepsilon/math/linalg/vector.py
+++ b/src/sigmaepsilon/math/linalg/vector.py
@@ -114,7 +114,7 @@ class Vector(AbstractTensor):
         """
         # NOTE Strictly this should be self.frame.Gram().T @ self.array,
         # but since the Gram matrix is symmetric, it's cheaper like this
-        a = self.frame.Gram() @ self.array
+        a = show_vector(self.frame.Gram(), self.array)
         return self.__class__(a, frame=self.frame.dual())
 
     def show(self, target: Frame = None, *, dcm: ndarray = None) -> ndarray:
-- 
2.43.0


From d0e114ed28790688b42bb2fee74a93a7c87d38d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:49 +0000
Subject: [PATCH 12/70] fix: collections of vectors could not be oriented

---
 src/sigmaepsilon/math/linalg/vector.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/vector.py b/src/sigmaepsilon/math/linalg/vector.py
index fac148a..6c1b59c 100644
--- a/src/sigmaepsilon/math/linalg/vector.py
+++ b/src/sigmaepsilon/math/linalg/vector.py
@@ -164,7 +164,7 @@ class Vector(AbstractTensor):
         """
         if not isinstance(dcm, ndarray):
             fcls = self.__class__._frame_cls_
-            dcm = fcls.eye(dim=len(self)).orient_new(*args, **kwargs).dcm()
+            dcm = fcls.eye(dim=self.array.shape[-1]).orient_new(*args, **kwargs).dcm()
             # self.array = dcm.T @ self._array
             self.array = show_vector(dcm.T, self.array)
             # self.array = np.linalg.inv(dcm) @ self._array
@@ -192,8 +192,8 @@ class Vector(AbstractTensor):
         :func:`orient`
         """
         fcls = self.__class__._frame_cls_
-        dcm = fcls.eye(dim=len(self)).orient_new(*args, **kwargs).dcm()
-        array = dcm.T @ self._array
+        dcm = fcls.eye(dim=self.array.shape[-1]).orient_new(*args, **kwargs).dcm()
+        array = show_vector(dcm.T, self.array)
         # FIXME check if inversion is necessary or not
         # array = np.linalg.inv(dcm) @ self._array
         return Vector(array, frame=self.frame)
-- 
2.43.0


From 7ab382eb2cb68edf9dff5be92853a8190956d7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:49 +0000
Subject: [PATCH 13/70] fix: dot product of a vector and a second order tensor
 depended on the frames

---
 src/sigmaepsilon/math/linalg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/utils.py b/src/sigmaepsilon/math/linalg/utils.py
index 6d0f17e..1a4f256 100644
--- a/src/sigmaepsilon/math/linalg/utils.py
+++ b/src/sigmaepsilon/math/linalg/utils.py
@@ -220,7 +220,7 @@ def dot(
             arr = (a.array @ b.show(a.frame.dual()).T).T
             result = b.__class__(arr, frame=a.frame)
         elif ra == 1 and rb == 2:
-            arr = (a.array.T @ b.show(a.frame.dual()).T).T
+            arr = a.array @ a.frame.Gram() @ b.show(a.frame)
             result = a.__class__(arr, frame=a.frame)
         elif ra == 2 and rb == 2:
             g = a.frame.Gram()
-- 
2.43.0


From 9ddfc2d3b454504f435e7dfc0da553351c09c258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:49 +0000
Subject: [PATCH 14/70] fix: cross product of vectors depended on the frames

---
 src/sigmaepsilon/math/linalg/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/utils.py b/src/sigmaepsilon/math/linalg/utils.py
index 1a4f256..3ebcc5f 100644
--- a/src/sigmaepsilon/math/linalg/utils.py
+++ b/src/sigmaepsilon/math/linalg/utils.py
@@ -315,8 +315,10 @@ def cross(
         ra, rb = a.rank, b.rank
         result = None
         if ra == 1 and rb == 1:
-            arr = np.cross(a.array, b.show(a.frame), axis=0)
-            result = a.__class__(arr, frame=a.frame)
+            arr = np.cross(a.show(), b.show())
+            ambient = a.__class__._frame_cls_(dim=arr.shape[-1])
+            result = a.__class__(arr, frame=ambient)
+            result.frame = a.frame
         elif ra == 2 and rb == 1:
             arr = np.cross(a.show(), b.show(), axis=0)
             result = a.__class__(arr)
-- 
2.43.0


From e76b09da771ea0a1abba4683a0103f083018a29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:49 +0000
Subject: [PATCH 15/70] fix: det2x2 and det3x3 returned uninitialized memory

---
 src/sigmaepsilon/math/linalg/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/utils.py b/src/sigmaepsilon/math/linalg/utils.py
index 3ebcc5f..90c829f 100644
--- a/src/sigmaepsilon/math/linalg/utils.py
+++ b/src/sigmaepsilon/math/linalg/utils.py
@@ -703,9 +703,9 @@ def ATBAw(A: ndarray, B: ndarray, w: float = 1.0) -> ndarray:
     return w * (A.T @ B @ A)
 
 
-@guv(["(f8[:, :], f8)"], "(n, n) -> ()", nopython=True, cache=__cache)
+@guv(["(f8[:, :], f8[:])"], "(n, n) -> ()", nopython=True, cache=__cache)
 def det3x3(A, res):
-    res = (
+    res[0] = (
         A[0, 0] * A[1, 1] * A[2, 2]
         - A[0, 0] * A[1, 2] * A[2, 1]
         - A[0, 1] * A[1, 0] * A[2, 2]
@@ -715,9 +715,9 @@ def det3x3(A, res):
     )
 
 
-@guv(["(f8[:, :], f8)"], "(n, n) -> ()", nopython=True, cache=__cache)
+@guv(["(f8[:, :], f8[:])"], "(n, n) -> ()", nopython=True, cache=__cache)
 def det2x2(A, res):
-    res = A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
+    res[0] = A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
 
 
 @njit(nogil=True, cache=__cache)
-- 
2.43.0


From 3322b34bbb3ab3c9045b8d415786f25488b2a97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:49 +0000
Subject: [PATCH 16/70] fix: fourth order tensors accessed memory out of bounds
 for dimensions other than 3

---
 src/sigmaepsilon/math/linalg/tr.py | 36 ++++++++++++++++--------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/tr.py b/src/sigmaepsilon/math/linalg/tr.py
index aae5901..f18e3d1 100644
--- a/src/sigmaepsilon/math/linalg/tr.py
+++ b/src/sigmaepsilon/math/linalg/tr.py
@@ -125,15 +125,16 @@ def _tr_3333_sym(array: Iterable, Q: ndarray) -> ndarray:
 
 @njit(nogil=True, parallel=False, fastmath=True, cache=__cache)
 def _tr_3333(array: ndarray, Q: ndarray) -> ndarray:
-    res = np.zeros((3, 3, 3, 3), dtype=array.dtype)
-    for p in prange(3):
-        for q in prange(3):
-            for r in prange(3):
-                for s in prange(3):
-                    for i in prange(3):
-                        for j in prange(3):
-                            for k in prange(3):
-                                for m in prange(3):
+    nD = Q.shape[-1]
+    res = np.zeros((nD, nD, nD, nD), dtype=array.dtype)
+    for p in prange(nD):
+        for q in prange(nD):
+            for r in prange(nD):
+                for s in prange(nD):
+                    for i in prange(nD):
+                        for j in prange(nD):
+                            for k in prange(nD):
+                                for m in prange(nD):
                                     res[i, j, k, m] += (
                                         Q[i, p]
                                         * Q[j, q]
@@ -146,14 +147,15 @@ def _tr_3333(array: ndarray, Q: ndarray) -> ndarray:
 
 @njit(nogil=True, parallel=False, fastmath=True, cache=__cache)
 def _tr_3333_out(array: ndarray, Q: ndarray, out: ndarray) -> ndarray:
-    for p in prange(3):
-        for q in prange(3):
-            for r in prange(3):
-                for s in prange(3):
-                    for i in prange(3):
-                        for j in prange(3):
-                            for k in prange(3):
-                                for m in prange(3):
+    nD = Q.shape[-1]
+    for p in prange(nD):
+        for q in prange(nD):
+            for r in prange(nD):
+                for s in prange(nD):
+                    for i in prange(nD):
+                        for j in prange(nD):
+                            for k in prange(nD):
+                                for m in prange(nD):
                                     out[i, j, k, m] += (
                                         Q[i, p]
                                         * Q[j, q]
-- 
2.43.0


From 7e5537d70bf4defa38bf44c409cc4177fb27f5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:01 +0000
Subject: [PATCH 17/70] fix: converting a frame to an array returned stale axes
 after a change

---
 src/sigmaepsilon/math/linalg/frame.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index f462a79..d23e6c6 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -308,6 +308,7 @@ class ReferenceFrame(FrameLike):
                     arr = v.show(dcm=dcm)
                     v.array = arr
             self._array = value
+            self.wrap(value)
         else:
             raise ValueError("Mismatch in data dimensinons!")
 
-- 
2.43.0


From 97a6d6627a0be5de2f39669b10f3eafd393f1315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:53 +0000
Subject: [PATCH 18/70] fix: Gauss-Jordan elimination returned infinities for
 singular matrices

---
 src/sigmaepsilon/math/linalg/solve.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/solve.py b/src/sigmaepsilon/math/linalg/solve.py
index 8e0054b..6ce1bb5 100644
--- a/src/sigmaepsilon/math/linalg/solve.py
+++ b/src/sigmaepsilon/math/linalg/solve.py
@@ -203,10 +203,10 @@ def _GaussJordan(
                 B[iROW] -= A[iROW, iEQ] * presc_val[iEQ]
                 A[iROW, iEQ] = 0.0
         else:
+            pivot = A[iEQ, iEQ]
+            if abs(pivot) < 1e-12:
+                raise Exception("The matrix is singular!")
             if iEQ < nEQ - 1:
-                pivot = A[iEQ, iEQ]
-                if abs(pivot) < 1e-12:
-                    raise Exception("The matrix is singular!")
                 for iROW in range(iEQ + 1, nEQ):
                     factor = A[iROW, iEQ] / pivot
                     if abs(factor) < 1e-12:
-- 
2.43.0


From 951ba339766b4a2b6215ccf1109936a8d3beca13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:53 +0000
Subject: [PATCH 19/70] fix: elimination methods reported integer matrices as
 singular

---
 src/sigmaepsilon/math/linalg/solve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/solve.py b/src/sigmaepsilon/math/linalg/solve.py
index 6ce1bb5..f60b871 100644
--- a/src/sigmaepsilon/math/linalg/solve.py
+++ b/src/sigmaepsilon/math/linalg/solve.py
@@ -120,7 +120,7 @@ def linsolve(
                 res = backsub(*fnc(A, B, presc_bool, presc_val), presc_bool, presc_val)
             else:
                 res = backsub(
-                    *fnc(A.copy(), B.copy(), presc_bool, presc_val),
+                    *fnc(A.astype(float), B.astype(float), presc_bool, presc_val),
                     presc_bool,
                     presc_val
                 )
-- 
2.43.0


From 8a91b9537002323a364adae2f8d5b68621f35b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:53 +0000
Subject: [PATCH 20/70] fix: the inferred shape of a CSR matrix did not cover
 the column indices

---
 src/sigmaepsilon/math/linalg/sparse/csr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/sparse/csr.py b/src/sigmaepsilon/math/linalg/sparse/csr.py
index 5f568e0..952180c 100644
--- a/src/sigmaepsilon/math/linalg/sparse/csr.py
+++ b/src/sigmaepsilon/math/linalg/sparse/csr.py
@@ -149,7 +149,9 @@ class csr_matrix:
             self.indices = np.array(indices).astype(np.int32)
             self.indptr = np.array(indptr).astype(np.int32)
             if shape is None:
-                shape = get_shape_sp(indptr)
+                nR = len(self.indptr) - 1
+                nC = int(self.indices.max()) + 1 if len(self.indices) > 0 else 0
+                shape = (nR, nC)
             self.shape = shape
 
     def to_numpy(self) -> np.ndarray:
-- 
2.43.0


From 94c4fe5f54149e9b05b75d0c68d8d1ca0f82a679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:53 +0000
Subject: [PATCH 21/70] fix: indices_of_equal_rows missed or invented matches
 for integer inputs

---
 src/sigmaepsilon/math/utils.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/sigmaepsilon/math/utils.py b/src/sigmaepsilon/math/utils.py
index 4ab8234..061796a 100644
--- a/src/sigmaepsilon/math/utils.py
+++ b/src/sigmaepsilon/math/utils.py
@@ -390,11 +390,7 @@ def indices_of_equal_rows(x: ndarray, y: ndarray, tol=1e-12):
     square = nX == nY
     integer = isintegerarray(x) and isintegerarray(y)
     if integer:
-        if square:
-            inds = np.flatnonzero((x == y).all(1))
-            return inds, np.copy(inds)
-        else:
-            return indices_of_equal_rows_njit(x, y, 0)
+        return indices_of_equal_rows_njit(x, y, 0)
     else:
         if square:
             return indices_of_equal_rows_square_njit(x, y, tol)
@@ -404,7 +400,7 @@ def indices_of_equal_rows(x: ndarray, y: ndarray, tol=1e-12):
 
 @njit(nogil=True, parallel=True, cache=__cache)
 def indices_of_equal_rows_njit(x: ndarray, y: ndarray, tol: float = 1e-12):
-    R = np.zeros((x.shape[0], y.shape[0]), dtype=x.dtype)
+    R = np.zeros((x.shape[0], y.shape[0]), dtype=np.float64)
     for i in prange(R.shape[0]):
         for j in prange(R.shape[1]):
             R[i, j] = np.sum(np.abs(x[i] - y[j]))
@@ -418,7 +414,7 @@ def indices_of_equal_rows_square_njit(x: ndarray, y: ndarray, tol=1e-12):
         n = nx
     else:
         n = ny
-    R = np.zeros((n, n), dtype=x.dtype)
+    R = np.zeros((n, n), dtype=np.float64)
     for i in prange(n):
         for j in prange(n):
             R[i, j] = np.sum(np.abs(x[i] - y[j]))
-- 
2.43.0


From 212cbaaa918322f6e3346f82d5242e7a312f60cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:53 +0000
Subject: [PATCH 22/70] fix: count_cols_csr accessed memory out of bounds and
 returned garbage

---
 src/sigmaepsilon/math/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/utils.py b/src/sigmaepsilon/math/utils.py
index 061796a..beede9f 100644
--- a/src/sigmaepsilon/math/utils.py
+++ b/src/sigmaepsilon/math/utils.py
@@ -456,10 +456,10 @@ def count_cols_csr(indptr: ndarray, indices: ndarray) -> ndarray:
     --------
     :class:`~sigmaepsilon.math.linalg.sparse.csr.csr_matrix`
     """
-    n = len(indptr)
+    n = len(indptr) - 1
     res = np.zeros(n, dtype=indptr.dtype)
     for i in prange(n):
-        res[i] = indices[indptr[i + 1]] - indices[indptr[i]]
+        res[i] = indptr[i + 1] - indptr[i]
     return res
 
 
-- 
2.43.0


From 20e6483cd456276a8f7b5cd396d2b06d1928cd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:53 +0000
Subject: [PATCH 23/70] fix: to_range_1d truncated the results for integer
 inputs

---
 src/sigmaepsilon/math/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/utils.py b/src/sigmaepsilon/math/utils.py
index beede9f..25dbaba 100644
--- a/src/sigmaepsilon/math/utils.py
+++ b/src/sigmaepsilon/math/utils.py
@@ -493,7 +493,7 @@ def repeat_diagonal_2d(a: ndarray, N: int = 2) -> ndarray:
 
 @njit(nogil=True, parallel=True, cache=__cache)
 def _to_range_1d_(vals: ndarray, source: ndarray, target: ndarray):
-    res = np.zeros_like(vals)
+    res = np.zeros(vals.shape, dtype=np.float64)
     s0, s1 = source
     t0, t1 = target
     b = (t1 - t0) / (s1 - s0)
-- 
2.43.0


From cbc530c54fbcabb2b2e6e0271067bb92782cd511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:53 +0000
Subject: [PATCH 24/70] fix: bin centers were truncated for integer bin edges

---
 src/sigmaepsilon/math/hist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/hist.py b/src/sigmaepsilon/math/hist.py
index b74a9f2..02d4af9 100644
--- a/src/sigmaepsilon/math/hist.py
+++ b/src/sigmaepsilon/math/hist.py
@@ -17,7 +17,7 @@ def histogram(data, bins, *args, return_edges=False, **kwargs):
 
 @njit(nogil=True, parallel=True, cache=True)
 def bin_centers(bin_edges: np.ndarray):
-    res = np.zeros(bin_edges.shape[0] - 1, dtype=bin_edges.dtype)
+    res = np.zeros(bin_edges.shape[0] - 1, dtype=np.float64)
     for i in prange(res.shape[0]):
         res[i] = (bin_edges[i] + bin_edges[i + 1]) / 2
     return res
-- 
2.43.0


From 7c00be50e4eed06d52b5871ff8cc9257279ba79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:53 +0000
Subject: [PATCH 25/70] fix: level structures of disconnected graphs were
 computed in an infinite loop

---
 src/sigmaepsilon/math/graph/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sigmaepsilon/math/graph/utils.py b/src/sigmaepsilon/math/graph/utils.py
index 7702be0..dff996a 100644
--- a/src/sigmaepsilon/math/graph/utils.py
+++ b/src/sigmaepsilon/math/graph/utils.py
@@ -48,6 +48,8 @@ def rooted_level_structure(adj: csr_matrix, root: int = 0) -> Dict:
         for iN in range(nN):
             if nodes[iN] == 1:
                 levelset[iN] = 0
+        if not np.any(levelset == 1):
+            break  # the rest of the nodes are not reachable from the root
         level += 1
         rls[level] = np.where(levelset == 1)[0]
         nE += len(rls[level])
-- 
2.43.0


From 4723c8fee3946deba4007e437db60ffdda8d4b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:53 +0000
Subject: [PATCH 26/70] fix: k_nearest_neighbours ignored max_distance and the
 extra query arguments

---
 src/sigmaepsilon/math/knn.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/knn.py b/src/sigmaepsilon/math/knn.py
index 234184d..9266883 100644
--- a/src/sigmaepsilon/math/knn.py
+++ b/src/sigmaepsilon/math/knn.py
@@ -87,8 +87,9 @@ def k_nearest_neighbours(
         In the abscence of a usable backend.
 
     """
+    Y = X if Y is None else Y
     tree_kwargs = {} if tree_kwargs is None else tree_kwargs
-    query_kwargs = {} if query_kwargs is None else query_kwargs
+    query_kwargs = {} if query_kwargs is None else dict(query_kwargs)
     if backend == "scipy":
         tree = KD_scipy(X, leafsize=leaf_size, **tree_kwargs)
         max_distance = np.inf if max_distance is None else max_distance
@@ -101,7 +102,7 @@ def k_nearest_neighbours(
             )
             d, i = tree.query(Y, k=k, **query_kwargs)
         else:
-            d, i = tree.query(Y, k=k, workers=workers)
+            d, i = tree.query(Y, k=k, workers=workers, **query_kwargs)
     elif backend == "sklearn":  # pragma: no cover
         if not __has_sklearn__:
             raise ImportError("'sklearn' must be installed for this!")
-- 
2.43.0


From 60aa819847ebcfcfd63d810ff6d9114dbdc55503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:53 +0000
Subject: [PATCH 27/70] fix: MLSApproximator read out of bounds for missing
 neighbours and failed for k=1

---
 src/sigmaepsilon/math/approx/mls.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/approx/mls.py b/src/sigmaepsilon/math/approx/mls.py
index 23c3524..4642188 100644
--- a/src/sigmaepsilon/math/approx/mls.py
+++ b/src/sigmaepsilon/math/approx/mls.py
@@ -159,8 +159,14 @@ class MLSApproximator:
         self._factors = val
 
     def _calc_factors_and_neighbours(self, X_S: ndarray, X_T: ndarray) -> None:
-        self.neighbours = self._get_neighbours(X_S, X_T, **self._knn_config)
-        self.factors = np.ones_like(self.neighbours) / self.neighbours.shape[-1]
+        neighbours = self._get_neighbours(X_S, X_T, **self._knn_config)
+        neighbours = atleast2d(neighbours, back=True)
+        # missing neighbours are denoted by an index equal to the number of points
+        found = neighbours < len(X_S)
+        nearest = np.minimum(neighbours[:, :1], len(X_S) - 1)
+        self.neighbours = np.where(found, neighbours, nearest)
+        with np.errstate(invalid="ignore"):
+            self.factors = found / np.sum(found, axis=-1, keepdims=True)
 
     @staticmethod
     def _get_neighbours(
-- 
2.43.0


From 8afe58fbfddedabd4f51abdab876e85d419ea6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:53 +0000
Subject: [PATCH 28/70] fix: MLSApproximator truncated the averages of integer
 data

---
 src/sigmaepsilon/math/approx/mls.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/approx/mls.py b/src/sigmaepsilon/math/approx/mls.py
index 4642188..faeaa2a 100644
--- a/src/sigmaepsilon/math/approx/mls.py
+++ b/src/sigmaepsilon/math/approx/mls.py
@@ -14,7 +14,7 @@ __all__ = ["MLSApproximator"]
 def _approximate_2d(values: ndarray, neighbours: ndarray, factors: ndarray) -> ndarray:
     nT, nN = neighbours.shape
     nD = values.shape[-1]
-    res = np.zeros((nT, nD), dtype=values.dtype)
+    res = np.zeros((nT, nD), dtype=factors.dtype)
     for i in prange(nT):
         for j in prange(nD):
             for k in range(nN):
@@ -204,7 +204,7 @@ class MLSApproximator:
         if len(data.shape) == 2:
             res = _approximate_2d(data, neighbours, factors)
         else:
-            res = np.zeros((len(neighbours),) + data.shape[1:], dtype=data.dtype)
+            res = np.zeros((len(neighbours),) + data.shape[1:], dtype=factors.dtype)
             _approximate_nd(data, neighbours, factors, out=res)
 
         return np.squeeze(res)
-- 
2.43.0


From 6db562fd03eaca55d2472ecc51f184245e18ccc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:53 +0000
Subject: [PATCH 29/70] fix: the second derivatives of the cubic weight
 function were zero at its core

---
 src/sigmaepsilon/math/approx/functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sigmaepsilon/math/approx/functions.py b/src/sigmaepsilon/math/approx/functions.py
index 887bd6a..2bbc308 100644
--- a/src/sigmaepsilon/math/approx/functions.py
+++ b/src/sigmaepsilon/math/approx/functions.py
@@ -184,7 +184,7 @@ class CubicWeightFunction(MLSWeightFunction):
         rX = abs(difX) / dmX
 
         if abs(difX) < 1e-12:
-            drdX = 0
+            drdX = 1 / dmX
         else:
             drdX = (difX / abs(difX)) / dmX
 
@@ -217,12 +217,12 @@ class CubicWeightFunction(MLSWeightFunction):
         rY = abs(difY) / dmY
 
         if abs(difX) < 1e-12:
-            drdX = 0
+            drdX = 1 / dmX
         else:
             drdX = (difX / abs(difX)) / dmX
 
         if abs(difY) < 1e-12:
-            drdY = 0
+            drdY = 1 / dmY
         else:
             drdY = (difY / abs(difY)) / dmY
 
-- 
2.43.0


From 7cd25cae1fd430375cd72e2bde0ceb272c754200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:53 +0000
Subject: [PATCH 30/70] fix: the derivatives of the singular weight function
 were all zero

---
 src/sigmaepsilon/math/approx/functions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/approx/functions.py b/src/sigmaepsilon/math/approx/functions.py
index 2bbc308..1804b05 100644
--- a/src/sigmaepsilon/math/approx/functions.py
+++ b/src/sigmaepsilon/math/approx/functions.py
@@ -150,10 +150,13 @@ class SingularWeightFunction(MLSWeightFunction):
         return 1 / (norm(np.subtract(self.core, x)) ** 2 + self.eps**2)
 
     def gradient(self, x: Iterable[Number]) -> ndarray:
-        return np.zeros(self.dimension, dtype=float)
+        d = np.subtract(self.core, x)
+        return -2 * d * self.value(x) ** 2
 
     def Hessian(self, x: Iterable[Number]) -> ndarray:
-        return np.zeros((self.dimension, self.dimension), dtype=float)
+        d = np.subtract(self.core, x)
+        w = self.value(x)
+        return 8 * w**3 * np.outer(d, d) - 2 * w**2 * np.eye(len(d))
 
 
 class CubicWeightFunction(MLSWeightFunction):
-- 
2.43.0


From ef29297b2ae88c3f11c61ff2f83bb0b04f8c4342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:54 +0000
Subject: [PATCH 31/70] fix: the optimal value was off if the objective lists
 the variables in another order

---
 src/sigmaepsilon/math/optimize/lp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/optimize/lp.py b/src/sigmaepsilon/math/optimize/lp.py
index a40c1f6..71ee6e6 100644
--- a/src/sigmaepsilon/math/optimize/lp.py
+++ b/src/sigmaepsilon/math/optimize/lp.py
@@ -326,5 +326,6 @@ class LinearProgrammingProblem:
         _kwargs["method"] = method
         res = linprog(c, **_kwargs)
         if res.success:
-            res.fun = self.obj(res.x)
+            values = dict(zip(self.variables, res.x))
+            res.fun = self.obj(np.array([values[v] for v in self.obj.variables]))
         return res
-- 
2.43.0


From 8366a15277072bb1f10a16a2d434e2d351f15f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:54 +0000
Subject: [PATCH 32/70] fix: the genetic algorithm failed with elitism turned
 off

---
 src/sigmaepsilon/math/optimize/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/optimize/ga.py b/src/sigmaepsilon/math/optimize/ga.py
index e58f7eb..1f5b3a1 100644
--- a/src/sigmaepsilon/math/optimize/ga.py
+++ b/src/sigmaepsilon/math/optimize/ga.py
@@ -557,7 +557,7 @@ class GeneticAlgorithm:
         assert fitness is not None, "No available fitness data detected."
 
         if self.elitism is None:
-            return [], list(range(self.nPop))
+            return np.array([], dtype=int), np.arange(self.nPop)
 
         if self.elitism is not None:
             argsort = np.argsort(fitness)
-- 
2.43.0


From 3f107c262eee6f5d381414f3590214580ff1dcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:54 +0000
Subject: [PATCH 33/70] fix: a population of four had no offspring

---
 src/sigmaepsilon/math/optimize/ga.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/optimize/ga.py b/src/sigmaepsilon/math/optimize/ga.py
index 1f5b3a1..5665e98 100644
--- a/src/sigmaepsilon/math/optimize/ga.py
+++ b/src/sigmaepsilon/math/optimize/ga.py
@@ -597,13 +597,13 @@ class GeneticAlgorithm:
         assert n % 2 == 0, "'n' must be a multiple of 2"
         pool = np.full(n, True)
         nPool = n
-        while nPool > 2:
+        while nPool > 0:
             where = np.argwhere(pool == True).flatten()
-            nPool = len(where)
             pair = np.random.choice(where, 2, replace=False)
             parent1 = genotypes[pair[0]]
             parent2 = genotypes[pair[1]]
             pool[pair] = False
+            nPool -= 2
             yield parent1, parent2
 
     @abstractmethod
-- 
2.43.0


From daeaa41e22f609e9ede2eb756a9703e1faae1260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:15 +0000
Subject: [PATCH 34/70] fix: constraints with unknown operators were dropped or
 treated as upper bounds

---
 src/sigmaepsilon/math/optimize/lp.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sigmaepsilon/math/optimize/lp.py b/src/sigmaepsilon/math/optimize/lp.py
index 71ee6e6..4a38552 100644
--- a/src/sigmaepsilon/math/optimize/lp.py
+++ b/src/sigmaepsilon/math/optimize/lp.py
@@ -162,6 +162,9 @@ class LinearProgrammingProblem:
                 if not constraint.is_symbolic:
                     raise ValueError("The constraints must be symbolic!")
 
+                if not isinstance(constraint, (Equality, InEquality)):
+                    raise TypeError("The constraints must be equalities or inequalities!")
+
                 self.constraints.append(constraint)
                 _variables += constraint.variables
             else:
@@ -263,6 +266,10 @@ class LinearProgrammingProblem:
                     b_ub_adjustment = -SMALLNUM
                 elif ieq.op == Relations.lt:
                     b_ub_adjustment = -SMALLNUM
+                elif ieq.op != Relations.le:
+                    raise ValueError(
+                        "The operator of an inequality constraint must be specified by a string!"
+                    )
 
                 if self._sparsify:
                     for j, x_ in enumerate(self.variables):
-- 
2.43.0


From 18809297430fbbd159c4e2e465647efd0482281c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:09 +0000
Subject: [PATCH 35/70] fix: a failed change of a frame left some of its
 tensors changed

The components of the tensors were overwritten one by one, so if one of them
could not be transformed, the ones before it were left with components that do
not belong to the (unchanged) axes. Likewise, an inplace operation that failed
after the tensors were moved to the new frame left them detached from theirs.
---
 src/sigmaepsilon/math/linalg/frame.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index d23e6c6..da4bbb3 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -39,11 +39,12 @@ def inplace_binary(
     new_axes = np.zeros_like(axes)
     bop(axes, other, out=(new_axes,))
     if rtype:
-        result = rtype(axes)
+        result = rtype(new_axes)
         tensors = list(obj._weakrefs.values())
+        for t in tensors:
+            t.show(result)  # raises before any of the tensors is moved
         for t in tensors:
             t.frame = result
-        result.axes = new_axes
     else:
         obj.axes = new_axes
         result = obj
@@ -304,8 +305,9 @@ class ReferenceFrame(FrameLike):
             if self._weakrefs and len(self._weakrefs) > 0:
                 target = ReferenceFrame(value)
                 dcm = self.dcm(target=target)
-                for v in self._weakrefs.values():
-                    arr = v.show(dcm=dcm)
+                # no tensor is touched before all of them are transformed
+                updates = [(v, v.show(dcm=dcm)) for v in self._weakrefs.values()]
+                for v, arr in updates:
                     v.array = arr
             self._array = value
             self.wrap(value)
-- 
2.43.0


From 13d9eb88cdb7c6959309edf9917d012d215097bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:49 +0000
Subject: [PATCH 36/70] fix: collections of frames and tensors of different
 sizes were read out of bounds

The kernels index the transformation matrices with the index of the tensor, so
with fewer matrices than tensors they read memory beyond the end.
---
 src/sigmaepsilon/math/linalg/tr.py    | 12 ++++++++++++
 src/sigmaepsilon/math/linalg/utils.py |  4 ++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/tr.py b/src/sigmaepsilon/math/linalg/tr.py
index f18e3d1..e78e4f3 100644
--- a/src/sigmaepsilon/math/linalg/tr.py
+++ b/src/sigmaepsilon/math/linalg/tr.py
@@ -4,14 +4,25 @@ import numpy as np
 from numpy import ndarray
 from numba import njit, prange
 
+from .exceptions import TensorShapeMismatchError
+
 __cache = True
 
 
+def _check_shapes(shape_arr: tuple, shape_Q: tuple, rank: int) -> None:
+    is_multi = len(shape_arr) > rank and len(shape_Q) == 3
+    if shape_arr[-1] != shape_Q[-1] or (is_multi and shape_arr[0] != shape_Q[0]):
+        raise TensorShapeMismatchError(
+            f"Components of shape {shape_arr} can't be transformed by {shape_Q}."
+        )
+
+
 def _tr_tensors2(arr: ndarray, Q: ndarray) -> ndarray:
     shape_arr = arr.shape
     shape_Q = Q.shape
     n_shape_arr = len(shape_arr)
     n_shape_Q = len(shape_Q)
+    _check_shapes(shape_arr, shape_Q, 2)
     if n_shape_arr == 2 and n_shape_Q == 2:
         return Q @ arr @ Q.T
     elif n_shape_arr == 3 and n_shape_Q == 2:
@@ -83,6 +94,7 @@ def _tr_tensors4x3(arr: ndarray, Q: ndarray) -> ndarray:
     shape_Q = Q.shape
     n_shape_arr = len(shape_arr)
     n_shape_Q = len(shape_Q)
+    _check_shapes(shape_arr, shape_Q, 4)
     if n_shape_arr == 4 and n_shape_Q == 2:
         return _tr_3333(arr, Q)
     elif n_shape_arr == 5 and n_shape_Q == 2:
diff --git a/src/sigmaepsilon/math/linalg/utils.py b/src/sigmaepsilon/math/linalg/utils.py
index 90c829f..b2e2346 100644
--- a/src/sigmaepsilon/math/linalg/utils.py
+++ b/src/sigmaepsilon/math/linalg/utils.py
@@ -375,7 +375,7 @@ def show_vector(dcm: ndarray, arr: ndarray) -> ndarray:
         return _show_vector(dcm, arr)  # dcm @ arr
     elif len(arr.shape) == 2 and len(dcm.shape) == 2:
         return _show_vectors(dcm, arr)  # dcm @ arr
-    elif len(arr.shape) == 2 and len(dcm.shape) == 3:
+    elif len(arr.shape) == 2 and len(dcm.shape) == 3 and len(arr) == len(dcm):
         return _show_vectors_multi(dcm, arr)  # dcm @ arr
     else:
         msg = (
@@ -391,7 +391,7 @@ def show_frame(dcm: ndarray, arr: ndarray) -> ndarray:
         return _show_frame(dcm, arr)  # dcm @ arr
     elif len(arr.shape) == 3 and len(dcm.shape) == 2:
         return _show_frames(dcm, arr)  # dcm @ arr
-    elif len(arr.shape) == 3 and len(dcm.shape) == 3:
+    elif len(arr.shape) == 3 and len(dcm.shape) == 3 and len(arr) == len(dcm):
         return _show_frames_multi(dcm, arr)  # dcm @ arr
     else:
         msg = (
-- 
2.43.0


From ab640b50ab6e80abdbdbd634b0b93c9d21b99b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:58 +0000
Subject: [PATCH 37/70] fix: points on a segment were undefined if its ends
 coincide

The direction of the segment was normalized although it is not needed, which
is a division by zero for segments of zero length.
---
 src/sigmaepsilon/math/linalg/utils.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/utils.py b/src/sigmaepsilon/math/linalg/utils.py
index b2e2346..7c51991 100644
--- a/src/sigmaepsilon/math/linalg/utils.py
+++ b/src/sigmaepsilon/math/linalg/utils.py
@@ -659,12 +659,10 @@ def inv_sym_3x3(m: Matrix, as_adj_det=False) -> Matrix:
 def vpath(p1: ndarray, p2: ndarray, n: int) -> ndarray:
     nD = len(p1)
     dist = p2 - p1
-    length = np.linalg.norm(dist)
-    s = np.linspace(0, length, n)
+    s = np.linspace(0, 1, n)
     res = np.zeros((n, nD), dtype=p1.dtype)
-    d = dist / length
     for i in prange(n):
-        res[i] = p1 + s[i] * d
+        res[i] = p1 + s[i] * dist
     return res
 
 
@@ -859,11 +857,7 @@ def norm2d(A) -> ndarray:
 
 @njit(nogil=True, parallel=True, cache=__cache)
 def _linspace(p0: ndarray, p1: ndarray, N):
-    s = p1 - p0
-    L = np.linalg.norm(s)
-    n = s / L
-    djac = L / (N - 1)
-    step = n * djac
+    step = (p1 - p0) / (N - 1)
     res = np.zeros((N, p0.shape[0]))
     res[0] = p0
     for i in prange(1, N - 1):
-- 
2.43.0


From dbadfdc380e22ad49f21fa018ac461b7e878ac6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:18 +0000
Subject: [PATCH 38/70] fix: the scalar core of a weight function was replaced
 by zero or left unusable

---
 src/sigmaepsilon/math/approx/functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sigmaepsilon/math/approx/functions.py b/src/sigmaepsilon/math/approx/functions.py
index 1804b05..b7566f9 100644
--- a/src/sigmaepsilon/math/approx/functions.py
+++ b/src/sigmaepsilon/math/approx/functions.py
@@ -16,7 +16,7 @@ class MLSWeightFunction(Function):
     def __init__(
         self,
         *,
-        core: int | Iterable[Number] | ndarray | None = None,
+        core: Number | Iterable[Number] | ndarray | None = None,
         supportdomain: Iterable[Number] | None = None,
         sd: Iterable[Number] | None = None,
         **kwargs,
@@ -28,9 +28,9 @@ class MLSWeightFunction(Function):
             if isinstance(core, Iterable):
                 core = np.array(core)
                 dim = core.shape[0]
-            elif isinstance(core, int):
+            elif isinstance(core, Number):
                 dim = 1
-                core = np.zeros([dim])
+                core = np.array([core])
         else:
             dim = core.shape[0]
 
-- 
2.43.0


From ce82f50a58f6e7ba4a2a9e0ca9a5c6481e12cdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:36 +0000
Subject: [PATCH 39/70] fix: substitution into a function left the rest of its
 variables unusable, mixed up their order or was ignored

---
 src/sigmaepsilon/math/function/function.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/function/function.py b/src/sigmaepsilon/math/function/function.py
index 0feb7e2..b5e60e5 100644
--- a/src/sigmaepsilon/math/function/function.py
+++ b/src/sigmaepsilon/math/function/function.py
@@ -356,8 +356,16 @@ class Function(MetaFunction):
         if not self.is_symbolic:
             raise TypeError("This is exclusive to symbolic functions.")
 
-        expr = substitute(self.expr, values, variables, as_string=self.from_str)
-        kwargs = self._sympy_to_func(expr=expr, variables=variables)
+        # the variables may be given by their name
+        own = {str(v): v for v in self.variables}
+        if variables is None:
+            variables = list(self.variables)
+        else:
+            variables = [own.get(str(v), v) for v in variables]
+
+        expr = substitute(self.expr, values, variables)
+        remaining = [v for v in self.variables if v not in variables]
+        kwargs = self._sympy_to_func(expr=expr, variables=remaining or variables)
 
         if not inplace:
             return Function(None, None, None, **kwargs)
-- 
2.43.0


From 787d3921297704c9ed990f8661f421c4dfbb2a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:25 +0000
Subject: [PATCH 40/70] fix: the linearity of the zero function could not be
 queried

---
 src/sigmaepsilon/math/function/function.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/sigmaepsilon/math/function/function.py b/src/sigmaepsilon/math/function/function.py
index b5e60e5..b1efb94 100644
--- a/src/sigmaepsilon/math/function/function.py
+++ b/src/sigmaepsilon/math/function/function.py
@@ -4,7 +4,6 @@ import warnings
 
 from sympy import Expr, degree, latex
 from sympy.core.numbers import One
-import numpy as np
 
 from sigmaepsilon.core.kwargtools import getasany
 
@@ -234,9 +233,8 @@ class Function(MetaFunction):
         Returns `True` if the function is at most linear in all of its variables.
         """
         if self.is_symbolic:
-            return all(
-                np.array([degree(self.expr, v) for v in self.variables], dtype=int) <= 1
-            )
+            # NOTE the degree of the zero polynomial is minus infinity
+            return all(bool(degree(self.expr, v) <= 1) for v in self.variables)
         else:
             return self.f2 is None
 
-- 
2.43.0


From bf1ffcf02cb7ec29e6381466e98bc6424a4be7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:32 +0000
Subject: [PATCH 41/70] fix: relations with '!=' were turned into an equality
 of a factorial

---
 src/sigmaepsilon/math/function/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sigmaepsilon/math/function/utils.py b/src/sigmaepsilon/math/function/utils.py
index 00912b1..f6677e9 100644
--- a/src/sigmaepsilon/math/function/utils.py
+++ b/src/sigmaepsilon/math/function/utils.py
@@ -15,6 +15,10 @@ def parse_expression(expression: str) -> tuple[str, str, str]:
     ('x', '<=', '2')
 
     """
+    # '!=' is not supported, and would be parsed as an equality of a factorial
+    if "!=" in expression:
+        raise ValueError(f"Invalid expression: '{expression}'")
+
     # Regular expression to match the pattern (left side, operator, right side)
     pattern = r"(.+?)\s*(<=|>=|<|>|=)\s*(.+)"
 
-- 
2.43.0


From 05d8bd94b00fc0c32e5a5815ea6e3fa3859fe3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:29 +0000
Subject: [PATCH 42/70] fix: matrixform left zero dimensional arrays as they
 were

---
 src/sigmaepsilon/math/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/utils.py b/src/sigmaepsilon/math/utils.py
index 25dbaba..3cd83ed 100644
--- a/src/sigmaepsilon/math/utils.py
+++ b/src/sigmaepsilon/math/utils.py
@@ -163,8 +163,8 @@ def matrixform(a: Union[numbers.Number, Iterable]) -> ndarray:
         a = np.array(a)
     size = len(a.shape)
     assert size <= 2, "Input array must be at most 2 dimensional."
-    if size == 1:
-        nV, nC = len(a), 1
+    if size < 2:
+        nV, nC = a.size, 1
         return a.reshape(nV, nC)
     return a
 
-- 
2.43.0


From 19ec49d38cb39547354e2c2a1fee9eec7aa1c522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:10 +0000
Subject: [PATCH 43/70] fix: tiling integer arrays with fractional steps
 truncated the steps

---
 src/sigmaepsilon/math/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/utils.py b/src/sigmaepsilon/math/utils.py
index 3cd83ed..cf3e0f8 100644
--- a/src/sigmaepsilon/math/utils.py
+++ b/src/sigmaepsilon/math/utils.py
@@ -366,7 +366,7 @@ def tile(a: ndarray, da: ndarray, N: int = 1) -> ndarray:
            [[ 2, -2]]])
 
     """
-    res = np.zeros((N, a.shape[0], a.shape[1]), dtype=a.dtype)
+    res = np.zeros((N, a.shape[0], a.shape[1]), dtype=(a + da).dtype)
     for i in prange(N):
         res[i, :, :] = a + i * da
     return res
@@ -375,7 +375,7 @@ def tile(a: ndarray, da: ndarray, N: int = 1) -> ndarray:
 @njit(nogil=True, parallel=True, cache=__cache)
 def tile1d(a: ndarray, da: ndarray, N=1) -> ndarray:
     M = a.shape[0]
-    res = np.zeros(N * M, dtype=a.dtype)
+    res = np.zeros(N * M, dtype=(a + da).dtype)
     for i in prange(N):
         res[i * M : (i + 1) * M] = a + i * da
     return res
-- 
2.43.0


From ddf65f229db101336873c7e02e07049c82912412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:08 +0000
Subject: [PATCH 44/70] fix: float and integer arrays were only recognized in
 double precision

---
 src/sigmaepsilon/math/logical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/logical.py b/src/sigmaepsilon/math/logical.py
index 71348a8..c406b34 100644
--- a/src/sigmaepsilon/math/logical.py
+++ b/src/sigmaepsilon/math/logical.py
@@ -16,14 +16,14 @@ def isfloatarray(a: ndarray) -> bool:
     """
     Returns `True` if `a` is a float array.
     """
-    return np.issubdtype(a.dtype, float)
+    return np.issubdtype(a.dtype, np.floating)
 
 
 def isintegerarray(a: ndarray) -> bool:
     """
     Returns `True` if `a` is an integer array.
     """
-    return np.issubdtype(a.dtype, int)
+    return np.issubdtype(a.dtype, np.integer)
 
 
 def isintarray(a: ndarray) -> bool:
-- 
2.43.0


From dfa4816e26f26aac12f833678c68ba4a027309f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:59 +0000
Subject: [PATCH 45/70] fix: eliminations skipped small multiples of the pivot
 row regardless of units

---
 src/sigmaepsilon/math/linalg/solve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/solve.py b/src/sigmaepsilon/math/linalg/solve.py
index f60b871..f272b35 100644
--- a/src/sigmaepsilon/math/linalg/solve.py
+++ b/src/sigmaepsilon/math/linalg/solve.py
@@ -184,7 +184,7 @@ def _Jordan(
                 raise Exception("The matrix is singular!")
             for iROW in range(nEQ):
                 factor = A[iROW, iEQ] / pivot
-                if iROW == iEQ or abs(factor) < 1e-12:
+                if iROW == iEQ or factor == 0.0:
                     continue
                 for iCOL in range(nEQ):
                     A[iROW, iCOL] -= factor * A[iEQ, iCOL]
@@ -209,7 +209,7 @@ def _GaussJordan(
             if iEQ < nEQ - 1:
                 for iROW in range(iEQ + 1, nEQ):
                     factor = A[iROW, iEQ] / pivot
-                    if abs(factor) < 1e-12:
+                    if factor == 0.0:
                         continue
                     for iCOL in range(nEQ):
                         A[iROW, iCOL] -= factor * A[iEQ, iCOL]
-- 
2.43.0


From dc93e2bc5f9838ad0661cd2980460d60a44b83cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:49 +0000
Subject: [PATCH 46/70] fix: rectangular frames with vanishing axes claimed to
 be independent

---
 src/sigmaepsilon/math/linalg/frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index da4bbb3..49dc054 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -696,7 +696,7 @@ class RectangularFrame(ReferenceFrame):
         Returns True if the base vectors that make up the frame are linearly
         independent.
         """
-        return True
+        return bool(np.all(np.any(self.show() != 0, axis=-1)))
 
     def __mul__(self, other) -> ReferenceFrame:
         rtype = RectangularFrame if isinstance(other, (float, int)) else ReferenceFrame
-- 
2.43.0


From d02588d5ebdc3fa1e352b501ed87805be169a1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:12 +0000
Subject: [PATCH 47/70] fix: default frames of collections with several data
 axes had the wrong dimension

---
 src/sigmaepsilon/math/linalg/meta.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/meta.py b/src/sigmaepsilon/math/linalg/meta.py
index 020c250..0ae0172 100644
--- a/src/sigmaepsilon/math/linalg/meta.py
+++ b/src/sigmaepsilon/math/linalg/meta.py
@@ -325,10 +325,7 @@ class TensorLike(ArrayWrapper):
                 )
 
             arr = args[0]
-            if bulk:
-                frame = _new_and_init_(self.__class__._frame_cls_, dim=arr.shape[1])
-            else:
-                frame = _new_and_init_(self.__class__._frame_cls_, dim=arr.shape[0])
+            frame = _new_and_init_(self.__class__._frame_cls_, dim=arr.shape[-1])
             cls_params["frame"] = frame
 
         kwargs["cls_params"] = cls_params
-- 
2.43.0


From 290b67e182ae3ecf2bc960883d5aae111135221b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:57 +0000
Subject: [PATCH 48/70] fix: tensors were created in frames of another
 dimension or number

---
 src/sigmaepsilon/math/linalg/meta.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/meta.py b/src/sigmaepsilon/math/linalg/meta.py
index 0ae0172..005f0a7 100644
--- a/src/sigmaepsilon/math/linalg/meta.py
+++ b/src/sigmaepsilon/math/linalg/meta.py
@@ -335,8 +335,6 @@ class TensorLike(ArrayWrapper):
             frame_cls = self.__class__._frame_cls_
             self._array._frame = _new_and_init_(frame_cls, dim=self._array.shape)
 
-        self.frame._register_tensorial_(self)
-
         self._bulk = bulk
 
         if rank is not None:
@@ -347,6 +345,16 @@ class TensorLike(ArrayWrapper):
         else:
             self._rank = None
 
+        shape, shape_axes = self._array.shape, self.frame.axes.shape
+        if shape[-1:] != shape_axes[-1:] or (
+            len(shape_axes) == 3 and self.is_bulk() and shape[0] != shape_axes[0]
+        ):
+            raise ValueError(
+                f"Components of shape {shape} don't fit a frame of shape {shape_axes}."
+            )
+
+        self.frame._register_tensorial_(self)
+
     def __deepcopy__(self, memo):
         return self.__copy__(memo)
 
-- 
2.43.0


From ef5c8e0481ef368df7e6c499aa73623a10aff056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:57 +0000
Subject: [PATCH 49/70] fix: universal functions with several results returned
 a generator for frames

---
 src/sigmaepsilon/math/linalg/frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index 49dc054..d2e99aa 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -607,7 +607,7 @@ class ReferenceFrame(FrameLike):
 
         if isinstance(result, tuple):
             # multiple return values
-            return (ReferenceFrame(x) for x in result)
+            return tuple(ReferenceFrame(x) for x in result)
         elif method == "at":
             # no return value
             return None
-- 
2.43.0


From 06f689161715ca36e28f23b079d99c8bada4fba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:45 +0000
Subject: [PATCH 50/70] fix: ufunc.at changed the axes of a frame behind its
 tensors

---
 src/sigmaepsilon/math/linalg/frame.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index d2e99aa..accdfa0 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -572,6 +572,10 @@ class ReferenceFrame(FrameLike):
                 msg = f"Invalid type {type(x)} encountered at {ufunc}."
                 raise TypeError(msg)
 
+        if method == "at":
+            # the first operand is modified inplace
+            out = inputs[:1]
+
         # mark reference frames among outputs and create backup
         if out:
             refs = []
@@ -591,14 +595,17 @@ class ReferenceFrame(FrameLike):
         # Defer to the implementation of the ufunc on unwrapped values.
         inputs = tuple(x._array if isinstance(x, ArrayWrapper) else x for x in inputs)
         if out:
-            kwargs["out"] = tuple(
+            out_ = tuple(
                 np.copy(x._array) if isinstance(x, ArrayWrapper) else x for x in out
             )
+            if method == "at":
+                inputs = out_ + inputs[1:]
+            else:
+                kwargs["out"] = out_
         result = getattr(ufunc, method)(*inputs, **kwargs)
 
         # modify registered tensorial instances of refrence frames
         if out:
-            out_ = kwargs["out"]
             for i, x in enumerate(out):
                 if refs[i]:
                     out[i].axes = out_[i]
-- 
2.43.0


From 89329cd0593024496047ab85f112b8b3de4a17fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:44 +0000
Subject: [PATCH 51/70] fix: universal functions writing into a frame returned
 another frame

---
 src/sigmaepsilon/math/linalg/frame.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index accdfa0..9715635 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -614,13 +614,16 @@ class ReferenceFrame(FrameLike):
 
         if isinstance(result, tuple):
             # multiple return values
-            return tuple(ReferenceFrame(x) for x in result)
+            return tuple(
+                out[i] if out and refs[i] else ReferenceFrame(x)
+                for i, x in enumerate(result)
+            )
         elif method == "at":
             # no return value
             return None
         else:
             # one return value
-            return ReferenceFrame(result)
+            return out[0] if out and refs[0] else ReferenceFrame(result)
 
     def copy(self, deep: bool = False, name: str = None) -> "ReferenceFrame":
         """
-- 
2.43.0


From 00c7f016d06f04c119691583c0212970abef683c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:25 +0000
Subject: [PATCH 52/70] fix: collections of fourth order tensors with several
 data axes could not be shown in a single frame

---
 src/sigmaepsilon/math/linalg/tr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sigmaepsilon/math/linalg/tr.py b/src/sigmaepsilon/math/linalg/tr.py
index e78e4f3..97949a3 100644
--- a/src/sigmaepsilon/math/linalg/tr.py
+++ b/src/sigmaepsilon/math/linalg/tr.py
@@ -99,6 +99,10 @@ def _tr_tensors4x3(arr: ndarray, Q: ndarray) -> ndarray:
         return _tr_3333(arr, Q)
     elif n_shape_arr == 5 and n_shape_Q == 2:
         return _tr_3333_multi3(arr, Q)
+    elif n_shape_arr > 5 and n_shape_Q == 2:
+        nX = np.prod(shape_arr[:-4], dtype=int)
+        res = _tr_3333_multi3(arr.reshape((nX,) + shape_arr[-4:]), Q)
+        return res.reshape(shape_arr)
     elif n_shape_arr == 5 and n_shape_Q == 3:
         return _tr_3333_multi(arr, Q)
     elif n_shape_arr == 6 and n_shape_Q == 3:
-- 
2.43.0


From 66cdaaba83f6d30b531adcaed862522c4658a83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:25 +0000
Subject: [PATCH 53/70] fix: products of collections of tensors are taken item
 by item

dot and cross combined the items of collections with each other (silently, if
there are as many items as dimensions).
---
 src/sigmaepsilon/math/linalg/utils.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/utils.py b/src/sigmaepsilon/math/linalg/utils.py
index 7c51991..0dca966 100644
--- a/src/sigmaepsilon/math/linalg/utils.py
+++ b/src/sigmaepsilon/math/linalg/utils.py
@@ -215,16 +215,19 @@ def dot(
                 raise LinalgOperationInputError(
                     "Parameter 'out' is not allowed with tensors."
                 )
-            return np.dot(a.show(), b.show())
+            return np.einsum("...i,...i->...", a.show(), b.show())
         elif ra == 2 and rb == 1:
-            arr = (a.array @ b.show(a.frame.dual()).T).T
+            arr = np.einsum("...ij,...j->...i", a.array, b.show(a.frame.dual()))
             result = b.__class__(arr, frame=a.frame)
         elif ra == 1 and rb == 2:
-            arr = a.array @ a.frame.Gram() @ b.show(a.frame)
+            cov = np.einsum("...i,...ij->...j", a.array, a.frame.Gram())
+            arr = np.einsum("...i,...ij->...j", cov, b.show(a.frame))
             result = a.__class__(arr, frame=a.frame)
         elif ra == 2 and rb == 2:
             g = a.frame.Gram()
-            result = a.__class__(a.array @ g @ b.show(a.frame), frame=a.frame)
+            arr = a.array @ g @ b.show(a.frame)
+            bulk = True if len(arr.shape) > 2 else None
+            result = a.__class__(arr, frame=a.frame, bulk=bulk)
         else:
             if not axes:
                 msg = "The parameter 'axes' is required for tensor contraction of general tensors."
@@ -237,7 +240,12 @@ def dot(
             ib[ax_b] = ic
             command = "..." + "".join(ia) + "," + "..." + "".join(ib)
             arr = np.einsum(command, a.show(), b.show(), optimize="greedy")
-            result = a.__class__._from_any_input(arr)
+            bulk = True if len(arr.shape) > ra + rb - 2 else None
+            if bulk and a.__class__._rank_ != ra + rb - 2:
+                raise LinalgOperationInputError(
+                    "Collections of general tensors are not supported."
+                )
+            result = a.__class__._from_any_input(arr, bulk=bulk)
         if frame:
             result.frame = frame
         return result
@@ -320,11 +328,11 @@ def cross(
             result = a.__class__(arr, frame=ambient)
             result.frame = a.frame
         elif ra == 2 and rb == 1:
-            arr = np.cross(a.show(), b.show(), axis=0)
-            result = a.__class__(arr)
+            arr = np.cross(a.show(), b.show()[..., None], axis=-2)
+            result = a.__class__(arr, bulk=True if len(arr.shape) > 2 else None)
         elif ra == 1 and rb == 2:
-            arr = np.cross(a.show(), b.show(), axis=0)
-            result = b.__class__(arr)
+            arr = np.cross(a.show()[..., None], b.show(), axis=-2)
+            result = b.__class__(arr, bulk=True if len(arr.shape) > 2 else None)
         else:
             msg = (
                 "The cross product is not implemented",
-- 
2.43.0


From ca0413f45123d5003cba928aa1c20b8e93070bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:59 +0000
Subject: [PATCH 54/70] fix: Gram matrices of collections of cartesian frames

---
 src/sigmaepsilon/math/linalg/frame.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index 9715635..a7ac8ef 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -811,7 +811,9 @@ class CartesianFrame(RectangularFrame):
         """
         Returns the Gram-matrix of the frame.
         """
-        return np.eye(self.axes.shape[0])
+        shape = self.axes.shape
+        eye = np.eye(shape[-1])
+        return eye if len(shape) == 2 else repeat(eye, shape[0])
 
     def volume(self) -> float:
         """
-- 
2.43.0


From be53a9be24e0e0706c4aadfdc9027388c77c745b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:32 +0000
Subject: [PATCH 55/70] fix: matrices returned from compiled code hold no extra
 references

---
 src/sigmaepsilon/math/linalg/sparse/csr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sigmaepsilon/math/linalg/sparse/csr.py b/src/sigmaepsilon/math/linalg/sparse/csr.py
index 952180c..ce54ede 100644
--- a/src/sigmaepsilon/math/linalg/sparse/csr.py
+++ b/src/sigmaepsilon/math/linalg/sparse/csr.py
@@ -299,4 +299,6 @@ def box_csr(typ, val, c):  # pragma: no cover
     matrix_obj = c.pyapi.call_function_objargs(
         classobj, (data_obj, indices_obj, indptr_obj, shape_obj)
     )
+    for obj in [classobj, data_obj, indices_obj, indptr_obj, shape_obj]:
+        c.pyapi.decref(obj)
     return matrix_obj
-- 
2.43.0


From 2e9c0834e1086d42121d466100b63094437d9f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:02 +0000
Subject: [PATCH 56/70] fix: inverses and points of integer arrays are not
 truncated

---
 src/sigmaepsilon/math/linalg/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/utils.py b/src/sigmaepsilon/math/linalg/utils.py
index 0dca966..fa6b8aa 100644
--- a/src/sigmaepsilon/math/linalg/utils.py
+++ b/src/sigmaepsilon/math/linalg/utils.py
@@ -668,7 +668,7 @@ def vpath(p1: ndarray, p2: ndarray, n: int) -> ndarray:
     nD = len(p1)
     dist = p2 - p1
     s = np.linspace(0, 1, n)
-    res = np.zeros((n, nD), dtype=p1.dtype)
+    res = np.zeros((n, nD), dtype=np.float64)
     for i in prange(n):
         res[i] = p1 + s[i] * dist
     return res
@@ -728,7 +728,7 @@ def det2x2(A, res):
 
 @njit(nogil=True, cache=__cache)
 def inv2x2(A) -> ndarray:
-    res = np.zeros_like(A)
+    res = np.zeros(A.shape, dtype=np.float64)
     d = A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
     res[0, 0] = A[1, 1] / d
     res[1, 1] = A[0, 0] / d
-- 
2.43.0


From 8783299999990e4859c85a134bc37cbfad822aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:02 +0000
Subject: [PATCH 57/70] fix: reduction of integer systems, reported as singular

---
 src/sigmaepsilon/math/linalg/solve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/solve.py b/src/sigmaepsilon/math/linalg/solve.py
index f272b35..083b88e 100644
--- a/src/sigmaepsilon/math/linalg/solve.py
+++ b/src/sigmaepsilon/math/linalg/solve.py
@@ -156,7 +156,7 @@ def reduce(
             if inplace:
                 return fnc(A, B, presc_bool, presc_val)
             else:
-                return fnc(A.copy(), B.copy(), presc_bool, presc_val)
+                return fnc(A.astype(float), B.astype(float), presc_bool, presc_val)
         except Exception:
             raise LinAlgError("The matrix is singular!")
     else:
-- 
2.43.0


From 604ccde40cecc73f618c67222e90eca3056cdf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:19 +0000
Subject: [PATCH 58/70] fix: values substituted for variables refer to the
 original variables

---
 src/sigmaepsilon/math/function/symutils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/function/symutils.py b/src/sigmaepsilon/math/function/symutils.py
index 190ed39..ac17554 100644
--- a/src/sigmaepsilon/math/function/symutils.py
+++ b/src/sigmaepsilon/math/function/symutils.py
@@ -92,9 +92,13 @@ def substitute(
         variables = tuple(expr.free_symbols)
 
     if not as_string:
-        return expr.subs([(v, val) for v, val in zip(variables, values)])
+        return expr.subs(
+            [(v, val) for v, val in zip(variables, values)], simultaneous=True
+        )
     else:
-        return expr.subs([(str(v), val) for v, val in zip(variables, values)])
+        return expr.subs(
+            [(str(v), val) for v, val in zip(variables, values)], simultaneous=True
+        )
 
 
 def coefficients(
-- 
2.43.0


From 58b0889b273569bb53270501122c2af5e55679a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:44 +0000
Subject: [PATCH 59/70] fix: relations of a linear program need not mention all
 of its variables

---
 src/sigmaepsilon/math/optimize/lp.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/sigmaepsilon/math/optimize/lp.py b/src/sigmaepsilon/math/optimize/lp.py
index 4a38552..4126901 100644
--- a/src/sigmaepsilon/math/optimize/lp.py
+++ b/src/sigmaepsilon/math/optimize/lp.py
@@ -198,13 +198,12 @@ class LinearProgrammingProblem:
         n_x = len(self.variables)
 
         coeffs = self.obj.linear_coefficients(normalize=True)
-        c = np.array([coeffs[x_] for x_ in self.variables]).astype(float)
+        c = np.array([coeffs.get(x_, 0) for x_ in self.variables]).astype(float)
         if maximize:
             c *= -1
 
         A_ub, b_ub, A_eq, b_eq = 4 * [None]
 
-        x_zero = np.zeros((n_x,))
         SMALLNUM = np.nextafter(0, 1)
 
         if n_eq > 0:
@@ -223,15 +222,15 @@ class LinearProgrammingProblem:
                 coeffs = eq.linear_coefficients(normalize=True)
                 if self._sparsify:
                     for j, x_ in enumerate(self.variables):
-                        val = coeffs[x_]
+                        val = coeffs.get(x_, 0)
                         if val != 0:
                             A_eq_data.append(val)
                             A_eq_rows.append(i)
                             A_eq_cols.append(j)
                 else:
-                    A_eq[i] = [coeffs[x_] for x_ in self.variables]
+                    A_eq[i] = [coeffs.get(x_, 0) for x_ in self.variables]
 
-                b_eq[i] = -eq(x_zero)
+                b_eq[i] = -eq(np.zeros(len(eq.variables)))
 
             if self._sparsify:
                 A_eq = sparse.csr_matrix(
@@ -273,15 +272,20 @@ class LinearProgrammingProblem:
 
                 if self._sparsify:
                     for j, x_ in enumerate(self.variables):
-                        val = coeffs[x_] * A_ub_multiplier
+                        val = coeffs.get(x_, 0) * A_ub_multiplier
                         if val != 0:
                             A_ub_data.append(val)
                             A_ub_rows.append(i)
                             A_ub_cols.append(j)
                 else:
-                    A_ub[i] = [coeffs[x_] * A_ub_multiplier for x_ in self.variables]
+                    A_ub[i] = [
+                        coeffs.get(x_, 0) * A_ub_multiplier for x_ in self.variables
+                    ]
 
-                b_ub[i] = -ieq(x_zero) * b_ub_multiplier + b_ub_adjustment
+                b_ub[i] = (
+                    -ieq(np.zeros(len(ieq.variables))) * b_ub_multiplier
+                    + b_ub_adjustment
+                )
 
             if self._sparsify:
                 A_ub = sparse.csr_matrix(
-- 
2.43.0


From 242c08cd9171e7ae4cd2f0999a1b69ca284de294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:44 +0000
Subject: [PATCH 60/70] fix: variables missing from a linear program are
 refused instead of being dropped

---
 src/sigmaepsilon/math/optimize/lp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/optimize/lp.py b/src/sigmaepsilon/math/optimize/lp.py
index 4126901..ecdd527 100644
--- a/src/sigmaepsilon/math/optimize/lp.py
+++ b/src/sigmaepsilon/math/optimize/lp.py
@@ -176,7 +176,7 @@ class LinearProgrammingProblem:
             if not all([isinstance(v, Symbol) for v in variables]):
                 raise TypeError("All variables must be instances of `Symbol`!")
 
-            if not all([v in _variables for v in variables]):
+            if not set(variables) == _variables:
                 raise ValueError("Inconsistent variables provided!")
 
             self._variables = variables
-- 
2.43.0


From b092b4c8b31e0e3e1a2c1dbbee8293cffaa2247b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:23 +0000
Subject: [PATCH 61/70] fix: order of the variables of an expression depended
 on the hash seed of the process

---
 src/sigmaepsilon/math/function/symutils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/sigmaepsilon/math/function/symutils.py b/src/sigmaepsilon/math/function/symutils.py
index ac17554..220b625 100644
--- a/src/sigmaepsilon/math/function/symutils.py
+++ b/src/sigmaepsilon/math/function/symutils.py
@@ -32,8 +32,7 @@ def decode(
         expr = parse_expr(str_expr, evaluate=False)
 
     if not variables:
-        variables = []
-        variables = tuple(expr.free_symbols)
+        variables = tuple(sorted(expr.free_symbols, key=sy.default_sort_key))
     else:
         if not all([isinstance(v, (sy.Expr, sy.Symbol)) for v in variables]):
             variables = list(symbols(variables))
@@ -89,7 +88,7 @@ def substitute(
         will help you avoid this issue.
     """
     if variables is None:
-        variables = tuple(expr.free_symbols)
+        variables = tuple(sorted(expr.free_symbols, key=sy.default_sort_key))
 
     if not as_string:
         return expr.subs(
@@ -136,7 +135,7 @@ def coefficients(
     while in the second case, the constant term is viewed as the number 1 with coefficient -2.
     """
     if variables is None:
-        variables = tuple(expr.free_symbols)
+        variables = tuple(sorted(expr.free_symbols, key=sy.default_sort_key))
 
     d = dict({x: 0 for x in variables})
     d.update(expr.as_coefficients_dict())
-- 
2.43.0


From bf1b5ce92dc835ad1847c8304a6f26794b1dd6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:23 +0000
Subject: [PATCH 62/70] fix: optimum of the Rosenbrock function for other
 parameters

---
 src/sigmaepsilon/math/function/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/function/functions.py b/src/sigmaepsilon/math/function/functions.py
index e392f48..68d3a73 100644
--- a/src/sigmaepsilon/math/function/functions.py
+++ b/src/sigmaepsilon/math/function/functions.py
@@ -21,11 +21,11 @@ def Rosenbrock(a: float = 1, b: float = 100) -> TestMinFunction2D:
 
     a,b are constants, tipically a is set to 1 and  b is set to 100.
 
-    One global minimum : f(1, 1) = 0.
+    One global minimum : f(a, a^2) = 0.
     """
     str_expr = "(a-x)**2 + b*(y-x**2)**2"
     expr = substitute(sy.sympify(str_expr), [a, b], ["a", "b"])
-    return TestMinFunction2D(**symbolize(expr=expr), optimums=[(1.0, 1.0)])
+    return TestMinFunction2D(**symbolize(expr=expr), optimums=[(float(a), float(a**2))])
 
 
 def Himmelblau() -> TestMinFunction2D:
-- 
2.43.0


From 7d6295c360b8e9278e7d57a598caef2666a1f75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:23 +0000
Subject: [PATCH 63/70] fix: optimums of a test function are not lost if they
 are given after its text

---
 src/sigmaepsilon/math/function/testfunction.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/sigmaepsilon/math/function/testfunction.py b/src/sigmaepsilon/math/function/testfunction.py
index 16e46a4..669affc 100644
--- a/src/sigmaepsilon/math/function/testfunction.py
+++ b/src/sigmaepsilon/math/function/testfunction.py
@@ -15,7 +15,6 @@ class TestFunction(Function):
             if key == "optText":
                 assert isinstance(value, str)
                 self.optText = value
-                break
             elif key == "optimums":
                 assert isinstance(value, Iterable)
                 for v in value:
-- 
2.43.0


From ceff67ada2610fc823bea712cac9f31305efbded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:14 +0000
Subject: [PATCH 64/70] fix: genetic optimisation of functions without a given
 dimension

---
 src/sigmaepsilon/math/optimize/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/optimize/ga.py b/src/sigmaepsilon/math/optimize/ga.py
index 5665e98..176235d 100644
--- a/src/sigmaepsilon/math/optimize/ga.py
+++ b/src/sigmaepsilon/math/optimize/ga.py
@@ -196,7 +196,7 @@ class GeneticAlgorithm:
         super().__init__()
         self.fnc = fnc
         self.ranges = np.array(ranges)
-        self.dim = getattr(fnc, "dimension", self.ranges.shape[0])
+        self.dim = getattr(fnc, "dimension", None) or self.ranges.shape[0]
         self.length = length
 
         if odd(nPop):
-- 
2.43.0


From a5b6261d0fb893ff757c99dd0df67c00e9c0252a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:14 +0000
Subject: [PATCH 65/70] fix: genetic optimisation of constant expressions

---
 src/sigmaepsilon/math/optimize/ga.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/optimize/ga.py b/src/sigmaepsilon/math/optimize/ga.py
index 176235d..63236bc 100644
--- a/src/sigmaepsilon/math/optimize/ga.py
+++ b/src/sigmaepsilon/math/optimize/ga.py
@@ -474,7 +474,8 @@ class GeneticAlgorithm:
         try:
             phenotypes = self.phenotypes if phenotypes is None else phenotypes
             if self._is_symbolic_Function:
-                result = self.fnc(phenotypes.T)
+                # NOTE expressions without variables evaluate to a single number
+                result = self.fnc(phenotypes.T) + np.zeros(len(phenotypes))
             else:
                 result = np.array([self.fnc(x) for x in phenotypes], dtype=float)
             self.state.n_fev += len(phenotypes)
-- 
2.43.0


From 5af7df5fbec595964e81fc31446514cb5d351c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:29 +0000
Subject: [PATCH 66/70] fix: moving least squares accepts points given as a
 list

---
 src/sigmaepsilon/math/approx/ls.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sigmaepsilon/math/approx/ls.py b/src/sigmaepsilon/math/approx/ls.py
index 69dc37b..5127f98 100644
--- a/src/sigmaepsilon/math/approx/ls.py
+++ b/src/sigmaepsilon/math/approx/ls.py
@@ -22,6 +22,7 @@ def moving_least_squares(
     Moving least squares approximation. The usage is the same as for the
     :func:`~sigmaepsilon.math.approx.ls.weighted_least_squares` function.
     """
+    points = np.asarray(points)
     dim = 1 if len(points.shape) == 1 else points.shape[1]
 
     if not isMLSWeightFunction(w):
-- 
2.43.0


From 6d1cce3e55cdbcecc442cf1bf1971cc542e2af73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:16 +0000
Subject: [PATCH 67/70] fix: rectangular frames are recognised by angles,
 whatever the lengths of the base vectors

---
 src/sigmaepsilon/math/linalg/logical.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sigmaepsilon/math/linalg/logical.py b/src/sigmaepsilon/math/linalg/logical.py
index bdb58bd..72b4bdd 100644
--- a/src/sigmaepsilon/math/linalg/logical.py
+++ b/src/sigmaepsilon/math/linalg/logical.py
@@ -43,6 +43,8 @@ def is_rectangular_frame(axes: ndarray) -> bool:
     """
     assert len(axes.shape) == 2, "Input is not a matrix!"
     assert axes.shape[0] == axes.shape[1], "Input is not a square matrix!"
+    lengths = np.linalg.norm(axes, axis=-1, keepdims=True)
+    axes = axes / np.where(lengths > 0, lengths, 1)
     agram = np.abs(axes @ axes.T)
     return np.isclose(np.trace(agram), np.sum(agram))
 
-- 
2.43.0


From 6452cb16a421f0368ecfe7680f9bf49b598bd362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:49 +0000
Subject: [PATCH 68/70] fix: components given as lists are checked like arrays

---
 src/sigmaepsilon/math/linalg/meta.py   | 4 ++--
 src/sigmaepsilon/math/linalg/tensor.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/meta.py b/src/sigmaepsilon/math/linalg/meta.py
index 005f0a7..db4cc05 100644
--- a/src/sigmaepsilon/math/linalg/meta.py
+++ b/src/sigmaepsilon/math/linalg/meta.py
@@ -308,8 +308,8 @@ class TensorLike(ArrayWrapper):
         rank: int | None = None,
         **kwargs,
     ):
-        if len(args) > 0 and isinstance(args[0], np.ndarray):
-            if not self._verify_input(args[0], bulk=bulk, rank=rank):
+        if len(args) > 0:
+            if not self._verify_input(np.asarray(args[0]), bulk=bulk, rank=rank):
                 raise ValueError("Invalid input to Tensor class.")
 
         cls_params = kwargs.get("cls_params", dict())
diff --git a/src/sigmaepsilon/math/linalg/tensor.py b/src/sigmaepsilon/math/linalg/tensor.py
index dc092c6..542c106 100644
--- a/src/sigmaepsilon/math/linalg/tensor.py
+++ b/src/sigmaepsilon/math/linalg/tensor.py
@@ -221,8 +221,8 @@ class Tensor2x3(Tensor2):
     """
 
     def __init__(self, *args, **kwargs):
-        if len(args) > 0 and isinstance(args[0], ndarray):
-            arr = args[0]
+        if len(args) > 0:
+            arr = np.asarray(args[0])
             shape = arr.shape
             if shape[-2:] == (3, 3):
                 if len(shape) >= 3:
@@ -288,8 +288,8 @@ class Tensor4x3(Tensor4):
     """
 
     def __init__(self, *args, **kwargs):
-        if len(args) > 0 and isinstance(args[0], ndarray):
-            arr = args[0]
+        if len(args) > 0:
+            arr = np.asarray(args[0])
             shape = arr.shape
             if shape[-4:] == (3, 3, 3, 3):
                 if len(shape) >= 5:
-- 
2.43.0


From 94f2b5a7d68914b0ff1d557c03071f844be350b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:03 +0000
Subject: [PATCH 69/70] fix: tensors follow their frame if items of the axes
 are assigned

---
 src/sigmaepsilon/math/linalg/frame.py | 5 +++++
 src/sigmaepsilon/math/linalg/meta.py  | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index a7ac8ef..393447e 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -314,6 +314,11 @@ class ReferenceFrame(FrameLike):
         else:
             raise ValueError("Mismatch in data dimensinons!")
 
+    def __setitem__(self, key, value):
+        axes = np.array(self.axes)
+        axes[key] = value
+        self.axes = axes
+
     def _verify_axes(self, axes: ndarray) -> None:
         """
         Ought to raise an exception if the axes are not acceptable for the class.
diff --git a/src/sigmaepsilon/math/linalg/meta.py b/src/sigmaepsilon/math/linalg/meta.py
index db4cc05..8f52199 100644
--- a/src/sigmaepsilon/math/linalg/meta.py
+++ b/src/sigmaepsilon/math/linalg/meta.py
@@ -164,7 +164,7 @@ class ArrayWrapper(NDArrayOperatorsMixin, Wrapper):
         ~`sigmaepsilon.math.linalg.meta.ArrayWrapper`
             The object the call was made upon.
         """
-        self._array[np.where(np.abs(self._array) < tol)] = 0.0
+        self[np.where(np.abs(self._array) < tol)] = 0.0
         return self
 
     def __array__(self, dtype=None):
-- 
2.43.0


From d5f0622e97452257fb57cefae50382e6d663e111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:59 +0000
Subject: [PATCH 70/70] fix: coefficients of linear expressions include
 irrational numbers

---
 src/sigmaepsilon/math/function/function.py | 11 ++---------
 src/sigmaepsilon/math/function/symutils.py | 22 ++++++++++++++--------
 2 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/sigmaepsilon/math/function/function.py b/src/sigmaepsilon/math/function/function.py
index b1efb94..9590fae 100644
--- a/src/sigmaepsilon/math/function/function.py
+++ b/src/sigmaepsilon/math/function/function.py
@@ -3,12 +3,11 @@ from collections import OrderedDict
 import warnings
 
 from sympy import Expr, degree, latex
-from sympy.core.numbers import One
 
 from sigmaepsilon.core.kwargtools import getasany
 
 from .metafunction import MetaFunction
-from .symutils import substitute
+from .symutils import substitute, normalize_coefficients
 
 
 __all__ = ["Function", "FunctionLike"]
@@ -309,13 +308,7 @@ class Function(MetaFunction):
             if not normalize:
                 return d
             else:
-                res = OrderedDict()
-                for key, value in d.items():
-                    if len(key.free_symbols) == 0:
-                        res[One()] = value * key
-                    else:
-                        res[key] = value
-                return res
+                return OrderedDict(normalize_coefficients(d))
         except Exception:  # pragma: no cover
             return None
 
diff --git a/src/sigmaepsilon/math/function/symutils.py b/src/sigmaepsilon/math/function/symutils.py
index 220b625..b9c7197 100644
--- a/src/sigmaepsilon/math/function/symutils.py
+++ b/src/sigmaepsilon/math/function/symutils.py
@@ -1,6 +1,5 @@
 from sympy.parsing.sympy_parser import parse_expr
 from sympy import lambdify, derive_by_array, symbols, Expr, Symbol
-from sympy.core.numbers import One
 from typing import Iterable
 import sympy as sy
 
@@ -143,10 +142,17 @@ def coefficients(
     if not normalize:
         return d
     else:
-        res = dict()
-        for key, value in d.items():
-            if len(key.free_symbols) == 0:
-                res[One()] = value * key
-            else:
-                res[key] = value
-        return res
+        return normalize_coefficients(d)
+
+
+def normalize_coefficients(d: dict) -> dict:
+    """
+    Moves all the numbers of the keys to the values, such that the constant term
+    belongs to the number 1 and the linear ones to the variables themselves.
+    """
+    res = dict()
+    for key, value in d.items():
+        for term in sy.Add.make_args(sy.expand_mul(key)):
+            coeff, term = term.as_independent(*term.free_symbols, as_Add=False)
+            res[term] = res.get(term, 0) + value * coeff
+    return res
-- 
2.43.0

