From eaebdc38cf28cc23a01b5294e91ef7570eecb083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:18 +0000
Subject: [PATCH 01/51] fix: keep the dense operand's data type in a
 diagonal-dense outer product

---
 src/CTL/tensor/contract/contract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/contract.py b/src/CTL/tensor/contract/contract.py
index ed0be84..9382fa7 100644
--- a/src/CTL/tensor/contract/contract.py
+++ b/src/CTL/tensor/contract/contract.py
@@ -86,9 +86,9 @@ def contractTwoTensors(ta, tb, bonds = None, outProductWarning = True):
             if (tensorLikeContract):
                 return Tensor(labels = labels, data = None, shape = shape, legs = legs, tensorLikeFlag = True)
             else:
-                data = xplib.xp.zeros(shape, dtype = ta.a.dtype)
                 einsumStr = ('j' * ta.dim) + '...->j...'
                 outerData = xplib.xp.multiply.outer(ta.a, tb.a)
+                data = xplib.xp.zeros(shape, dtype = outerData.dtype)
                 xplib.xp.einsum(einsumStr, data)[...] = outerData
             return Tensor(labels = labels, data = data, shape = shape, legs = legs)
         else:
-- 
2.43.0


From d2a843cba431ed23de4b2840706c9cbda5211351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:18 +0000
Subject: [PATCH 02/51] fix: contract over explicitly given bonds whatever
 their orientation

---
 src/CTL/tensor/contract/contract.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/contract/contract.py b/src/CTL/tensor/contract/contract.py
index 9382fa7..3adacec 100644
--- a/src/CTL/tensor/contract/contract.py
+++ b/src/CTL/tensor/contract/contract.py
@@ -104,8 +104,9 @@ def contractTwoTensors(ta, tb, bonds = None, outProductWarning = True):
 
         # return Tensor(labels = labels, data = data, legs = legs)
 
-    contractALegs = [bond.legs[0] for bond in bonds]
-    contractBLegs = [bond.legs[1] for bond in bonds]
+    # bonds given by the caller can be in either orientation
+    contractALegs = [bond.sideLeg(ta) for bond in bonds]
+    contractBLegs = [bond.sideLeg(tb) for bond in bonds]
 
     taRemainLegs = ta.complementLegs(contractALegs)
     tbRemainLegs = tb.complementLegs(contractBLegs)
-- 
2.43.0


From 39874455abe8d96bb478048e93f0cf530112b1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 03/51] fix: diagonalNDTensor keeps the data type of the
 diagonal and accepts scalars

---
 src/CTL/funcs/funcs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index 70aa5a3..d703a62 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -1093,8 +1093,10 @@ def diagonalNDTensor(a, dim):
         A diagonal tensor of dim dimension, and contains the values of a in order on its diagonal.
 
     """
+    if (dim == 0):
+        return xplib.xp.copy(a)
     l = a.shape[0]
-    res = xplib.xp.zeros(tuple([l] * dim))
+    res = xplib.xp.zeros(tuple([l] * dim), dtype = a.dtype)
     res[xplib.xp.diag_indices(l, dim)] = a
     # for i in range(l):
     # 	res[tuple([i] * dim)] = a[i]
-- 
2.43.0


From 01f23e7abb18d577b3625d10b7ab9898dab6a3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 04/51] fix: scalar diagonal tensors own their data and can be
 copied

---
 src/CTL/tensor/diagonalTensor.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index d452fb3..3134264 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -228,9 +228,12 @@ class DiagonalTensor(Tensor):
             return None
         # print('generating data for data = {}'.format(data))
         if (data is None):
-            data = xplib.xp.ones(shape[0])
-        # otherwise, data can be 1D-array, or ndarray
-        elif (len(data.shape) == 1):
+            if (len(shape) == 0):
+                data = xplib.xp.array(1.0)
+            else:
+                data = xplib.xp.ones(shape[0])
+        # otherwise, data can be 0D-array(scalar), 1D-array, or ndarray
+        elif (len(data.shape) <= 1):
             data = xplib.xp.copy(data)
         else:
             l, dim = len(shape), shape[0]
@@ -254,8 +257,7 @@ class DiagonalTensor(Tensor):
 
         # first, consider scalar case
         if (legs is None) and (labels is None) and (shape == () or ((data is not None) and (data.shape == ()))):
-            if (data is None) and (not isTensorLike):
-                data = xplib.xp.array(1.0)
+            data = self.generateData(shape = (), data = data, isTensorLike = isTensorLike)
             return [], data, [], () # scalar
             
 
-- 
2.43.0


From b362af3c647de1edc425b48129a25affd105d8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 05/51] fix: diagonal tensors record the data type of their
 data and pass it on to copies

---
 src/CTL/tensor/diagonalTensor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 3134264..062c624 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -398,7 +398,7 @@ class DiagonalTensor(Tensor):
             
 
     def __init__(self, shape = None, labels = None, data = None, degreeOfFreedom = None, name = None, legs = None, tensorLikeFlag = False, dtype = xplib.xp.float64):
-        super().__init__(diagonalFlag = True, tensorLikeFlag = tensorLikeFlag, dtype = dtype)
+        super().__init__(data = data, diagonalFlag = True, tensorLikeFlag = tensorLikeFlag, dtype = dtype)
 
         legs, data, labels, shape = self.deduction(legs = legs, data = data, labels = labels, shape = shape, isTensorLike = tensorLikeFlag)
 
@@ -589,7 +589,7 @@ class DiagonalTensor(Tensor):
         DiagonalTensor
             A copy of the current diagonal tensor, all the information can be copied is contained.
         """
-        return DiagonalTensor(data = self.a, shape = self.shape, degreeOfFreedom = self.degreeOfFreedom, name = self.name, labels = self.labels, tensorLikeFlag = self.tensorLikeFlag)
+        return DiagonalTensor(data = self.a, shape = self.shape, degreeOfFreedom = self.degreeOfFreedom, name = self.name, labels = self.labels, tensorLikeFlag = self.tensorLikeFlag, dtype = self.dtype)
         # no copy of tensor legs, which may contain connection information
     def toTensorLike(self):
         """
@@ -603,7 +603,7 @@ class DiagonalTensor(Tensor):
         if (self.tensorLikeFlag):
             return self.copy()
         else:
-            return DiagonalTensor(data = None, degreeOfFreedom = self.degreeOfFreedom, name = self.name, labels = self.labels, shape = self.shape, tensorLikeFlag = True)
+            return DiagonalTensor(data = None, degreeOfFreedom = self.degreeOfFreedom, name = self.name, labels = self.labels, shape = self.shape, tensorLikeFlag = True, dtype = self.dtype)
 
     def moveLabelsToFront(self, labelList):
         """
-- 
2.43.0


From a27dcfc2610c779a740a748252af4cd8dbc059c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 06/51] fix: copies without data keep the tensor's data type

---
 src/CTL/tensor/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index c410ef4..d663fb1 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -666,7 +666,7 @@ class Tensor(TensorBase):
         Tensor
             A copy of the current tensor, all the information can be copied is contained.
         """
-        return Tensor(data = self.a, shape = self.shape, degreeOfFreedom = self.degreeOfFreedom, name = self.name, labels = self.labels, diagonalFlag = self.diagonalFlag, tensorLikeFlag = self.tensorLikeFlag)
+        return Tensor(data = self.a, shape = self.shape, degreeOfFreedom = self.degreeOfFreedom, name = self.name, labels = self.labels, diagonalFlag = self.diagonalFlag, tensorLikeFlag = self.tensorLikeFlag, dtype = self.dtype)
         # no copy of tensor legs, which may contain connection information
         # the data will be copied in the new tensor, since all data is generated by "generateData"
     def toTensorLike(self):
@@ -681,7 +681,7 @@ class Tensor(TensorBase):
         if (self.tensorLikeFlag):
             return self.copy()
         else:
-            return Tensor(data = None, degreeOfFreedom = self.degreeOfFreedom, shape = self.shape, name = self.name, labels = self.labels, diagonalFlag = self.diagonalFlag, tensorLikeFlag = True)
+            return Tensor(data = None, degreeOfFreedom = self.degreeOfFreedom, shape = self.shape, name = self.name, labels = self.labels, diagonalFlag = self.diagonalFlag, tensorLikeFlag = True, dtype = self.dtype)
     
     def copyN(self, n):
         """
-- 
2.43.0


From dd65d28830e836ee28f09468098b21a99c287d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:54 +0000
Subject: [PATCH 07/51] fix: the outer product of two diagonal tensors is not a
 diagonal tensor

---
 src/CTL/tensor/contract/contract.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/contract.py b/src/CTL/tensor/contract/contract.py
index 3adacec..eb4e64e 100644
--- a/src/CTL/tensor/contract/contract.py
+++ b/src/CTL/tensor/contract/contract.py
@@ -77,7 +77,13 @@ def contractTwoTensors(ta, tb, bonds = None, outProductWarning = True):
         shape = ta.shape + tb.shape
         legs = ta.legs + tb.legs
 
-        if (ta.diagonalFlag and tb.diagonalFlag):
+        if (ta.diagonalFlag and tb.diagonalFlag and (len(ta.legs) > 0) and (len(tb.legs) > 0)):
+            # diagonal in each part, but not as a whole
+            if (tensorLikeContract):
+                return Tensor(labels = labels, data = None, shape = shape, legs = legs, tensorLikeFlag = True)
+            else:
+                return Tensor(labels = labels, data = xplib.xp.multiply.outer(ta.toTensor(), tb.toTensor()), shape = shape, legs = legs)
+        elif (ta.diagonalFlag and tb.diagonalFlag):
             if (tensorLikeContract):
                 return DiagonalTensor(labels = labels, data = None, shape = shape, legs = legs, tensorLikeFlag = True)
             else:
-- 
2.43.0


From a82576773f9815b28be984aa5a4d1dcea662c3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 08/51] fix: a scalar diagonal tensor can be multiplied with a
 dense tensor

---
 src/CTL/tensor/contract/contract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/contract.py b/src/CTL/tensor/contract/contract.py
index eb4e64e..3a44042 100644
--- a/src/CTL/tensor/contract/contract.py
+++ b/src/CTL/tensor/contract/contract.py
@@ -88,7 +88,7 @@ def contractTwoTensors(ta, tb, bonds = None, outProductWarning = True):
                 return DiagonalTensor(labels = labels, data = None, shape = shape, legs = legs, tensorLikeFlag = True)
             else:
                 return DiagonalTensor(labels = labels, data = ta.a * tb.a, shape = shape, legs = legs)
-        elif (ta.diagonalFlag):
+        elif (ta.diagonalFlag and (len(ta.legs) > 0)):
             if (tensorLikeContract):
                 return Tensor(labels = labels, data = None, shape = shape, legs = legs, tensorLikeFlag = True)
             else:
-- 
2.43.0


From 3ac55380b5fc6adae31cc74b9ab77e0f527cf14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 09/51] fix: moving all of a tensor's own legs to the front
 keeps them

---
 src/CTL/tensor/diagonalTensor.py | 2 +-
 src/CTL/tensor/tensor.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 062c624..e70b2c3 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -494,7 +494,7 @@ class DiagonalTensor(Tensor):
         moveFrom = []
         moveTo = []
         currIdx = 0
-        movedLegs = legs
+        movedLegs = list(legs)
         for currLeg in legs:
             for i, leg in enumerate(self.legs):
                 if (leg == currLeg):
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index d663fb1..d33509f 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -561,7 +561,7 @@ class Tensor(TensorBase):
         moveFrom = []
         moveTo = []
         currIdx = 0
-        movedLegs = legs
+        movedLegs = list(legs)
         for currLeg in legs:
             for i, leg in enumerate(self.legs):
                 if (leg == currLeg):
-- 
2.43.0


From 3ee9946540082bbd08ec2d929bc4b510928263e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 10/51] fix: weights are applied when a list of labels is
 summed out

---
 src/CTL/tensor/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index d33509f..30b3804 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -1115,7 +1115,7 @@ class Tensor(TensorBase):
         """
         if isinstance(label, list):
             for l in label:
-                self.sumOutLegByLabel(l, backward)
+                self.sumOutLegByLabel(l, backward, weights = weights)
             return 
         leg = self.getLeg(label, backward = backward)
         if leg is None:
-- 
2.43.0


From d3523eee6ba398fe70d7ebb7d112d1afebac2f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 11/51] fix: legs of a TensorLike can be summed out

---
 src/CTL/tensor/diagonalTensor.py | 6 ++++--
 src/CTL/tensor/tensor.py         | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index e70b2c3..230fdec 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -740,13 +740,15 @@ class DiagonalTensor(Tensor):
         # if weights is None:
         if (len(self.legs) == 0):
             # not a diagonal tensor, since the last sum will give a single value
-            if weights is None:
+            if self.tensorLikeFlag:
+                pass
+            elif weights is None:
                 self.a = xplib.xp.array(xplib.xp.sum(self.a))
             else:
                 self.a = xplib.xp.array(xplib.xp.sum(self.a * weights))
             self._length = 1
         else:
-            if (weights is not None):
+            if (weights is not None) and (not self.tensorLikeFlag):
                 self.a = self.a * weights
 
     def typeName(self):
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index 30b3804..0080276 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -1096,7 +1096,8 @@ class Tensor(TensorBase):
         
         idx = self.legs.index(leg)
         # self.a = xplib.xp.sum(self.a, axis = idx)
-        self.a = funcs.sumOnAxis(self.a, axis = idx, weights = weights)
+        if (not self.tensorLikeFlag):
+            self.a = funcs.sumOnAxis(self.a, axis = idx, weights = weights)
         self.legs = self.legs[:idx] + self.legs[(idx + 1):]
     
     def sumOutLegByLabel(self, label, backward = False, weights = None):
-- 
2.43.0


From f0c8942072126beea94e431320d9c1e279bd2b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 12/51] fix: a diagonal tensor rejects data that is neither its
 diagonal nor of its shape

---
 src/CTL/tensor/diagonalTensor.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 230fdec..eabf41d 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -213,7 +213,10 @@ class DiagonalTensor(Tensor):
             return True 
         if (isinstance(shape, int)):
             shape = tuple([shape] * len(data.shape))
-        return ((len(data.shape) == 1) and (len(shape) > 0) and (len(data) == shape[0])) or (funcs.tupleProduct(data.shape) == funcs.tupleProduct(shape))
+        # data is either the diagonal itself, or the complete tensor
+        if ((len(data.shape) == 1) and (len(shape) > 0)):
+            return len(data) == shape[0]
+        return tuple(data.shape) == tuple(shape)
 
     def generateData(self, shape, data, isTensorLike):
         """
@@ -256,7 +259,9 @@ class DiagonalTensor(Tensor):
         funcName = "DiagonalTensor.deduction"
 
         # first, consider scalar case
-        if (legs is None) and (labels is None) and (shape == () or ((data is not None) and (data.shape == ()))):
+        if (legs is None) and (labels is None) and (shape == () or ((shape is None) and (data is not None) and (data.shape == ()))):
+            if (not self.checkShapeDataCompatible(shape = (), data = data)):
+                raise ValueError(funcs.errorMessage('data shape {} is not compatible with required shape {}'.format(data.shape, ()), location = funcName))
             data = self.generateData(shape = (), data = data, isTensorLike = isTensorLike)
             return [], data, [], () # scalar
             
-- 
2.43.0


From 03ff11e303b1e17b56849584b1162bc06ba5fff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 13/51] fix: rows or cols of DiagonalTensor.toMatrix can be
 left out, as for Tensor

---
 src/CTL/tensor/diagonalTensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index eabf41d..af25d4b 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -537,7 +537,7 @@ class DiagonalTensor(Tensor):
         funcs.deprecatedFuncWarning(funcName = "DiagonalTensor.toVector", deprecateMessage = "This will return a vector corresponding to the diagonal of tensor instead of the complete tensor.")
         return xplib.xp.copy(xplib.xp.ravel(self.a))
     
-    def toMatrix(self, rows, cols):
+    def toMatrix(self, rows = None, cols = None):
         """
         Deprecated
 
-- 
2.43.0


From c7950a5544c4c50c3d13784d3ebebbca56af1b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 14/51] fix: the default data of a diagonal tensor has the
 requested data type

---
 src/CTL/tensor/diagonalTensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index af25d4b..317d6c8 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -232,9 +232,9 @@ class DiagonalTensor(Tensor):
         # print('generating data for data = {}'.format(data))
         if (data is None):
             if (len(shape) == 0):
-                data = xplib.xp.array(1.0)
+                data = xplib.xp.array(1.0, dtype = self.dtype)
             else:
-                data = xplib.xp.ones(shape[0])
+                data = xplib.xp.ones(shape[0], dtype = self.dtype)
         # otherwise, data can be 0D-array(scalar), 1D-array, or ndarray
         elif (len(data.shape) <= 1):
             data = xplib.xp.copy(data)
-- 
2.43.0


From 4ae13d35a3d16dfa6e0861abcefdf1a99b8209b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 15/51] fix: a diagonal-dense TensorLike contraction orders its
 legs as the tensor contraction does

---
 src/CTL/tensor/contract/contract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/contract/contract.py b/src/CTL/tensor/contract/contract.py
index 3a44042..4092e08 100644
--- a/src/CTL/tensor/contract/contract.py
+++ b/src/CTL/tensor/contract/contract.py
@@ -129,6 +129,8 @@ def contractTwoTensors(ta, tb, bonds = None, outProductWarning = True):
             return DiagonalTensor(data = xplib.xp.array(xplib.xp.sum(ta.a * tb.a)))
     
     if (ta.diagonalFlag):
+        newLegs = tbRemainLegs + taRemainLegs 
+        newShape = tuple([leg.dim for leg in newLegs])
         if (tensorLikeContract):
             return Tensor(shape = newShape, data = None, legs = newLegs, tensorLikeFlag = True)
         # then tb is not diagonal tensor
@@ -170,8 +172,6 @@ def contractTwoTensors(ta, tb, bonds = None, outProductWarning = True):
         # print('newData = {}'.format(newData))
         # print('shape = {}, data = {}, legs = {}'.format(newShape, newData, newLegs))
 
-        newLegs = tbRemainLegs + taRemainLegs 
-        newShape = tuple([leg.dim for leg in newLegs])
         return Tensor(shape = newShape, data = newData, legs = newLegs)
 
     if (tensorLikeContract):
-- 
2.43.0


From 52202fd370b8b14c1b53f632a3fc8738004ad513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:51 +0000
Subject: [PATCH 16/51] fix: a matrix form can have no rows or no columns

---
 src/CTL/tensor/diagonalTensor.py | 4 ++--
 src/CTL/tensor/tensor.py         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 317d6c8..afbd71c 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -563,9 +563,9 @@ class DiagonalTensor(Tensor):
         # input two set of legs
         funcs.deprecatedFuncWarning(funcName = "DiagonalTensor.toMatrix", deprecateMessage = "Diagonal tensors should be used in a better way for linear algebra calculation rather than be made into a matrix.")
         assert not ((rows is None) and (cols is None)), "Error in Tensor.toMatrix: toMatrix must have at least row or col exist."
-        if (rows is not None) and (isinstance(rows[0], str)):
+        if (rows is not None) and (len(rows) > 0) and (isinstance(rows[0], str)):
             rows = [self.getLeg(label) for label in rows]
-        if (cols is not None) and (isinstance(cols[0], str)):
+        if (cols is not None) and (len(cols) > 0) and (isinstance(cols[0], str)):
             cols = [self.getLeg(label) for label in cols]
         if (cols is None):
             cols = funcs.listDifference(self.legs, rows)
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index 0080276..0968846 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -615,9 +615,9 @@ class Tensor(TensorBase):
         # input two set of legs
         assert (not self.tensorLikeFlag), funcs.errorMessage('TensorLike cannot be transferred to matrix since no data contained.', 'Tensor.toMatrix')
         assert not ((rows is None) and (cols is None)), "Error in Tensor.toMatrix: toMatrix must have at least row or col exist."
-        if (rows is not None) and (isinstance(rows[0], str)):
+        if (rows is not None) and (len(rows) > 0) and (isinstance(rows[0], str)):
             rows = [self.getLeg(label) for label in rows]
-        if (cols is not None) and (isinstance(cols[0], str)):
+        if (cols is not None) and (len(cols) > 0) and (isinstance(cols[0], str)):
             cols = [self.getLeg(label) for label in cols]
         if (cols is None):
             cols = funcs.listDifference(self.legs, rows)
-- 
2.43.0


From 44d735a09bf7989833f7a567df687216f7f0cfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:52 +0000
Subject: [PATCH 17/51] fix: a leg that gets a new bond leaves its old partner
 unbonded

---
 src/CTL/tensor/bond.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CTL/tensor/bond.py b/src/CTL/tensor/bond.py
index 3bd8576..d2313ea 100644
--- a/src/CTL/tensor/bond.py
+++ b/src/CTL/tensor/bond.py
@@ -30,6 +30,10 @@ class Bond:
         # self.name = getBondName(name)
         self.name = name
         self.legs = (leg1, leg2)
+        for leg in self.legs:
+            if (leg.bond is not None):
+                # the leg leaves its old bond, so its old partner is not bonded any more
+                leg.anotherSide().bond = None
         leg1.bond = self 
         leg2.bond = self
 
-- 
2.43.0


From c8845a43c6b2c288a0f663761ba22f6df3ffbdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:52 +0000
Subject: [PATCH 18/51] fix: taking over outgoing bonds leaves the original leg
 usable

---
 src/CTL/tensor/contract/optimalContract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/optimalContract.py b/src/CTL/tensor/contract/optimalContract.py
index 68d74f8..f369ef4 100644
--- a/src/CTL/tensor/contract/optimalContract.py
+++ b/src/CTL/tensor/contract/optimalContract.py
@@ -46,7 +46,7 @@ def copyTensorList(tensorList, tensorLikeFlag = False, linkOutgoingBonds = False
 
                 if (leg2.tensor not in tensorList):
                     if (linkOutgoingBonds):
-                        del leg.bond 
+                        leg.bond = None
                         makeLink(newLeg1, leg2)
                     continue
 
-- 
2.43.0


From b84f441131db6b1b14ca26ccbbc91f384a6faaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:52 +0000
Subject: [PATCH 19/51] fix: a tensor network owns its list of tensor names

---
 src/CTL/tensornetwork/tensornetwork.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensornetwork/tensornetwork.py b/src/CTL/tensornetwork/tensornetwork.py
index eb83d2a..97f8048 100644
--- a/src/CTL/tensornetwork/tensornetwork.py
+++ b/src/CTL/tensornetwork/tensornetwork.py
@@ -8,7 +8,7 @@ class FiniteTensorNetwork:
     # provide a function api FiniteTensorNetwork.contract(tensorDict)
 
     def __init__(self, tensorNames = [], realCost = True, typicalDim = 10):
-        self.tensorNames = tensorNames
+        self.tensorNames = list(tensorNames)
         self.optimalSeq = None 
         self.realCost = realCost 
         self.links = []
-- 
2.43.0


From 346ea4f1b33a09691d2417f492d56db389410cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:52 +0000
Subject: [PATCH 20/51] fix: changing the tensors or links of a network drops
 its contraction sequence

---
 src/CTL/tensornetwork/tensornetwork.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CTL/tensornetwork/tensornetwork.py b/src/CTL/tensornetwork/tensornetwork.py
index 97f8048..4721e13 100644
--- a/src/CTL/tensornetwork/tensornetwork.py
+++ b/src/CTL/tensornetwork/tensornetwork.py
@@ -39,11 +39,13 @@ class FiniteTensorNetwork:
         # assert (not self.locked), "Error: adding tensor {} to a FTN which is locked.".format(name)
         self.checkLock('adding tensor {}'.format(name))
         self.tensorNames.append(name)
+        self.optimalSeq = None
     def removeTensor(self, name):
         # assert (not self.locked), "Error: removing tensor {} to a FTN which is locked.".format(name)
         self.checkLock('removing tensor {}'.format(name))
         assert (name in self.tensorNames), "Error: removing tensor {} to a FTN which do not contain it.".format(name)
         self.tensorNames.remove(name)
+        self.optimalSeq = None
 
     def lock(self):
         self.locked = True 
@@ -54,6 +56,7 @@ class FiniteTensorNetwork:
         # assert (not self.locked), "Error: adding link ({}, {}) to a FTN which is locked.".format((aName, aLeg), (bName, bLeg))
         self.checkLock('adding link ({}, {})'.format((aName, aLeg), (bName, bLeg)))
         self.links.append(((aName, aName + '-' + aLeg), (bName, bName + '-' + bLeg)))
+        self.optimalSeq = None
 
     def addPreNameChange(self, name, legName, newName):
         self.checkLock('add pre name change for tensor {}: from {} to {}'.format(name, legName, newName))
-- 
2.43.0


From b30659ebb35a243fdeab1c0079ddf8a7b74d071a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:52 +0000
Subject: [PATCH 21/51] fix: the default chi of an MPS is its largest bond
 dimension

---
 src/CTL/examples/MPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/examples/MPS.py b/src/CTL/examples/MPS.py
index 8ce70b4..17180ff 100644
--- a/src/CTL/examples/MPS.py
+++ b/src/CTL/examples/MPS.py
@@ -50,7 +50,7 @@ class FreeBoundaryMPS:
         bondChi = -1
         for i in range(self.n - 1):
             bond = shareBonds(self._tensors[i], self._tensors[i + 1])[0]
-            bondChi = min(bondChi, bond.legs[0].dim) 
+            bondChi = max(bondChi, bond.legs[0].dim) 
         
         if (chi is None):
             return bondChi 
-- 
2.43.0


From 973d1794bb351b8b4fe429f3362ad14ebf4a6f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:52 +0000
Subject: [PATCH 22/51] fix: merging two tensors of an MPS invalidates its
 canonical centre

---
 src/CTL/examples/MPS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CTL/examples/MPS.py b/src/CTL/examples/MPS.py
index 17180ff..a5eb7a6 100644
--- a/src/CTL/examples/MPS.py
+++ b/src/CTL/examples/MPS.py
@@ -242,6 +242,7 @@ class FreeBoundaryMPS:
         funcName = 'FreeBoundaryMPS.mergeTensor'
         assert (self.isIndex(idx) and self.isIndex(idx + 1)), funcs.errorMessage("{} or {} is invalid index.".format(idx, idx + 1), location = funcName)
         self._tensors = self._tensors[:idx] + [newTensor] + self._tensors[(idx + 2):]
+        self.activeIdx = None
 
     def hasTensor(self, tensor):
         return tensor in self._tensors
-- 
2.43.0


From f1127bf905af7c8beeb9b187aba9f9eb41202916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:52 +0000
Subject: [PATCH 23/51] fix: SquareTRG can start from two tensors

---
 src/CTL/examples/TRG.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/CTL/examples/TRG.py b/src/CTL/examples/TRG.py
index 04a7c5b..dda1669 100644
--- a/src/CTL/examples/TRG.py
+++ b/src/CTL/examples/TRG.py
@@ -119,6 +119,12 @@ class SquareTRG:
 
         if (self.a.degreeOfFreedom is None):
             self.a.degreeOfFreedom = 1
+
+        self.aNorms = []
+        self.errors = []
+
+        self.aArchive = []
+
         if (b is not None):
             if (isinstance(b, Tensor)):
                 self.b = b.copy()
@@ -128,13 +134,7 @@ class SquareTRG:
             self.iterate()
         else:
             self.b = self.a
-
-        self.aNorms = []
-        self.errors = []
-
-        self.aArchive = []
-
-        self.appendToArchive()
+            self.appendToArchive()
 
     def appendToArchive(self):
         self.normalizeTensors()
-- 
2.43.0


From 158898629b8d65ab528154a2d62bff833ada01af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:52 +0000
Subject: [PATCH 24/51] fix: a pair of triangle tensors holds as many unit
 cells as each of its tensors

---
 src/CTL/examples/TRG.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CTL/examples/TRG.py b/src/CTL/examples/TRG.py
index dda1669..7a16406 100644
--- a/src/CTL/examples/TRG.py
+++ b/src/CTL/examples/TRG.py
@@ -97,7 +97,8 @@ class TriangleTRG:
         stepN = len(self.aArchive)
         # print(stepN, len(self.aNorms))
         for i in range(stepN):
-            dof = self.aArchive[i].degreeOfFreedom * self.bArchive[i].degreeOfFreedom
+            # one a and one b make one unit cell at the beginning, 3^i unit cells after i steps
+            dof = self.aArchive[i].degreeOfFreedom
             accumulateLogZ += xplib.xp.log(self.aNorms[i] * self.bNorms[i]) / dof
             TNTrace = triangleTensorTrace(self.aArchive[i], self.bArchive[i])
             currLogZ = accumulateLogZ + xplib.xp.log(TNTrace.single()) / dof
-- 
2.43.0


From 087abacbe6091e4a43fe5672bee6012414ad1c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:52 +0000
Subject: [PATCH 25/51] fix: solveEnv keeps no vector when no eigenvalue is
 above the threshold

---
 src/CTL/funcs/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/funcs/linalg.py b/src/CTL/funcs/linalg.py
index 62d6ca3..decd4b4 100644
--- a/src/CTL/funcs/linalg.py
+++ b/src/CTL/funcs/linalg.py
@@ -26,5 +26,5 @@ def solveEnv(aMat, chi, threshold = 1e-10):
     # if (chi > eigenVectorsEnv.shape[1]):
     #     return eigenVectorsEnv, 0.0
     # else:
-    return xplib.xp.flip(eigenVectorsEnv[:, -chi:], axis = 1), error
+    return xplib.xp.flip(eigenVectorsEnv[:, (len(eigenValuesEnv) - chi):], axis = 1), error
     # return eigenVectorsEnv[:, -chi:]
\ No newline at end of file
-- 
2.43.0


From 202b3a1f16b58c189e9dcfd9d67583b5e1f0f69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 26/51] fix: the cost of the best contraction can be asked for
 before any search

---
 src/CTL/tensor/contract/tensorGraph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index e061362..a62d3e9 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -42,6 +42,7 @@ class TensorGraph(UndirectedGraph):
     def __init__(self, n, diagonalFlags = None):
         super().__init__(n)
         self.indexed = False
+        self.optimalCost = None
         if (diagonalFlags is None):
             self.diagonalFlags = [False] * n
         else:
-- 
2.43.0


From af5ff13bf60ae582f5d23185e78ab753f4725748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 27/51] fix: edges added after the edges of a tensor graph were
 indexed are indexed too

---
 src/CTL/tensor/contract/tensorGraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index a62d3e9..a715ad5 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -60,12 +60,13 @@ class TensorGraph(UndirectedGraph):
             If int, then added to the added edge as weight, used for cost calculation.
         """
         self.v[idx].addEdge(None, weight = weight)
+        self.updated = True
 
     def addEdgeIndex(self):
         """
         Add an index to each edge.
         """
-        if (self.indexed):
+        if (self.indexed) and (not self.updated):
             return
         edges = self.getEdges()
         m = len(edges)
-- 
2.43.0


From 6b1ed389b0c4660798c6ffcbad45a1d663af1acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 28/51] fix: no graph is plotted without networkx

---
 src/CTL/tensor/contract/tensorGraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index a715ad5..af8cfb8 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -79,7 +79,8 @@ class TensorGraph(UndirectedGraph):
             import networkx as nx
         except:
             print(funcs.errorMessage(err = 'Optional dependency networkX has not been installed, skip plotting tensor network graph.', location = 'tensorGraph.tensorNetworkGraph'))
-        
+            return None
+
         G = nx.Graph()
         edges = self.getEdges()
         G.add_nodes_from([v.index for v in self.v])
-- 
2.43.0


From 80a11fcec3ec46197c97d4610921dd4dcd4ce80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 29/51] fix: the greedy search goes on with an outer product
 when no bond is left

---
 src/CTL/tensor/contract/tensorGraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index af8cfb8..a9af454 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -306,8 +306,9 @@ class TensorGraph(UndirectedGraph):
                 minTSA = -1
                 minTSB = -1
 
+                bondLeft = any([isSharingBond(tsA, tsB) for tsA, tsB in funcs.pairIterator(tensorSet)])
                 for tsA, tsB in funcs.pairIterator(tensorSet):
-                    if (not isSharingBond(tsA, tsB)):
+                    if bondLeft and (not isSharingBond(tsA, tsB)):
                         continue
                     newSize = getSize(tsA, tsB)
                     if (minSize == -1) or (newSize < minSize):
-- 
2.43.0


From 65b7dc12aac330ceacd6a1864f6210f3a718e608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 30/51] fix: sequences are found for disconnected diagonal
 tensors and scalars

---
 src/CTL/tensor/contract/optimalContract.py |  2 +-
 src/CTL/tensor/contract/tensorGraph.py     | 21 ++++++++++++++++-----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/CTL/tensor/contract/optimalContract.py b/src/CTL/tensor/contract/optimalContract.py
index f369ef4..2144846 100644
--- a/src/CTL/tensor/contract/optimalContract.py
+++ b/src/CTL/tensor/contract/optimalContract.py
@@ -76,7 +76,7 @@ def contractCost(ta, tb):
         The order of the cost(how many dimensions). This is used when we want to decide the order of our calculation to a given bond dimension chi.
     """
     diagonalA, diagonalB = ta.diagonalFlag, tb.diagonalFlag 
-    if (diagonalA and diagonalB):
+    if (diagonalA and diagonalB) and (len(shareBonds(ta, tb)) > 0):
         return ta.bondDimension(), 1
 
     diagonal = diagonalA or diagonalB
diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index a9af454..bb926e4 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -156,6 +156,12 @@ class TensorGraph(UndirectedGraph):
 
         n = len(self.v)
 
+        # the number of vertices of each edge
+        edgeCount = dict()
+        for vertexEdges in edges:
+            for edge in vertexEdges:
+                edgeCount[edge] = edgeCount.get(edge, 0) + 1
+
         if (not greedy):
             self.optimalCost = [None] * (1 << n)
             self.optimalSeq = [None] * (1 << n)
@@ -181,7 +187,7 @@ class TensorGraph(UndirectedGraph):
             edgesA, shapeA, diagonalA = self.contractRes[tsA]
             edgesB, shapeB, diagonalB = self.contractRes[tsB]
 
-            if (diagonalA and diagonalB):
+            if (diagonalA and diagonalB) and isSharingBond(tsA, tsB):
                 # both diagonal, only need to product
                 return shapeA[0]
             
@@ -203,7 +209,7 @@ class TensorGraph(UndirectedGraph):
             edgesA, _, diagonalA = self.contractRes[tsA]
             edgesB, _, diagonalB = self.contractRes[tsB]
 
-            if (diagonalA and diagonalB):
+            if (diagonalA and diagonalB) and isSharingBond(tsA, tsB):
                 costOrder = 1
             else:
                 clb = set(funcs.commonElements(edgesA, edgesB))
@@ -225,7 +231,12 @@ class TensorGraph(UndirectedGraph):
             return len(commonEdges) > 0
         
         def isDiagonalOuterProduct(tsA, tsB):
-            return tsA[2] and tsB[2] and (not isSharingBond(tsA, tsB))
+            # the outer product of two finished parts of the network cannot be avoided
+            return tsA[2] and tsB[2] and (not isSharingBond(tsA, tsB)) and not (isFinished(tsA) and isFinished(tsB))
+
+        def isFinished(ts):
+            # only free edges are left
+            return all([edgeCount[edge] == 1 for edge in ts[0]])
 
         def calculateContractRes(tsA, tsB):
             if (isinstance(tsA, int)):
@@ -245,7 +256,7 @@ class TensorGraph(UndirectedGraph):
             for l, s in zip(edgesA + edgesB, shapeA + shapeB):
                 if (l in edgeIndex):
                     shape[edgeIndex[l]] = s
-            return (edges, shape, diagonalA and diagonalB)
+            return (edges, shape, diagonalA and diagonalB and isSharingBond(tsA, tsB))
 
         def getSize(tsA, tsB):
             '''
@@ -327,7 +338,7 @@ class TensorGraph(UndirectedGraph):
             obj_n = (1 << n)
             new_flag = [True] * obj_n 
             if (typicalDim is None):
-                chi_min = min([min(x) for x in shapes])
+                chi_min = min([min(x) for x in shapes if len(x) > 0], default = 2)
             else:
                 chi_min = typicalDim
             # mu_cap = 1
-- 
2.43.0


From f31b229873485d1ce25688c7e2e6a5df625d39dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 31/51] fix: links of unequal extents are rejected before any
 bond is made

---
 src/CTL/tensor/contract/link.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/link.py b/src/CTL/tensor/contract/link.py
index bed7c6d..f972ad9 100644
--- a/src/CTL/tensor/contract/link.py
+++ b/src/CTL/tensor/contract/link.py
@@ -52,9 +52,11 @@ def makeLink(legA, legB, tensorA = None, tensorB = None):
 
     assert (len(legA) == len(legB)), "Error: the number of legs from A({}) and B({}) are not the same.".format(len(legA), len(legB))
 
-    bonds = []
     for leg1, leg2 in zip(legA, legB):
         assert (leg1.dim == leg2.dim), "Error: leg {} and {} to be linked do not have the same dimensions.".format(leg1, leg2)
+
+    bonds = []
+    for leg1, leg2 in zip(legA, legB):
         bonds.append(Bond(leg1, leg2))
     
     return bonds
-- 
2.43.0


From 62585047e0ec89e6f86d220c8b6e3e90218a3ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 32/51] fix: a pair of bond names is also accepted when only
 one bond is merged

---
 src/CTL/tensor/contract/link.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/contract/link.py b/src/CTL/tensor/contract/link.py
index f972ad9..4af8a2f 100644
--- a/src/CTL/tensor/contract/link.py
+++ b/src/CTL/tensor/contract/link.py
@@ -96,8 +96,9 @@ def mergeLink(ta, tb, bondName = None, renameWarning = True):
         if (renameWarning):
             warnings.warn(funcs.warningMessage(warn = 'mergeLink cannot merge links between two tensors {} and {} sharing one bond, only rename'.format(ta, tb), location = funcName), RuntimeWarning)
         if (bondName is not None):
-            mergeLegA[0].name = bondName 
-            mergeLegB[0].name = bondName
+            if (isinstance(bondName, str)):
+                bondName = (bondName, bondName)
+            mergeLegA[0].name, mergeLegB[0].name = bondName
         return ta, tb
 
     # otherwise, we need to do outProduct, and then merge
-- 
2.43.0


From 4b95e87f6452f71d008f87914539cd3ecedcf3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 33/51] fix: the shape of a missing label in a list is -1

---
 src/CTL/tensor/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index 0968846..c245736 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -792,7 +792,7 @@ class Tensor(TensorBase):
         int
             The dimension of the legs of given labels.
         """
-        return self.shapeOfIndices(self.getLabelIndices(labs, backward = backward))
+        return tuple([self.shapeOfLabel(lab, backward = backward) for lab in labs])
 
     def shapeOfIndex(self, index):
         """
-- 
2.43.0


From 17fb5d526d9fd4f68a0ef34af1d3cf62a12d1dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 34/51] fix: loadData works with numpy versions without
 numpy.float

---
 src/CTL/funcs/funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index d703a62..8af7ae3 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -306,7 +306,7 @@ def loadData(fileName):
         A 2-d array of the file, columns and rows as two dimensions.
     """
     f = open(fileName, 'r')
-    data = xplib.xp.array([xplib.xp.array([xplib.xp.float(x) for x in line.strip().split(' ')]) for line in f])
+    data = xplib.xp.array([xplib.xp.array([float(x) for x in line.strip().split(' ')]) for line in f])
     return data
 
 def randomString(n = 10):
-- 
2.43.0


From 4a1131d550e9bd9891a518a0f26970f26f624fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 35/51] fix: registering a name does not change the length of
 new names

---
 src/CTL/funcs/stringSet.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/CTL/funcs/stringSet.py b/src/CTL/funcs/stringSet.py
index e219d29..d4f6e7a 100644
--- a/src/CTL/funcs/stringSet.py
+++ b/src/CTL/funcs/stringSet.py
@@ -66,7 +66,6 @@ class StringSet:
         """
         assert not (s in self.stringSet), funcs.errorMessage(err = "Error: name '{}' is already used.".format(s), location = "StringSet.add")
         self.stringSet.add(s)
-        self.n += 1
 
     def remove(self, s):
         """
@@ -84,7 +83,6 @@ class StringSet:
         """
         assert (s in self.stringSet), funcs.errorMessage(err = "Error: name '{}' is not used.".format(s), location = "StringSet.remove")
         self.stringSet.remove(s)
-        self.n -= 1
 
     def contains(self, s):
         """
-- 
2.43.0


From 4264d3df85a54be4f8d30806dc1a2168bdc64192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 36/51] fix: an isolated Ising site contributes the sum over
 its two states

---
 src/CTL/models/Ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/models/Ising.py b/src/CTL/models/Ising.py
index 0e0344d..b44d392 100644
--- a/src/CTL/models/Ising.py
+++ b/src/CTL/models/Ising.py
@@ -200,7 +200,7 @@ def IsingSiteTensor(betaJ, dim = 4, labels = None):
     assert ((labels is None) or (len(labels) == dim)), funcs.errorMessage("labels {} do not have required dim {}.".format(labels, dim))
 
     a = xplib.xp.array([1.0, 1.0])
-    a = funcs.diagonalNDTensor(a, dim = dim)
+    a = funcs.diagonalNDTensor(a, dim = dim) if (dim > 0) else xplib.xp.sum(a)
     if (funcs.isRealNumber(betaJ)):
         betaJ = [betaJ] * dim
     # edgeMat = IsingEdgeMatrix(betaJ)
-- 
2.43.0


From df7ec64a82a1ed04eed8690d43fcb5b124ef10c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 37/51] fix: impurity orders without a tensor are skipped

---
 src/CTL/examples/impurity.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/CTL/examples/impurity.py b/src/CTL/examples/impurity.py
index 11aac48..4255a10 100644
--- a/src/CTL/examples/impurity.py
+++ b/src/CTL/examples/impurity.py
@@ -32,9 +32,10 @@ class ImpurityTensorNetwork:
     def appendToArchive(self, norm):
         # print('norm = {}'.format(norm))
         for a in self.impurities:
-            a.a /= norm 
+            if (a is not None):
+                a.a /= norm 
         self.norms.append(norm)
-        self.impurityArchive.append([a.copy() for a in self.impurities])
+        self.impurityArchive.append([(None if (a is None) else a.copy()) for a in self.impurities])
 
     def initialize(self):
         assert (self.RG is not None), "Error: ImpurityTensorNetwork cannot initialize if RG is None."
@@ -78,6 +79,10 @@ class ImpurityTensorNetwork:
                     res.reArrange(resLabels)
                     resA += res.a * partWeight 
             
+            if (resA is None):
+                newImpurities.append(None)
+                continue
+
             resA /= totalWeight 
             resTensor = Tensor(labels = resLabels, data = resA, degreeOfFreedom = newDOF)
             newImpurities.append(resTensor)
@@ -91,7 +96,10 @@ class ImpurityTensorNetwork:
         for i in range(len(self.impurityArchive)):
             res.append([])
             for tensor in self.impurityArchive[i]:
-                res[-1].append(self.RG.tensorTrace(tensor) / self.RG.pureTensorTrace(i))
+                if (tensor is None):
+                    res[-1].append(None)
+                else:
+                    res[-1].append(self.RG.tensorTrace(tensor) / self.RG.pureTensorTrace(i))
 
         return res
 
-- 
2.43.0


From fbf40ed70b9198cf32f99bd898f69330e60e387a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:12 +0000
Subject: [PATCH 38/51] fix: renaming a set of labels finds all of them before
 it changes any

---
 src/CTL/tensor/tensor.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index c245736..06d4a14 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -750,8 +750,12 @@ class Tensor(TensorBase):
 
         """
         assert (len(changeFrom) == len(changeTo)), "Error: renameLabels need two list with equal number of labels, gotten {} and {}".format(changeFrom, changeTo)
-        for cf, ct in zip(changeFrom, changeTo):
-            self.renameLabel(cf, ct)
+        indices = self.getLabelIndices(changeFrom)
+        for index, cf, ct in zip(indices, changeFrom, changeTo):
+            if (index == -1):
+                warnings.warn(funcs.warningMessage(warn = "leg name {} does not exist, no rename happened".format(cf), location = "Tensor.renameLabels"), RuntimeWarning)
+            else:
+                self.legs[index].name = ct
 
     def shapeOfLabel(self, label, backward = False):
         """
-- 
2.43.0


From 2f6abfb928e91a5badd19d8589bc451c5f274cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 39/51] Revert "fix: impurity orders without a tensor are
 skipped"

This reverts commit df7ec64a82a1ed04eed8690d43fcb5b124ef10c3.
---
 src/CTL/examples/impurity.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/CTL/examples/impurity.py b/src/CTL/examples/impurity.py
index 4255a10..11aac48 100644
--- a/src/CTL/examples/impurity.py
+++ b/src/CTL/examples/impurity.py
@@ -32,10 +32,9 @@ class ImpurityTensorNetwork:
     def appendToArchive(self, norm):
         # print('norm = {}'.format(norm))
         for a in self.impurities:
-            if (a is not None):
-                a.a /= norm 
+            a.a /= norm 
         self.norms.append(norm)
-        self.impurityArchive.append([(None if (a is None) else a.copy()) for a in self.impurities])
+        self.impurityArchive.append([a.copy() for a in self.impurities])
 
     def initialize(self):
         assert (self.RG is not None), "Error: ImpurityTensorNetwork cannot initialize if RG is None."
@@ -79,10 +78,6 @@ class ImpurityTensorNetwork:
                     res.reArrange(resLabels)
                     resA += res.a * partWeight 
             
-            if (resA is None):
-                newImpurities.append(None)
-                continue
-
             resA /= totalWeight 
             resTensor = Tensor(labels = resLabels, data = resA, degreeOfFreedom = newDOF)
             newImpurities.append(resTensor)
@@ -96,10 +91,7 @@ class ImpurityTensorNetwork:
         for i in range(len(self.impurityArchive)):
             res.append([])
             for tensor in self.impurityArchive[i]:
-                if (tensor is None):
-                    res[-1].append(None)
-                else:
-                    res[-1].append(self.RG.tensorTrace(tensor) / self.RG.pureTensorTrace(i))
+                res[-1].append(self.RG.tensorTrace(tensor) / self.RG.pureTensorTrace(i))
 
         return res
 
-- 
2.43.0


From 17fea4a208a751eb5ef895c78a5add324f518440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 40/51] Revert "fix: a pair of triangle tensors holds as many
 unit cells as each of its tensors"

This reverts commit 158898629b8d65ab528154a2d62bff833ada01af.
---
 src/CTL/examples/TRG.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/CTL/examples/TRG.py b/src/CTL/examples/TRG.py
index 7a16406..dda1669 100644
--- a/src/CTL/examples/TRG.py
+++ b/src/CTL/examples/TRG.py
@@ -97,8 +97,7 @@ class TriangleTRG:
         stepN = len(self.aArchive)
         # print(stepN, len(self.aNorms))
         for i in range(stepN):
-            # one a and one b make one unit cell at the beginning, 3^i unit cells after i steps
-            dof = self.aArchive[i].degreeOfFreedom
+            dof = self.aArchive[i].degreeOfFreedom * self.bArchive[i].degreeOfFreedom
             accumulateLogZ += xplib.xp.log(self.aNorms[i] * self.bNorms[i]) / dof
             TNTrace = triangleTensorTrace(self.aArchive[i], self.bArchive[i])
             currLogZ = accumulateLogZ + xplib.xp.log(TNTrace.single()) / dof
-- 
2.43.0


From 93f6a889db954c8aed2550baf0b70e179d89f215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 41/51] Revert "fix: SquareTRG can start from two tensors"

This reverts commit f1127bf905af7c8beeb9b187aba9f9eb41202916.
---
 src/CTL/examples/TRG.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/CTL/examples/TRG.py b/src/CTL/examples/TRG.py
index dda1669..04a7c5b 100644
--- a/src/CTL/examples/TRG.py
+++ b/src/CTL/examples/TRG.py
@@ -119,12 +119,6 @@ class SquareTRG:
 
         if (self.a.degreeOfFreedom is None):
             self.a.degreeOfFreedom = 1
-
-        self.aNorms = []
-        self.errors = []
-
-        self.aArchive = []
-
         if (b is not None):
             if (isinstance(b, Tensor)):
                 self.b = b.copy()
@@ -134,7 +128,13 @@ class SquareTRG:
             self.iterate()
         else:
             self.b = self.a
-            self.appendToArchive()
+
+        self.aNorms = []
+        self.errors = []
+
+        self.aArchive = []
+
+        self.appendToArchive()
 
     def appendToArchive(self):
         self.normalizeTensors()
-- 
2.43.0


From fc41dafc436ed5586897f55acecf4d4265932a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 42/51] Revert "fix: merging two tensors of an MPS invalidates
 its canonical centre"

This reverts commit 973d1794bb351b8b4fe429f3362ad14ebf4a6f8c.
---
 src/CTL/examples/MPS.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/CTL/examples/MPS.py b/src/CTL/examples/MPS.py
index a5eb7a6..17180ff 100644
--- a/src/CTL/examples/MPS.py
+++ b/src/CTL/examples/MPS.py
@@ -242,7 +242,6 @@ class FreeBoundaryMPS:
         funcName = 'FreeBoundaryMPS.mergeTensor'
         assert (self.isIndex(idx) and self.isIndex(idx + 1)), funcs.errorMessage("{} or {} is invalid index.".format(idx, idx + 1), location = funcName)
         self._tensors = self._tensors[:idx] + [newTensor] + self._tensors[(idx + 2):]
-        self.activeIdx = None
 
     def hasTensor(self, tensor):
         return tensor in self._tensors
-- 
2.43.0


From 50494b437d21843f576b07a57214f568efc711ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 43/51] Revert "fix: the default chi of an MPS is its largest
 bond dimension"

This reverts commit b30659ebb35a243fdeab1c0079ddf8a7b74d071a.
---
 src/CTL/examples/MPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/examples/MPS.py b/src/CTL/examples/MPS.py
index 17180ff..8ce70b4 100644
--- a/src/CTL/examples/MPS.py
+++ b/src/CTL/examples/MPS.py
@@ -50,7 +50,7 @@ class FreeBoundaryMPS:
         bondChi = -1
         for i in range(self.n - 1):
             bond = shareBonds(self._tensors[i], self._tensors[i + 1])[0]
-            bondChi = max(bondChi, bond.legs[0].dim) 
+            bondChi = min(bondChi, bond.legs[0].dim) 
         
         if (chi is None):
             return bondChi 
-- 
2.43.0


From f7cc264abe77174558e9080e5c8c729dd1c87c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:37 +0000
Subject: [PATCH 44/51] fix: relative equality of floats also holds for zeros
 and negative numbers

---
 src/CTL/funcs/funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index 8af7ae3..ceddbe1 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -972,7 +972,7 @@ def floatRelativeEqual(a, b, eps = 1e-7):
     bool
         Whether the two numbers are equal.
     """
-    return abs(a - b) < eps * 0.5 * (a + b)
+    return abs(a - b) <= eps * 0.5 * (abs(a) + abs(b))
 
 def floatArrayEqual(a, b, eps = 1e-7):
     """
-- 
2.43.0


From 464688db5f4a7cf43a360bed93644d95360ff0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:37 +0000
Subject: [PATCH 45/51] fix: an element that repeats in both lists is a common
 element once

---
 src/CTL/funcs/funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index ceddbe1..1fa6594 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -166,7 +166,7 @@ def commonElements(x, y):
     """
     xc = Counter(x)
     yc = Counter(y)
-    return list((xc & yc).elements())
+    return list(xc & yc)
 
 def listSymmetricDifference(x, y):
     """
-- 
2.43.0


From ae158320d9e3be731a13924cfda7c4418b475038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:22 +0000
Subject: [PATCH 46/51] fix: number edges added to an indexed tensor graph even
 if its edges were listed in between

---
 src/CTL/tensor/contract/tensorGraph.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index bb926e4..65af19e 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -66,8 +66,6 @@ class TensorGraph(UndirectedGraph):
         """
         Add an index to each edge.
         """
-        if (self.indexed) and (not self.updated):
-            return
         edges = self.getEdges()
         m = len(edges)
         for i in range(m):
-- 
2.43.0


From 4327dbfc0002f8b00ccad0aade39a3296f385ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:42 +0000
Subject: [PATCH 47/51] fix: record the data type of the weighted sum over a
 leg

---
 src/CTL/tensor/diagonalTensor.py | 2 ++
 src/CTL/tensor/tensor.py         | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index afbd71c..3ff4c2d 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -755,6 +755,8 @@ class DiagonalTensor(Tensor):
         else:
             if (weights is not None) and (not self.tensorLikeFlag):
                 self.a = self.a * weights
+        if not self.tensorLikeFlag:
+            self.dtype = self.a.dtype
 
     def typeName(self):
         """
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index 06d4a14..8e203bc 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -1102,6 +1102,7 @@ class Tensor(TensorBase):
         # self.a = xplib.xp.sum(self.a, axis = idx)
         if (not self.tensorLikeFlag):
             self.a = funcs.sumOnAxis(self.a, axis = idx, weights = weights)
+            self.dtype = self.a.dtype
         self.legs = self.legs[:idx] + self.legs[(idx + 1):]
     
     def sumOutLegByLabel(self, label, backward = False, weights = None):
-- 
2.43.0


From a73c71034422e168a8bc723af0141adf699f9d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:53 +0000
Subject: [PATCH 48/51] fix: random data of a new tensor has the data type
 asked for

---
 src/CTL/tensor/tensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index 8e203bc..419c4ea 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -272,10 +272,11 @@ class Tensor(TensorBase):
         if (isTensorLike):
             return None
         if (data is None):
-            if self.isFloatTensor():
+            if not xplib.xp.issubdtype(self.dtype, xplib.xp.complexfloating):
                 data = xplib.xp.random.random_sample(shape)
             else:
                 data = xplib.xp.random.random_sample(shape) + xplib.xp.random.random_sample(shape) * 1.0j
+            data = xplib.xp.array(data, dtype = self.dtype)
         elif (data.shape != shape):
             data = xplib.xp.copy(data.reshape(shape))
         else:
-- 
2.43.0


From 28a3a712f3c309396f865e9c0db43367c02dae21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:51 +0000
Subject: [PATCH 49/51] fix: decompose a tensor whose rows or columns are left
 out

---
 src/CTL/tensor/tensorFunc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CTL/tensor/tensorFunc.py b/src/CTL/tensor/tensorFunc.py
index 335cfac..84350da 100644
--- a/src/CTL/tensor/tensorFunc.py
+++ b/src/CTL/tensor/tensorFunc.py
@@ -74,6 +74,10 @@ def tensorSVDDecomposition(a, rows = None, cols = None, innerLabels = None, pres
     funcName = "CTL.tensor.tensorFuncs.tensorSVDDecomposition"
     aMat = a.toMatrix(rows = rows, cols = cols)
     # print('aMat = {}'.format(aMat))
+    if (rows is None):
+        rows = funcs.listDifference(a.labels, cols)
+    if (cols is None):
+        cols = funcs.listDifference(a.labels, rows)
     rowName = '|'.join(rows)
     colName = '|'.join(cols)
 
-- 
2.43.0


From c0219d118b473c5d74e48b54baf34b61f06c8840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:06 +0000
Subject: [PATCH 50/51] fix: getDiffError sums the squared differences of the
 entries

---
 src/CTL/funcs/funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index 1fa6594..36d1d2e 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -463,7 +463,7 @@ def getDiffError(a, b):
         The sum of element-wise distance square between a and b.
     """
     deprecatedFuncWarning(funcName = 'getDiffError', fileName = 'CTL.funcs.funcs')
-    return xplib.xp.linalg.norm(a ** 2) + xplib.xp.linalg.norm(b ** 2) - xplib.xp.linalg.norm(a * b) * 2
+    return xplib.xp.linalg.norm(a - b) ** 2
 
 def matDiffError(a, b):
     """
-- 
2.43.0


From 4613f7dfdb64f48b4310fb19ad41920dd2b8f816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:34 +0000
Subject: [PATCH 51/51] fix: brute-force search tracks which partial results
 are diagonal

---
 src/CTL/tensor/contract/tensorGraph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index 65af19e..93b8870 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -285,9 +285,7 @@ class TensorGraph(UndirectedGraph):
                     solveSet(tsA)
                 if (self.optimalCost[tsB] is None):
                     solveSet(tsB)
-                if (self.contractRes[x] is None):
-                    self.contractRes[x] = calculateContractRes(tsA, tsB)
-                
+
                 localCost = costFunc(tsA, tsB)
                 currCost = self.optimalCost[tsA] + self.optimalCost[tsB] + localCost
                 if (minCost is None) or (currCost < minCost):
@@ -295,6 +293,8 @@ class TensorGraph(UndirectedGraph):
                     minTSA = tsA
                     minTSB = tsB
 
+            # whether the result is diagonal depends on the way it is contracted
+            self.contractRes[x] = calculateContractRes(minTSA, minTSB)
             self.optimalCost[x] = minCost
             self.optimalSeq[x] = self.optimalSeq[minTSA] + self.optimalSeq[minTSB] + [(lowbitI(minTSA), lowbitI(minTSB))]
 
-- 
2.43.0

