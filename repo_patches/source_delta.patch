From ca5dc6c6cd4fc465f874c8cdd65a95056b3bd613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 001/124] fix: Sparse unique, splitByParsing, splitByCollapsing
 and combineByExpanding of numeric data with scipy lacking object dtype
 support

---
 nimble/core/data/sparseAxis.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/nimble/core/data/sparseAxis.py b/nimble/core/data/sparseAxis.py
index e71e67c..6d540c3 100644
--- a/nimble/core/data/sparseAxis.py
+++ b/nimble/core/data/sparseAxis.py
@@ -298,9 +298,7 @@ class SparseAxis(Axis, metaclass=ABCMeta):
             self._base._resetSorted()
 
         # need to manually set dtype or coo_matrix will force to simplest dtype
-        targetArr = np.array(targetData)
-        if not np.issubdtype(targetArr.dtype, np.number):
-            targetArr = np.array(targetData, dtype=np.object_)
+        targetArr = _dataArray(targetData)
         ret = scipy.sparse.coo_matrix((targetArr, (targetRows, targetCols)),
                                       shape=targetShape)
         return nimble.core.data.Sparse(ret, pointNames=pointNames,
@@ -357,7 +355,7 @@ class SparseAxis(Axis, metaclass=ABCMeta):
         if hasOffAxisNames:
             offAxisNames = getOffAxisNames()
 
-        uniqueData = np.array(uniqueData, dtype=np.object_)
+        uniqueData = _dataArray(uniqueData)
         if self._isPoint:
             shape = (axisCount, len(self._base.features))
             uniqueCoo = scipy.sparse.coo_matrix(
@@ -418,7 +416,7 @@ class SparsePoints(SparseAxis, Points):
                 tmpRow.append(ptIdx * len(featuresToCollapse) + idx)
                 tmpCol.append(numRetFeatures - 1)
 
-        tmpData = np.array(tmpData, dtype=np.object_)
+        tmpData = _dataArray(tmpData)
         self._base._data = scipy.sparse.coo_matrix(
             (tmpData, (tmpRow, tmpCol)), shape=(numRetPoints, numRetFeatures))
         self._base._resetSorted()
@@ -442,7 +440,7 @@ class SparsePoints(SparseAxis, Points):
             tmpRow.extend([idx for _ in range(len(point) + numNewFts)])
             tmpCol.extend(list(range(numRetFeatures)))
 
-        tmpData = np.array(tmpData, dtype=np.object_)
+        tmpData = _dataArray(tmpData)
         shape = (len(uniqueDict), numRetFeatures)
         self._base._data = scipy.sparse.coo_matrix((tmpData, (tmpRow, tmpCol)),
                                                    shape=shape)
@@ -508,7 +506,7 @@ class SparseFeatures(SparseAxis, Features):
                        in range(len(self._base.points))]
             tmpCol = np.concatenate((tmpCol, newCols))
 
-        tmpData = np.array(tmpData, dtype=np.object_)
+        tmpData = _dataArray(tmpData)
         shape = (len(self._base.points), numRetFeatures)
         self._base._data = scipy.sparse.coo_matrix((tmpData, (tmpRow, tmpCol)),
                                                    shape=shape)
@@ -542,6 +540,17 @@ class SparseFeaturesView(FeaturesView, SparseFeatures):
 # Generic Helpers #
 ###################
 
+def _dataArray(values):
+    """
+    Array of values for the data attribute of a coo_matrix. A numeric or
+    boolean dtype is used whenever possible because scipy does not support
+    sparse matrices with object dtype.
+    """
+    ret = np.array(values)
+    if not (np.issubdtype(ret.dtype, np.number) or ret.dtype == np.bool_):
+        ret = np.array(values, dtype=np.object_)
+    return ret
+
 def _calcShapes(currShape, numExtracted, axisType):
     if axisType == "feature":
         (rowShape, colShape) = currShape
-- 
2.43.0


From 2dc1667a1dcdc4f69929911e7d6892811319dfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 002/124] fix: points/features.repeat with default names

---
 nimble/core/data/axis.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 636551e..f3cbca4 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -819,23 +819,27 @@ class Axis(ABC):
             namesToRepeat = ftNames
             ptNames = self._base.points._getNamesNoGeneration()
 
+        def repeatName(name, copyNum):
+            # default names remain default names
+            return None if name is None else name + "_" + str(copyNum)
+
         if copyVectorByVector and namesToRepeat is not None:
             origNames = namesToRepeat.copy()
             for idx, name in enumerate(origNames):
                 for i in range(totalCopies):
                     currIdx = (totalCopies * idx) + i
                     if currIdx < len(origNames):
-                        namesToRepeat[currIdx] = name + "_" + str(i + 1)
+                        namesToRepeat[currIdx] = repeatName(name, i + 1)
                     else:
-                        namesToRepeat.append(name + "_" + str(i + 1))
+                        namesToRepeat.append(repeatName(name, i + 1))
         elif namesToRepeat is not None:
             origNames = namesToRepeat.copy()
             for i in range(totalCopies):
                 for idx, name in enumerate(origNames):
                     if i == 0:
-                        namesToRepeat[idx] = name + "_" + str(i + 1)
+                        namesToRepeat[idx] = repeatName(name, i + 1)
                     else:
-                        namesToRepeat.append(name + "_" + str(i + 1))
+                        namesToRepeat.append(repeatName(name, i + 1))
 
         ret = createDataNoValidation(self._base.getTypeString(), repeated,
                                      pointNames=ptNames, featureNames=ftNames)
-- 
2.43.0


From 47118856d4fa30e477ae11c63ca0c6c79fcbac50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 003/124] fix: features query strings on an object with one
 point

---
 nimble/core/data/axis.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index f3cbca4..9c31a30 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -1128,9 +1128,13 @@ class Axis(ABC):
                 msg += "padded operator."
             raise InvalidArgumentValue(msg) from e
 
-        if not self._base._getAxis(offAxis)._hasName(query.identifier):
+        offAxisObj = self._base._getAxis(offAxis)
+        if not offAxisObj._hasName(query.identifier):
             msg = f"the {offAxis} '{query.identifier}' does not exist"
             raise InvalidArgumentValue(msg)
+        # a vector with a single element is always treated as a point by
+        # __getitem__ so names are only usable for feature names
+        query.identifier = offAxisObj._getIndex(query.identifier)
 
         return query
 
-- 
2.43.0


From 29dd142a268f595b03c91edcb9aa3c6a4e92a113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 004/124] fix: insert and append when default names are
 opposite names

---
 nimble/core/data/axis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 9c31a30..901d2ec 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -1477,7 +1477,10 @@ class Axis(ABC):
         if offAxisObj._namesCreated() and toInsertAxis._namesCreated():
             objAllDefault = offAxisObj._allDefaultNames()
             toInsertAllDefault = toInsertAxis._allDefaultNames()
-            reorder = offAxisObj.getNames() != toInsertAxis.getNames()
+            # validation has ensured inconsistent names can be reordered; a
+            # default name opposite a name is not an inconsistency
+            reorder = inconsistentNames(offAxisObj.getNames(),
+                                        toInsertAxis.getNames())
             if not (objAllDefault or toInsertAllDefault) and reorder:
                 # use copy when reordering so toInsert object is not modified
                 toInsert = toInsert.copy()
-- 
2.43.0


From b1b5cc7047f6d50e7d6ea3a91b606c7c0323e3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:33 +0000
Subject: [PATCH 005/124] fix: replaceRectangle uses the number of features of
 replaceWith for the end feature

---
 nimble/core/data/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 99cefb1..2fa0d55 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -3964,7 +3964,7 @@ class Base(ABC):
                         start=pointStart, end=pointEnd, rangeLen=prange)
                     raise InvalidArgumentValueCombination(msg)
             if featureEnd is None:
-                feIndex = fsIndex + len(replaceWith.points) - 1
+                feIndex = fsIndex + len(replaceWith.features) - 1
             else:
                 feIndex = self.features.getIndex(featureEnd)
                 frange = (feIndex - fsIndex) + 1
-- 
2.43.0


From 045b59c935b3331711a2e660bb46b2da83852873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:31 +0000
Subject: [PATCH 006/124] fix: setting items with slices, lists of identifiers
 or a list of values

---
 nimble/core/data/base.py | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 2fa0d55..85f2a7d 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -2240,26 +2240,39 @@ class Base(ABC):
         # Validate single or multiple indices for 'x'
         single_x = isinstance(x, (int, float, str, np.integer))
         if single_x:
-            x = self.points._getIndex(x, allowFloats=True)
+            x = [self.points._getIndex(x, allowFloats=True)]
         else:
             x = self.points._processMultiple(x)
-        
+            if x is None: # full slice
+                x = range(len(self.points))
+
         # Validate single or multiple indices for 'y'
         single_y = isinstance(y, (int, float, str, np.integer))
         if single_y:
-            y = self.features._getIndex(y, allowFloats=True)
+            y = [self.features._getIndex(y, allowFloats=True)]
         else:
             y = self.features._processMultiple(y)
-        
-        # Perform setting operation based on single or multiple indices
-        if single_x and single_y:
-            self._setitem_implementation(x, y, value)
+            if y is None: # full slice
+                y = range(len(self.features))
+
+        # Values provided for each element of the selection
+        if isinstance(value, (list, tuple, np.ndarray)):
+            values = np.array(value, dtype=np.object_)
+            if values.size != len(x) * len(y):
+                msg = "The number of values provided does not match the "
+                msg += "number of elements selected"
+                raise InvalidArgumentValue(msg)
+            values = values.reshape(len(x), len(y))
         else:
-            for i in x:
-                for j in y:
-                    self._setitem_implementation(i, j, value)
-        
-    
+            values = None
+
+        # Perform setting operation
+        for i, xIdx in enumerate(x):
+            for j, yIdx in enumerate(y):
+                val = value if values is None else values[i, j]
+                self._setitem_implementation(xIdx, yIdx, val)
+
+
     def pointView(self, identifier):
         """
         A read-only view of a single point.
-- 
2.43.0


From 44a686ae9db40626ea7e410c51fa31223a3db09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:31 +0000
Subject: [PATCH 007/124] fix: Sparse element functions with preserved zeros,
 subsets and None return values

---
 nimble/core/data/sparse.py | 44 +++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 45605e8..8d0a51b 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -161,13 +161,16 @@ class Sparse(Base):
                 return None
 
             if toTransform.oneArg:
-                return toTransform(value)
+                ret = toTransform(value)
+            else:
+                ret = toTransform(value, pID, fID)
 
-            return toTransform(value, pID, fID)
+            return np.nan if ret is None else ret
 
         # perserveZeros is always False in this helper, skipNoneReturnValues
-        # is being hijacked by the wrapper: even if it was False, Sparse can't
-        # contain None values.
+        # is being hijacked by the wrapper to leave the other values as they
+        # are. toTransform already applies the user's skipNoneReturnValues, so
+        # the wrapper replaces any None it returns (Sparse can't contain None).
         ret = self.calculateOnElements(wrapper, None, None,
                                        preserveZeros=False,
                                        skipNoneReturnValues=True, useLog=False)
@@ -197,6 +200,8 @@ class Sparse(Base):
         if all(issubclass(type(d), numbers.Number) for d in self._data.data):
             self._data.data = np.array(list(self._data.data))
         self._data.eliminate_zeros()
+        # the number of stored values may have changed
+        self._sorted['indices'] = None
 
     def _calculate_implementation(self, function, points, features,
                                   preserveZeros):
@@ -208,12 +213,17 @@ class Sparse(Base):
             # initiate generic implementation for view types
             preserveZeros = False
         # all data
-        if preserveZeros and points is None and features is None:
+        def applyFunction(values):
+            if len(values) == 0: # vectorized functions do not allow size 0
+                return values
             try:
-                data = function(data)
+                return function(values)
             except Exception: # pylint: disable=broad-except
                 function.otypes = [np.object_]
-                data = function(data)
+                return function(values)
+
+        if preserveZeros and points is None and features is None:
+            data = applyFunction(data)
             shape = self._data.shape
             values = scipy.sparse.coo_matrix((data, (row, col)), shape=shape)
             # note: even if function transforms nonzero values into zeros
@@ -221,17 +231,25 @@ class Sparse(Base):
             return values
         # subset of data
         if preserveZeros:
+            if points is None:
+                points = range(len(self.points))
+            if features is None:
+                features = range(len(self.features))
+            # location of each included point and feature in the subset
+            rowMap = {ptIdx: i for i, ptIdx in enumerate(points)}
+            colMap = {ftIdx: j for j, ftIdx in enumerate(features)}
             dataSubset = []
             rowSubset = []
             colSubset = []
             for idx, val in enumerate(data):
-                if row[idx] in points and col[idx] in features:
-                    rowSubset.append(row[idx])
-                    colSubset.append(col[idx])
+                if row[idx] in rowMap and col[idx] in colMap:
+                    rowSubset.append(rowMap[row[idx]])
+                    colSubset.append(colMap[col[idx]])
                     dataSubset.append(val)
-            dataSubset = function(dataSubset)
-            values = scipy.sparse.coo_matrix((dataSubset,
-                                              (rowSubset, colSubset)))
+            dataSubset = applyFunction(dataSubset)
+            values = scipy.sparse.coo_matrix(
+                (dataSubset, (rowSubset, colSubset)),
+                shape=(len(rowMap), len(colMap)))
             # note: even if function transforms nonzero values into zeros
             # our init methods will filter them out from the data attribute
             return values
-- 
2.43.0


From feeb9f67617b52ff6240d45b6f7c6713d1bdd6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:31 +0000
Subject: [PATCH 008/124] fix: setting a value does not fit the new value to
 the previous type of the data

---
 nimble/core/data/_dataHelpers.py | 3 +++
 nimble/core/data/matrix.py       | 2 +-
 nimble/core/data/sparse.py       | 4 +++-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index ce95dca..8a11a08 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -1166,6 +1166,9 @@ def modifyNumpyArrayValue(arr, index, newVal):
         arr = arr.astype(np.object_)
     elif floatNewVal and arr.dtype not in (np.floating, np.object_):
         arr = arr.astype(np.float64)
+    elif (arr.dtype == np.bool_ and newVal is not None
+          and not isinstance(newVal, (bool, np.bool_))):
+        arr = arr.astype(np.array(newVal).dtype)
 
     arr[index] = newVal
 
diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index 0fd5a76..3d13034 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -401,7 +401,7 @@ class Matrix(Base):
         return self._data[x, y]
     
     def _setitem_implementation(self, x, y, value):
-        self._data[x, y] = value
+        self._data = modifyNumpyArrayValue(self._data, (x, y), value)
 
     def _view_implementation(self, pointStart, pointEnd, featureStart,
                              featureEnd, dropDimension):
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 8d0a51b..0d88a9f 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -864,7 +864,9 @@ class Sparse(Base):
             k = np.searchsorted(offAxis[start:end], offAxisVal) + start
             if k < end and offAxis[k] == offAxisVal:
                 if value != 0:
-                    self._data.data[k] = value  # Update existing entry
+                    # Update existing entry
+                    self._data.data = modifyNumpyArrayValue(self._data.data, k,
+                                                            value)
                 else:
                     # Remove entry if value is zero (maintain sparsity)
                     self._data.data = np.delete(self._data.data, k)
-- 
2.43.0


From 2fb8b5633ceb81487ba336f7e7a6d5293cc3f828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:31 +0000
Subject: [PATCH 009/124] fix: names of points/features.calculate when the
 limit changes the order

---
 nimble/core/data/axis.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 901d2ec..b689ffa 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -557,13 +557,10 @@ class Axis(ABC):
             axisNameSetter = ret.features.setNames
             offAxisNameSetter = ret.points.setNames
 
-        if len(limitTo) < len(self) and self._namesCreated():
-            names = []
-            for index in limitTo:
-                names.append(self._getName(index))
+        if self._namesCreated():
+            names = [self._getName(index) for index in limitTo]
             axisNameSetter(names, useLog=False)
-        elif self._namesCreated():
-            axisNameSetter(self._getNames(), useLog=False)
+
         if offAxisNames is not None:
             offAxisNameSetter(offAxisNames, useLog=False)
 
-- 
2.43.0


From 06dc27fbb447c8ead80533978e28f3d45afb66f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 010/124] fix: calculateOnElements converts every value to the
 type of the first value returned

---
 nimble/core/data/_dataHelpers.py | 23 +++++++++++++++++++++++
 nimble/core/data/base.py         | 11 +++--------
 nimble/core/data/sparse.py       | 13 ++-----------
 3 files changed, 28 insertions(+), 19 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index 8a11a08..e79c6cc 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -21,6 +21,7 @@ the main data wrapper objects defined in this module.
 """
 
 import math
+import numbers
 import re
 from functools import wraps
 import os.path
@@ -1154,6 +1155,28 @@ def isValid2DObject(data):
     """
     return is2DArray(data) or is2DList(data)
 
+def vectorizeElementFunction(func):
+    """
+    Vectorize an element function, allowing for any types to be returned.
+
+    Unless otypes is specified, np.vectorize converts every value to the
+    type of the first value returned. Instead, a numeric dtype is used
+    only when it is suitable for all of the values returned.
+    """
+    vectorized = np.vectorize(func, otypes=[np.object_])
+
+    def applyFunction(values):
+        ret = vectorized(values)
+        if ret.ndim == 0: # single element
+            return ret.item()
+        if all(val is None or isinstance(val, (numbers.Number, np.bool_))
+               for val in ret.flat):
+            converted = [np.nan if val is None else val for val in ret.flat]
+            return np.array(converted).reshape(ret.shape)
+        return ret
+
+    return applyFunction
+
 def modifyNumpyArrayValue(arr, index, newVal):
     """
     Change a single value in a numpy array.
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 85f2a7d..2eaf7ea 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -55,6 +55,7 @@ from ._dataHelpers import createListOfDict, createDictOfList
 from ._dataHelpers import createDataNoValidation
 from ._dataHelpers import csvCommaFormat
 from ._dataHelpers import validateElementFunction, wrapMatchFunctionFactory
+from ._dataHelpers import vectorizeElementFunction
 from ._dataHelpers import ElementIterator1D
 from ._dataHelpers import limitedTo2D
 from ._dataHelpers import arrangeFinalTable
@@ -1090,7 +1091,7 @@ class Base(ABC):
             optType = self.getTypeString()
         # Use vectorized for functions with oneArg
         if calculator.oneArg:
-            vectorized = np.vectorize(calculator)
+            vectorized = vectorizeElementFunction(calculator)
             values = self._calculate_implementation(
                 vectorized, points, features, preserveZeros)
 
@@ -1137,13 +1138,7 @@ class Base(ABC):
         toCalculate = self.copy(to='numpyarray')
         # array with only desired points and features
         toCalculate = toCalculate[points[:, None], features]
-        try:
-            return function(toCalculate)
-        except Exception: # pylint: disable=broad-except
-            # change output type of vectorized function to object to handle
-            # nonnumeric data
-            function.otypes = [np.object_]
-            return function(toCalculate)
+        return function(toCalculate)
 
     @limitedTo2D
     def countElements(self, condition):
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 0d88a9f..bc0c6f5 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -213,17 +213,8 @@ class Sparse(Base):
             # initiate generic implementation for view types
             preserveZeros = False
         # all data
-        def applyFunction(values):
-            if len(values) == 0: # vectorized functions do not allow size 0
-                return values
-            try:
-                return function(values)
-            except Exception: # pylint: disable=broad-except
-                function.otypes = [np.object_]
-                return function(values)
-
         if preserveZeros and points is None and features is None:
-            data = applyFunction(data)
+            data = function(data)
             shape = self._data.shape
             values = scipy.sparse.coo_matrix((data, (row, col)), shape=shape)
             # note: even if function transforms nonzero values into zeros
@@ -246,7 +237,7 @@ class Sparse(Base):
                     rowSubset.append(rowMap[row[idx]])
                     colSubset.append(colMap[col[idx]])
                     dataSubset.append(val)
-            dataSubset = applyFunction(dataSubset)
+            dataSubset = function(dataSubset)
             values = scipy.sparse.coo_matrix(
                 (dataSubset, (rowSubset, colSubset)),
                 shape=(len(rowMap), len(colMap)))
-- 
2.43.0


From eaaf638c5645a971e9aa8c5bcae654a9a47b07b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:44 +0000
Subject: [PATCH 011/124] fix: replaceRectangle in Matrix and Sparse objects

---
 nimble/core/data/matrix.py |   9 +-
 nimble/core/data/sparse.py | 204 +++++--------------------------------
 2 files changed, 32 insertions(+), 181 deletions(-)

diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index 3d13034..fcf4cbb 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -225,11 +225,16 @@ class Matrix(Base):
     def _replaceRectangle_implementation(self, replaceWith, pointStart,
                                          featureStart, pointEnd, featureEnd):
         if not isinstance(replaceWith, Base):
-            values = replaceWith * np.ones((pointEnd - pointStart + 1,
-                                            featureEnd - featureStart + 1))
+            values = np.full((pointEnd - pointStart + 1,
+                              featureEnd - featureStart + 1), replaceWith)
         else:
             values = replaceWith._data
 
+        # the current dtype may not be able to store the new values
+        if self._data.dtype != values.dtype:
+            dtype = np.result_type(self._data.dtype, values.dtype)
+            self._data = self._data.astype(dtype)
+
         # numpy is exclusive
         pointEnd += 1
         featureEnd += 1
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index bc0c6f5..2f81c91 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -416,158 +416,35 @@ class Sparse(Base):
 
     def _replaceRectangle_implementation(self, replaceWith, pointStart,
                                          featureStart, pointEnd, featureEnd):
-        # sort values or call helper as needed
-        constant = not isinstance(replaceWith, Base)
-        if constant:
-            if replaceWith == 0:
-                self._replaceRectangle_zeros_implementation(
-                    pointStart, featureStart, pointEnd, featureEnd)
-                return
-        else:
-            replaceWith._sortInternal('point')
-
-        # this has to be after the possible call to
-        # _replaceRectangle_zeros_implementation; unnecessary for that helper
-        self._sortInternal('point', setIndices=True)
-
-        selfIdx = 0
-        valsIdx = 0
-        copyIndex = 0
-        toAddData = []
-        toAddRow = []
-        toAddCol = []
-        selfEnd = self._sorted['indices'][pointEnd + 1]
-        if constant:
-            valsEnd = ((pointEnd - pointStart + 1)
-                       * (featureEnd - featureStart + 1))
-        else:
-            valsEnd = len(replaceWith._data.data)
-
-        # Adjust selfIdx so that it begins at the values that might need to be
-        # replaced, or, if no such values exist, set selfIdx such that the main
-        # loop will ignore the contents of self.
-        if len(self._data.data) > 0:
-            selfIdx = self._sorted['indices'][pointStart]
-
-            pcheck = self._data.row[selfIdx]
-            fcheck = self._data.col[selfIdx]
-            # the condition in the while loop is a natural break, if it isn't
-            # satisfied then selfIdx will be exactly where we want it
-            while fcheck < featureStart or fcheck > featureEnd:
-                # this condition is an unatural break, when it is satisfied,
-                # that means no value of selfIdx will point into the desired
-                # values
-                if pcheck > pointEnd or selfIdx == len(self._data.data) - 1:
-                    selfIdx = selfEnd
-                    break
-
-                selfIdx += 1
-                pcheck = self._data.row[selfIdx]
-                fcheck = self._data.col[selfIdx]
-
-            copyIndex = selfIdx
-
-        # Walk full contents of both, modifying, shifing, or setting aside
-        # values as needed. We will only ever increment one of selfIdx or
-        # valsIdx at a time, meaning if there are matching entries, we will
-        # encounter them. Due to the sorted precondition, if the location in
-        # one object is less than the location in the other object, the lower
-        # one CANNOT have a match.
-        while selfIdx < selfEnd or valsIdx < valsEnd:
-            if selfIdx < selfEnd:
-                locationSP = self._data.row[selfIdx]
-                locationSF = self._data.col[selfIdx]
-            else:
-                # we want to use unreachable values as sentials, so we + 1
-                # since we're using inclusive endpoints
-                locationSP = pointEnd + 1
-                locationSF = featureEnd + 1
-
-            # adjust 'values' locations into the scale of the calling object
-            locationVP = pointStart
-            locationVF = featureStart
-            if constant:
-                vData = replaceWith
-                # uses truncation of int division
-                locationVP += valsIdx / (featureEnd - featureStart + 1)
-                locationVF += valsIdx % (featureEnd - featureStart + 1)
-            elif valsIdx >= valsEnd:
-                locationVP += pointEnd + 1
-                locationVF += featureEnd + 1
-            else:
-                vData = replaceWith._data.data[valsIdx]
-                locationVP += replaceWith._data.row[valsIdx]
-                locationVF += replaceWith._data.col[valsIdx]
-
-            pCmp = locationSP - locationVP
-            fCmp = locationSF - locationVF
-            trueCmp = pCmp if pCmp != 0 else fCmp
-
-            # Case: location at index into self is higher than location
-            # at index into values. No matching entry in self;
-            # copy if space, or record to be added at end.
-            if trueCmp > 0:
-                # can only copy into self if there is open space
-                if copyIndex < selfIdx:
-                    self._data.data[copyIndex] = vData
-                    self._data.row[copyIndex] = locationVP
-                    self._data.col[copyIndex] = locationVF
-                    copyIndex += 1
-                else:
-                    toAddData.append(vData)
-                    toAddRow.append(locationVP)
-                    toAddCol.append(locationVF)
-
-                #increment valsIdx
-                valsIdx += 1
-            # Case: location at index into other is higher than location at
-            # index into self. no matching entry in values - fill this entry
-            # in self with zero (by shifting past it)
-            elif trueCmp < 0:
-                # need to do cleanup if we're outside of the relevant bounds
-                if locationSF < featureStart or locationSF > featureEnd:
-                    self._data.data[copyIndex] = self._data.data[selfIdx]
-                    self._data.row[copyIndex] = self._data.row[selfIdx]
-                    self._data.col[copyIndex] = self._data.col[selfIdx]
-                    copyIndex += 1
-                selfIdx += 1
-            # Case: indices point to equal locations.
-            else:
-                self._data.data[copyIndex] = vData
-                self._data.row[copyIndex] = locationVP
-                self._data.col[copyIndex] = locationVF
-                copyIndex += 1
-
-                # increment both??? or just one?
-                selfIdx += 1
-                valsIdx += 1
-
-        # Now we have to walk through the rest of self, finishing the copying
-        # shift if necessary
-        if copyIndex != selfIdx:
-            while selfIdx < len(self._data.data):
-                self._data.data[copyIndex] = self._data.data[selfIdx]
-                self._data.row[copyIndex] = self._data.row[selfIdx]
-                self._data.col[copyIndex] = self._data.col[selfIdx]
-                selfIdx += 1
-                copyIndex += 1
+        # retain the current values outside of the rectangle
+        row, col = self._data.row, self._data.col
+        retain = ((row < pointStart) | (row > pointEnd)
+                  | (col < featureStart) | (col > featureEnd))
+
+        if isinstance(replaceWith, Base):
+            addData = replaceWith._data.data
+            addRow = replaceWith._data.row + pointStart
+            addCol = replaceWith._data.col + featureStart
+        elif replaceWith == 0:
+            addData, addRow, addCol = [], [], []
         else:
-            copyIndex = len(self._data.data)
-
-        newData = np.empty(copyIndex + len(toAddData),
-                           dtype=self._data.data.dtype)
-        newData[:copyIndex] = self._data.data[:copyIndex]
-        newData[copyIndex:] = toAddData
-        newRow = np.empty(copyIndex + len(toAddRow))
-        newRow[:copyIndex] = self._data.row[:copyIndex]
-        newRow[copyIndex:] = toAddRow
-        newCol = np.empty(copyIndex + len(toAddCol))
-        newCol[:copyIndex] = self._data.col[:copyIndex]
-        newCol[copyIndex:] = toAddCol
+            numPts = pointEnd - pointStart + 1
+            numFts = featureEnd - featureStart + 1
+            addData = np.full(numPts * numFts, replaceWith)
+            addRow = np.repeat(range(pointStart, pointEnd + 1), numFts)
+            addCol = np.tile(range(featureStart, featureEnd + 1), numPts)
+
+        newData = self._data.data[retain]
+        newRow = row[retain]
+        newCol = col[retain]
+        if len(addData) > 0:
+            newData = np.concatenate((newData, addData))
+            newRow = np.concatenate((newRow, addRow))
+            newCol = np.concatenate((newCol, addCol))
+
         shape = (len(self.points), len(self.features))
         self._data = scipy.sparse.coo_matrix((newData, (newRow, newCol)),
                                              shape)
-
         self._resetSorted()
 
     def _flatten_implementation(self, order):
@@ -587,37 +464,6 @@ class Sparse(Base):
         # array down to size???
         pass
 
-    def _replaceRectangle_zeros_implementation(self, pointStart, featureStart,
-                                               pointEnd, featureEnd):
-        # walk through col listing and partition all data: extract, and kept,
-        # reusing the sparse matrix underlying structure to save space
-        copyIndex = 0
-
-        for lookIndex, lookData in enumerate(self._data.data):
-            currP = self._data.row[lookIndex]
-            currF = self._data.col[lookIndex]
-            # if it is in range we want to obliterate the entry by just passing
-            # it by and copying over it later
-            if (currP >= pointStart
-                    and currP <= pointEnd
-                    and currF >= featureStart
-                    and currF <= featureEnd):
-                pass
-            else:
-                self._data.data[copyIndex] = lookData
-                self._data.row[copyIndex] = self._data.row[lookIndex]
-                self._data.col[copyIndex] = self._data.col[lookIndex]
-                copyIndex += 1
-
-        # reinstantiate self
-        # (cannot reshape coo matrices, so cannot do this in place)
-        newData = self._data.data[0:copyIndex]
-        newRow = self._data.row[0:copyIndex]
-        newCol = self._data.col[0:copyIndex]
-        shape = (len(self.points), len(self.features))
-        self._data = scipy.sparse.coo_matrix((newData, (newRow, newCol)),
-                                             shape)
-
     def _merge_implementation(self, other, point, feature, onFeature,
                               matchingFtIdx):
         self._sortInternal('feature')
-- 
2.43.0


From 6a6bf2d04c35e55d617b49bdca530fd6d4a721bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 012/124] fix: calculateOnElements and mapReduce interpret
 strings in the results as names

---
 nimble/core/data/axis.py | 3 ++-
 nimble/core/data/base.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index b689ffa..8208258 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -742,7 +742,8 @@ class Axis(ABC):
                 if redRet is not None:
                     (redKey, redValue) = redRet
                     ret.append([redKey, redValue])
-            ret = nimble.data(ret, returnType=self._base.getTypeString(),
+            ret = nimble.data(ret, pointNames=False, featureNames=False,
+                              returnType=self._base.getTypeString(),
                               useLog=False)
 
         ret._absPath = self._base.absolutePath
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 2eaf7ea..b9b1ca6 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1117,7 +1117,8 @@ class Base(ABC):
                     fIdx += 1
                 pIdx += 1
 
-        ret = nimble.data(values, returnType=optType, treatAsMissing=[None],
+        ret = nimble.data(values, pointNames=False, featureNames=False,
+                          returnType=optType, treatAsMissing=[None],
                           useLog=False)
 
         ret._absPath = self.absolutePath
-- 
2.43.0


From 532801984c44aeb3c652321adc833f99bf873ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 013/124] fix: countUniqueElements with a single identifier or
 without nonzero boolean values

---
 nimble/core/data/_dataHelpers.py | 2 +-
 nimble/core/data/base.py         | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index e79c6cc..d6447f1 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -493,7 +493,7 @@ def denseCountUnique(obj, points=None, features=None):
             nextIdx[0] += 1
             return mapping[val]
 
-        vectorMap = np.vectorize(mapper)
+        vectorMap = np.vectorize(mapper, otypes=[int])
         array = vectorMap(array)
         intMap = {v: k for k, v in mapping.items()}
         vals, counts = np.unique(array, return_counts=True)
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index b9b1ca6..665338b 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1236,6 +1236,10 @@ class Base(ABC):
         --------
         counts, tally, distinct, different, different
         """
+        if points is not None:
+            points = constructIndicesList(self, 'point', points)
+        if features is not None:
+            features = constructIndicesList(self, 'feature', features)
         return self._countUnique_implementation(points, features)
 
     @limitedTo2D
-- 
2.43.0


From abdc884385da8d40c37c4060839c52b11e18f58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 014/124] fix: replaceRectangle refuses a replacement extending
 beyond the object

---
 nimble/core/data/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 665338b..8890968 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -3986,6 +3986,10 @@ class Base(ABC):
                         axis='feature', axisLen=len(replaceWith.features),
                         start=featureStart, end=featureEnd, rangeLen=frange)
                     raise InvalidArgumentValueCombination(msg)
+            if peIndex >= len(self.points) or feIndex >= len(self.features):
+                msg = "replaceWith extends beyond the points or features in "
+                msg += "this object"
+                raise InvalidArgumentValueCombination(msg)
             if replaceWith.getTypeString() != self.getTypeString():
                 replaceWith = replaceWith.copy(to=self.getTypeString())
         elif looksNumeric(replaceWith):
-- 
2.43.0


From 318b2bc812a756ee413deedda312050a08292c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:33 +0000
Subject: [PATCH 015/124] fix: calculateOnElements keeps integers when None is
 returned for other elements

---
 nimble/core/data/_dataHelpers.py | 14 ++++++++------
 nimble/core/data/base.py         |  3 ++-
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index d6447f1..84b2537 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -1155,13 +1155,15 @@ def isValid2DObject(data):
     """
     return is2DArray(data) or is2DList(data)
 
-def vectorizeElementFunction(func):
+def vectorizeElementFunction(func, noneToNan=False):
     """
     Vectorize an element function, allowing for any types to be returned.
 
     Unless otypes is specified, np.vectorize converts every value to the
     type of the first value returned. Instead, a numeric dtype is used
-    only when it is suitable for all of the values returned.
+    only when it is suitable for all of the values returned. With
+    noneToNan, None is converted to nan when it is the only non-numeric
+    value, otherwise None values are unmodified.
     """
     vectorized = np.vectorize(func, otypes=[np.object_])
 
@@ -1169,10 +1171,10 @@ def vectorizeElementFunction(func):
         ret = vectorized(values)
         if ret.ndim == 0: # single element
             return ret.item()
-        if all(val is None or isinstance(val, (numbers.Number, np.bool_))
-               for val in ret.flat):
-            converted = [np.nan if val is None else val for val in ret.flat]
-            return np.array(converted).reshape(ret.shape)
+        if noneToNan:
+            ret[ret == None] = np.nan # pylint: disable=singleton-comparison
+        if all(isinstance(val, (numbers.Number, np.bool_)) for val in ret.flat):
+            return np.array(ret.tolist()).reshape(ret.shape)
         return ret
 
     return applyFunction
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 8890968..4306b09 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1091,7 +1091,8 @@ class Base(ABC):
             optType = self.getTypeString()
         # Use vectorized for functions with oneArg
         if calculator.oneArg:
-            vectorized = vectorizeElementFunction(calculator)
+            vectorized = vectorizeElementFunction(
+                calculator, noneToNan=self.getTypeString() == 'Sparse')
             values = self._calculate_implementation(
                 vectorized, points, features, preserveZeros)
 
-- 
2.43.0


From 1487a3dabd230b151b83bd79298bee7a90db6752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:59 +0000
Subject: [PATCH 016/124] fix: data of Sparse views given to insert, append,
 replaceRectangle and merge replaced by zeros

---
 nimble/core/data/axis.py | 3 ++-
 nimble/core/data/base.py | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 8208258..957f929 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -624,7 +624,8 @@ class Axis(ABC):
             insertBefore = self._getIndex(insertBefore)
 
         self._validateInsertableData(toInsert, append)
-        if self._base.getTypeString() != toInsert.getTypeString():
+        if (self._base.getTypeString() != toInsert.getTypeString()
+                or isinstance(toInsert, nimble.core.data.BaseView)):
             insertObj = toInsert.copy(to=self._base.getTypeString())
         else:
             insertObj = toInsert
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 4306b09..72e5a87 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -3991,7 +3991,8 @@ class Base(ABC):
                 msg = "replaceWith extends beyond the points or features in "
                 msg += "this object"
                 raise InvalidArgumentValueCombination(msg)
-            if replaceWith.getTypeString() != self.getTypeString():
+            if (replaceWith.getTypeString() != self.getTypeString()
+                    or isinstance(replaceWith, nimble.core.data.BaseView)):
                 replaceWith = replaceWith.copy(to=self.getTypeString())
         elif looksNumeric(replaceWith):
             if pointEnd is None:
@@ -4737,7 +4738,8 @@ class Base(ABC):
             matchingFtIdx[0].append(idxL)
             matchingFtIdx[1].append(idxR)
 
-        if self.getTypeString() != other.getTypeString():
+        if (self.getTypeString() != other.getTypeString()
+                or isinstance(other, nimble.core.data.BaseView)):
             other = other.copy(to=self.getTypeString())
         self._merge_implementation(other, point, feature, onFeature,
                                    matchingFtIdx)
-- 
2.43.0


From e6abea939ea85793b7ca10e46fee256633991359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 017/124] fix: statistics of List views, boolean Matrix and
 Sparse objects and object dtypes

---
 nimble/core/data/base.py | 43 +++++++++++++---------------------------
 1 file changed, 14 insertions(+), 29 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 72e5a87..6236bf4 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -34,7 +34,6 @@ import shutil
 import re
 
 import numpy as np
-from scipy.sparse import coo_matrix
 
 
 import nimble
@@ -90,40 +89,26 @@ def hashCodeFunc(elementValue, pointNum, featureNum):
     """
     return ((math.sin(pointNum) + math.cos(featureNum)) / 2.0) * elementValue
 
-def checkNumericListType(listData):
-    '''
-    Function dedicated to seeing if list of lists that make up
-    base._data contains entirely numeric data or not.
-    '''
-    if isinstance(listData, list):
-      for item in listData:
-        if isinstance(item, list):
-            if not all(isinstance(sub_item, (int, float)) for sub_item in item):
-                return False
-        else:
-            if not isinstance(item, (int, float)):
-                return False
-      return True
-    return False
-
 def isNumeric(base):
     '''
     Helper for certain stats methods to know if feature columns contain invalid
     values.
     '''
-    def is_numeric_column(column):
-        return pd.api.types.is_numeric_dtype(column)
-
     if pd.nimbleAccessible() and isinstance(base._data, pd.DataFrame):
-        return all(is_numeric_column(column) for column in base._data.dtypes)
-    elif isinstance(base._data, np.ndarray):
-        return np.issubdtype(base._data.dtype, np.number)
-    elif isinstance(base._data, coo_matrix):
-        return base._data.dtype.kind in 'ifc'
-    elif isinstance(base._data, list):
-        return checkNumericListType(base._data)
-    else:
-        raise ValueError("Unsupported data type")
+        if all(pd.api.types.is_numeric_dtype(dtype)
+               for dtype in base._data.dtypes):
+            return True
+    elif base.getTypeString() in ['Matrix', 'Sparse']:
+        if base.getTypeString() == 'Sparse':
+            dtype = base._getSparseData().dtype
+        else:
+            dtype = base._data.dtype
+        if dtype.kind in 'biufc':
+            return True
+    # the type of the container is not sufficient for determination
+    with base._treatAs2D():
+        return all(isinstance(elem, (numbers.Number, np.bool_))
+                   for elem in base.iterateElements())
 
 class Base(ABC):
     """
-- 
2.43.0


From aecb1c445fb1710929ca76def1c16dcd410cfff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:46 +0000
Subject: [PATCH 018/124] fix: absolute value discards the point names of
 objects without feature names

---
 nimble/core/data/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 6236bf4..ee6e2c0 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -5207,7 +5207,7 @@ class Base(ABC):
         if self.features._namesCreated():
             ret.features.setNames(self.features.getNames(), useLog=False)
         else:
-            ret.points.setNames(None, useLog=False)
+            ret.features.setNames(None, useLog=False)
 
         ret._name = None
         ret._absPath = self.absolutePath
-- 
2.43.0


From 5485f7fa624e66f519a0aebd26b5daff3b914b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:46 +0000
Subject: [PATCH 019/124] fix: names lost when copying empty List and Sparse
 objects and views to other types

---
 nimble/core/data/list.py   | 9 ++++++---
 nimble/core/data/sparse.py | 5 ++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/nimble/core/data/list.py b/nimble/core/data/list.py
index 96fde34..9a0ec1a 100644
--- a/nimble/core/data/list.py
+++ b/nimble/core/data/list.py
@@ -324,10 +324,10 @@ class List(Base):
         if not pd.nimbleAccessible():
             msg = "pandas is not available"
             raise PackageException(msg)
-        if isEmpty:
-            return pd.DataFrame(emptyData)
         pnames = self.points._getNamesNoGeneration()
         fnames = self.features._getNamesNoGeneration()
+        if isEmpty:
+            data = emptyData
         return pd.DataFrame(data, index=pnames, columns=fnames)
 
     def _replaceRectangle_implementation(self, replaceWith, pointStart,
@@ -674,7 +674,10 @@ class ListView(BaseView, List):
         if ((len(self.points) == 0 or len(self.features) == 0)
                 and to != 'List'):
             emptyStandin = np.empty(self._dims)
-            intermediate = nimble.data(emptyStandin, useLog=False)
+            intermediate = nimble.data(
+                emptyStandin, useLog=False,
+                pointNames=self.points._getNamesNoGeneration(),
+                featureNames=self.features._getNamesNoGeneration())
             return intermediate.copy(to=to)
 
         # fastest way to generate list of view data
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 2f81c91..8fc2779 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -1215,7 +1215,10 @@ class SparseView(BaseView, Sparse):
 
         if len(self.points) == 0 or len(self.features) == 0:
             emptyStandin = np.empty(self._dims)
-            intermediate = nimble.data(emptyStandin, useLog=False)
+            intermediate = nimble.data(
+                emptyStandin, useLog=False,
+                pointNames=self.points._getNamesNoGeneration(),
+                featureNames=self.features._getNamesNoGeneration())
             return intermediate.copy(to=to)
 
         if to == 'numpyarray':
-- 
2.43.0


From 6e243bb467ece97c46a64fec5ed93f57609687b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:46 +0000
Subject: [PATCH 020/124] fix: modulus of two Sparse objects

---
 nimble/core/data/sparse.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 8fc2779..cad5539 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -1042,19 +1042,21 @@ class Sparse(Base):
         Since 0 % any value is 0, the zero values can be ignored for
         this operation.
         """
-        sortedAxis = self._sorted['axis']
-        sort = sortedAxis if sortedAxis is not None else 'point'
-        self._sortInternal(sort)
         selfData = self._getSparseData()
         if not isinstance(other, Sparse):
             other = other.copy('Sparse')
-        other._sortInternal(sort)
         otherData = other._getSparseData()
         if opName == '__rmod__':
-            ret = np.mod(otherData.data, selfData.data)
+            dividend, divisor = otherData, selfData
         else:
-            ret = np.mod(selfData.data, otherData.data)
-        coo = scipy.sparse.coo_matrix((ret, (selfData.row, selfData.col)),
+            dividend, divisor = selfData, otherData
+        # the divisor values at the location of each nonzero dividend value
+        if len(dividend.data) > 0:
+            divVals = divisor.tocsr()[dividend.row, dividend.col]
+            ret = np.mod(dividend.data, np.asarray(divVals).reshape(-1))
+        else:
+            ret = dividend.data
+        coo = scipy.sparse.coo_matrix((ret, (dividend.row, dividend.col)),
                                       shape=self.shape)
         coo.eliminate_zeros() # remove any zeros introduced into data
 
-- 
2.43.0


From 1cccf5075792d05e26da1c3a091f07f54d020605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:07 +0000
Subject: [PATCH 021/124] fix: merge of zeros and missing values, refused
 merges changing the object, key feature location in left merges

---
 nimble/core/data/base.py      | 12 ++++++-
 nimble/core/data/dataframe.py | 45 +++++++++++++-----------
 nimble/core/data/list.py      | 66 ++++++++++++++++++-----------------
 nimble/core/data/matrix.py    | 32 +++++++++--------
 nimble/core/data/sparse.py    | 41 +++++++++-------------
 5 files changed, 104 insertions(+), 92 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index ee6e2c0..f1ba487 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -4652,15 +4652,21 @@ class Base(ABC):
                 endNames = rNames
             elif force: # default names present
                 endNames = mergeNames(lAxis.getNames(), rAxis.getNames())
+                mismatch = any(None not in pair and pair[0] != pair[1] for
+                               pair in zip(lAxis.getNames(),
+                                           rAxis.getNames()))
                 # need to alter default names so that _genericMergeFrontend
                 # treats them as non-default and equal. After the data is
                 # merged, the names are reset to their default state.
                 try:
                     strictNames = ['_STRICT' + str(i) if n is None else n
                                    for i, n in enumerate(endNames)]
+                    if mismatch:
+                        raise InvalidArgumentValue('names do not match')
                     lAxis.setNames(strictNames, useLog=False)
                     rAxis.setNames(strictNames, useLog=False)
                 except InvalidArgumentValue as e:
+                    lAxis.setNames(lNames, useLog=False)
                     msg = f"When {axis}='strict' and default {axis} names "
                     msg += f"exist, names cannot be reordered. The {axis} "
                     msg += "names do not match at each index where both  "
@@ -4672,7 +4678,11 @@ class Base(ABC):
                 msg += f'that each {axis} is equal between the two objects'
                 raise InvalidArgumentValue(msg)
 
-            self._genericMergeFrontend(tmpOther, point, feature, onFeature)
+            try:
+                self._genericMergeFrontend(tmpOther, point, feature, onFeature)
+            except Exception:
+                lAxis.setNames(lNames, useLog=False)
+                raise
 
             # only reset names if we did not generate them
             if lNames is None and rNames is None:
diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index e4b15e7..abf819b 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -329,28 +329,29 @@ class DataFrame(Base):
             point = 'outer'
         elif point == 'intersection':
             point = 'inner'
+        tmpDfL = self._data.copy()
         if self.features._namesCreated():
-            self._data.columns = self.features.getNames()
+            tmpDfL.columns = self.features.getNames()
         tmpDfR = other._data.copy()
         if other.features._namesCreated():
             tmpDfR.columns = other.features.getNames()
 
         if feature == 'intersection':
-            self._data = self._data.iloc[:, matchingFtIdx[0]]
+            tmpDfL = tmpDfL.iloc[:, matchingFtIdx[0]]
             tmpDfR = tmpDfR.iloc[:, matchingFtIdx[1]]
-            matchingFtIdx[0] = list(range(self._data.shape[1]))
+            matchingFtIdx[0] = list(range(tmpDfL.shape[1]))
             matchingFtIdx[1] = list(range(tmpDfR.shape[1]))
         elif feature == "left":
             tmpDfR = tmpDfR.iloc[:, matchingFtIdx[1]]
             matchingFtIdx[1] = list(range(tmpDfR.shape[1]))
 
-        numColsL = len(self._data.columns)
+        numColsL = len(tmpDfL.columns)
         if onFeature is None:
             if (self.points._namesCreated()
                     and other.points._namesCreated()):
                 # differentiate default names between objects using integers
-                self._data.index = [i if n is None else n for i, n
-                                    in enumerate(self.points.getNames())]
+                tmpDfL.index = [i if n is None else n for i, n
+                                in enumerate(self.points.getNames())]
                 maxL = len(self.points)
                 tmpDfR.index = [i + maxL if n is None else n for i, n
                                 in enumerate(other.points.getNames())]
@@ -359,16 +360,20 @@ class DataFrame(Base):
                 idxRange = range(self.shape[0], self.shape[0] + other.shape[0])
                 tmpDfR.index = list(idxRange)
 
-            self._data = self._data.merge(tmpDfR, how=point, left_index=True,
-                                          right_index=True)
+            merged = tmpDfL.merge(tmpDfR, how=point, left_index=True,
+                                  right_index=True)
+            if point == 'outer':
+                # the order of the points in both objects, not sorted
+                rightOnly = [i for i in tmpDfR.index if i not in tmpDfL.index]
+                merged = merged.loc[list(tmpDfL.index) + rightOnly]
         else:
-            onIdxL = self._data.columns.get_loc(onFeature)
+            onIdxL = tmpDfL.columns.get_loc(onFeature)
             onIdxR = tmpDfR.columns.get_loc(onFeature) + numColsL
-            self._data = self._data.merge(tmpDfR, how=point, on=onFeature)
+            merged = tmpDfL.merge(tmpDfR, how=point, on=onFeature)
 
         # return labels to default after we've executed the merge
-        self._data.index = pd.RangeIndex(self._data.shape[0])
-        self._data.columns = pd.RangeIndex(self._data.shape[1])
+        merged.index = pd.RangeIndex(merged.shape[0])
+        merged.columns = pd.RangeIndex(merged.shape[1])
 
         toDrop = []
         for left, right in zip(matchingFtIdx[0], matchingFtIdx[1]):
@@ -380,26 +385,26 @@ class DataFrame(Base):
                 # one less to account for merged onFeature
                 right -= 1
 
-            matches = self._data.iloc[:, left] == self._data.iloc[:, right]
-            nansL = np.array([x != x for x in self._data.iloc[:, left]])
-            nansR = np.array([x != x for x in self._data.iloc[:, right]])
+            matches = merged.iloc[:, left] == merged.iloc[:, right]
+            nansL = np.array([x != x for x in merged.iloc[:, left]])
+            nansR = np.array([x != x for x in merged.iloc[:, right]])
             acceptableValues = matches | nansL | nansR
             if not all(acceptableValues):
                 msg = "The objects contain different values for the same "
                 msg += "feature"
                 raise InvalidArgumentValue(msg)
             if nansL.any():
-                leftNansLocInRight = self._data.iloc[:, right][nansL]
-                self._data.iloc[:, left][nansL] = leftNansLocInRight
+                merged[left] = merged[left].where(~nansL, merged[right])
             toDrop.append(right)
 
         if toDrop:
-            self._data.drop(toDrop, axis=1, inplace=True)
-            self._data.columns = pd.RangeIndex(self._data.shape[1])
+            merged.drop(toDrop, axis=1, inplace=True)
+            merged.columns = pd.RangeIndex(merged.shape[1])
 
         numFeatures = (numColsL + len(tmpDfR.columns) - len(matchingFtIdx[1]))
-        numPoints = len(self._data.index)
+        numPoints = len(merged.index)
 
+        self._data = merged
         self._dims = [numPoints, numFeatures]
 
     def _replaceFeatureWithBinaryFeatures_implementation(self, uniqueIdx):
diff --git a/nimble/core/data/list.py b/nimble/core/data/list.py
index 9a0ec1a..b1a2aa9 100644
--- a/nimble/core/data/list.py
+++ b/nimble/core/data/list.py
@@ -374,27 +374,28 @@ class List(Base):
 
     def _merge_implementation(self, other, point, feature, onFeature,
                               matchingFtIdx):
+        # copy the points so this object is not modified if the merge fails
+        left = [list(pt) for pt in self._data]
+        numFtsL = len(self.features)
+        numFtsR = len(other.features)
         if onFeature is not None:
             if feature in ["intersection", "left"]:
                 onFeatureIdx = self.features.getIndex(onFeature)
                 onIdxLoc = matchingFtIdx[0].index(onFeatureIdx)
-                onIdxL = onIdxLoc
+                onIdxL = onFeatureIdx
                 onIdxR = onIdxLoc
                 right = [[row[i] for i in matchingFtIdx[1]]
                          for row in other._data]
                 # matching indices in right were sorted when slicing above
-                if len(right) > 0:
-                    matchingFtIdx[1] = list(range(len(right[0])))
-                else:
-                    matchingFtIdx[1] = []
+                numFtsR = len(matchingFtIdx[1])
+                matchingFtIdx[1] = list(range(numFtsR))
                 if feature == "intersection":
-                    self._data = [[row[i] for i in matchingFtIdx[0]]
-                                  for row in self._data]
+                    onIdxL = onIdxLoc
+                    left = [[row[i] for i in matchingFtIdx[0]]
+                            for row in left]
                     # matching indices in left were sorted when slicing above
-                    if len(self._data) > 0:
-                        matchingFtIdx[0] = list(range(len(self._data[0])))
-                    else:
-                        matchingFtIdx[0] = []
+                    numFtsL = len(matchingFtIdx[0])
+                    matchingFtIdx[0] = list(range(numFtsL))
             else:
                 onIdxL = self.features.getIndex(onFeature)
                 onIdxR = other.features.getIndex(onFeature)
@@ -403,7 +404,6 @@ class List(Base):
             # using pointNames, prepend pointNames to left and right lists
             onIdxL = 0
             onIdxR = 0
-            left = []
             right = []
 
             def ptNameGetter(obj, idx, add=0):
@@ -414,11 +414,11 @@ class List(Base):
                 return idx + add
 
             if feature == "intersection":
-                for i, pt in enumerate(self._data):
+                for i, pt in enumerate(left):
                     ptL = [ptNameGetter(self, i)]
                     intersect = [val for idx, val in enumerate(pt)
                                  if idx in matchingFtIdx[0]]
-                    self._data[i] = ptL + intersect
+                    left[i] = ptL + intersect
                 for i, pt in enumerate(other._data):
                     maxL = len(self.points)
                     ptR = [ptNameGetter(other, i, maxL)]
@@ -426,15 +426,13 @@ class List(Base):
                     right.append(ptR)
                 # matching indices were sorted above
                 # this also accounts for prepended column
-                if len(self._data) > 0:
-                    matchingFtIdx[0] = list(range(len(self._data[0])))
-                else:
-                    matchingFtIdx[0] = []
+                numFtsL = numFtsR = len(matchingFtIdx[0]) + 1
+                matchingFtIdx[0] = list(range(numFtsL))
                 matchingFtIdx[1] = matchingFtIdx[0]
             elif feature == "left":
-                for i, pt in enumerate(self._data):
+                for i, pt in enumerate(left):
                     ptL = [ptNameGetter(self, i)]
-                    self._data[i] = ptL + pt
+                    left[i] = ptL + pt
                 for i, pt in enumerate(other._data):
                     maxL = len(self.points)
                     ptR = [ptNameGetter(other, i, maxL)]
@@ -445,25 +443,28 @@ class List(Base):
                 matchingFtIdx[0].insert(0, 0)
                 # matching indices were sorted when slicing above
                 # this also accounts for prepended column
-                matchingFtIdx[1] = list(range(len(right[0])))
+                numFtsL += 1
+                numFtsR = len(matchingFtIdx[1]) + 1
+                matchingFtIdx[1] = list(range(numFtsR))
             else:
-                for i, pt in enumerate(self._data):
+                for i, pt in enumerate(left):
                     ptL = [ptNameGetter(self, i)]
-                    self._data[i] = ptL + pt
+                    left[i] = ptL + pt
                 for i, pt in enumerate(other._data):
                     maxL = len(self.points)
                     ptR = [ptNameGetter(other, i, maxL)]
                     ptR.extend(pt)
                     right.append(ptR)
+                numFtsL += 1
+                numFtsR += 1
                 matchingFtIdx[0] = list(map(lambda x: x + 1, matchingFtIdx[0]))
                 matchingFtIdx[0].insert(0, 0)
                 matchingFtIdx[1] = list(map(lambda x: x + 1, matchingFtIdx[1]))
                 matchingFtIdx[1].insert(0, 0)
-        left = self._data
 
         matched = []
         merged = []
-        unmatchedFtCountR = len(right[0]) - len(matchingFtIdx[1])
+        unmatchedFtCountR = numFtsR - len(matchingFtIdx[1])
         matchMapper = {}
         for pt in left:
             match = [right[i] for i in range(len(right))
@@ -487,6 +488,7 @@ class List(Base):
                         msg = "The objects contain different values for the "
                         msg += "same feature"
                         raise InvalidArgumentValue(msg)
+                    merge = list(ptL)
                     if sum(nansL) > 0:
                         # fill any nan values in left with the corresponding
                         # right value
@@ -494,14 +496,14 @@ class List(Base):
 
                             if value != value and i in matchingFtIdx[0]:
                                 lIdx = matchingFtIdx[0].index(i)
-                                ptL[i] = ptR[matchingFtIdx[1][lIdx]]
+                                merge[i] = ptR[matchingFtIdx[1][lIdx]]
                     ptR = [ptR[i] for i in range(len(ptR))
                            if i not in matchingFtIdx[1]]
-                    pt = ptL + ptR
+                    pt = merge + ptR
                     merged.append(pt)
                 matched.append(target)
             elif point in ['union', 'left']:
-                ptR = [np.nan] * (len(right[0]) - len(matchingFtIdx[1]))
+                ptR = [np.nan] * unmatchedFtCountR
                 pt = ptL + ptR
                 merged.append(pt)
 
@@ -509,14 +511,14 @@ class List(Base):
             for row in right:
                 target = row[onIdxR]
                 if target not in matched:
-                    pt = [np.nan] * (len(left[0]) + unmatchedFtCountR)
+                    pt = [np.nan] * (numFtsL + unmatchedFtCountR)
                     for i, j in zip(matchingFtIdx[0], matchingFtIdx[1]):
                         pt[i] = row[j]
-                    pt[len(left[0]):] = [row[i] for i in range(len(right[0]))
-                                         if i not in matchingFtIdx[1]]
+                    pt[numFtsL:] = [row[i] for i in range(numFtsR)
+                                    if i not in matchingFtIdx[1]]
                     merged.append(pt)
 
-        self._dims = [len(merged), len(left[0]) + unmatchedFtCountR]
+        self._dims = [len(merged), numFtsL + unmatchedFtCountR]
         if onFeature is None:
             # remove point names feature
             merged = [row[1:] for row in merged]
diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index fcf4cbb..8635949 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -251,21 +251,22 @@ class Matrix(Base):
 
     def _merge_implementation(self, other, point, feature, onFeature,
                               matchingFtIdx):
-        self._data = np.array(self._data, dtype=np.object_)
+        left = np.array(self._data, dtype=np.object_)
         otherArr = np.array(other._data, dtype=np.object_)
         if onFeature is not None:
             if feature in ["intersection", "left"]:
                 onFeatureIdx = self.features.getIndex(onFeature)
                 onIdxLoc = matchingFtIdx[0].index(onFeatureIdx)
-                onIdxL = onIdxLoc
+                onIdxL = onFeatureIdx
                 onIdxR = onIdxLoc
                 right = otherArr[:, matchingFtIdx[1]]
                 # matching indices in right were sorted when slicing above
                 matchingFtIdx[1] = list(range(right.shape[1]))
                 if feature == "intersection":
-                    self._data = self._data[:, matchingFtIdx[0]]
+                    onIdxL = onIdxLoc
+                    left = left[:, matchingFtIdx[0]]
                     # matching indices in left were sorted when slicing above
-                    matchingFtIdx[0] = list(range(self._data.shape[1]))
+                    matchingFtIdx[0] = list(range(left.shape[1]))
             else:
                 onIdxL = self.features.getIndex(onFeature)
                 onIdxR = other.features.getIndex(onFeature)
@@ -300,16 +301,16 @@ class Matrix(Base):
                 ptsR = np.array(range(len(other.points)), dtype=np.object_)
                 ptsR = ptsR.reshape(-1, 1)
             if feature == "intersection":
-                concatL = (ptsL, self._data[:, matchingFtIdx[0]])
-                self._data = np.concatenate(concatL, axis=1)
+                concatL = (ptsL, left[:, matchingFtIdx[0]])
+                left = np.concatenate(concatL, axis=1)
                 concatR = (ptsR, otherArr[:, matchingFtIdx[1]])
                 right = np.concatenate(concatR, axis=1)
                 # matching indices were sorted when slicing above
                 # this also accounts for prepended column
-                matchingFtIdx[0] = list(range(self._data.shape[1]))
+                matchingFtIdx[0] = list(range(left.shape[1]))
                 matchingFtIdx[1] = matchingFtIdx[0]
             elif feature == "left":
-                self._data = np.concatenate((ptsL, self._data), axis=1)
+                left = np.concatenate((ptsL, left), axis=1)
                 concatR = (ptsR, otherArr[:, matchingFtIdx[1]])
                 right = np.concatenate(concatR, axis=1)
                 # account for new column in matchingFtIdx
@@ -319,14 +320,13 @@ class Matrix(Base):
                 # this also accounts for prepended column
                 matchingFtIdx[1] = list(range(right.shape[1]))
             else:
-                self._data = np.concatenate((ptsL, self._data), axis=1)
+                left = np.concatenate((ptsL, left), axis=1)
                 right = np.concatenate((ptsR, otherArr), axis=1)
                 # account for new column in matchingFtIdx
                 matchingFtIdx[0] = list(map(lambda x: x + 1, matchingFtIdx[0]))
                 matchingFtIdx[0].insert(0, 0)
                 matchingFtIdx[1] = list(map(lambda x: x + 1, matchingFtIdx[1]))
                 matchingFtIdx[1].insert(0, 0)
-        left = self._data
 
         matched = []
         merged = []
@@ -355,12 +355,14 @@ class Matrix(Base):
                     if nansL.any():
                         # fill any nan values in left with the corresponding
                         # right value
-                        for i, value in enumerate(ptL[matchingFtIdx[0]]):
-                            if value != value:
-                                fill = ptR[matchingFtIdx[1]][i]
-                                ptL[matchingFtIdx[0]][i] = fill
+                        fill = np.where(nansL, ptR[matchingFtIdx[1]],
+                                        ptL[matchingFtIdx[0]])
+                        merge = ptL.copy()
+                        merge[matchingFtIdx[0]] = fill
+                    else:
+                        merge = ptL
                     ptR = np.delete(ptR, matchingFtIdx[1])
-                    pt = np.concatenate((ptL, ptR)).flatten()
+                    pt = np.concatenate((merge, ptR)).flatten()
                     merged.append(pt)
                 matched.append(target)
             elif point in ['union', 'left']:
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index cad5539..7fec541 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -522,23 +522,25 @@ class Sparse(Base):
             matchingFtIdx[1] = list(map(lambda x: x + 1, matchingFtIdx[1]))
             matchingFtIdx[1].insert(0, 0)
 
-        mergedData = np.empty((0, 0))
+        # the values that are not stored are also values of the points
+        left = np.zeros((len(self.points), tempFtsL), dtype=np.object_)
+        left[leftRow, leftCol] = leftData
+        right = np.zeros((len(other.points), tempFtsR), dtype=np.object_)
+        right[rightRow, rightCol] = rightData
+
+        mergedData = np.empty(0)
         mergedRow = []
         mergedCol = []
         matched = []
         nextPt = 0
         numPts = 0
 
-        for ptIdxL, target in enumerate(leftData[leftCol == onIdxL]):
-            rowIdxR = np.where(rightData[rightCol == onIdxR] == target)[0]
+        for ptIdxL, target in enumerate(left[:, onIdxL]):
+            rowIdxR = np.where(right[:, onIdxR] == target)[0]
             if len(rowIdxR) > 0:
                 for ptIdxR in rowIdxR:
-                    ptL = np.zeros((tempFtsL,), dtype=np.object_)
-                    inRowL = leftRow == ptIdxL
-                    ptL[leftCol[inRowL]] = leftData[inRowL]
-                    ptR = np.zeros((tempFtsR,), dtype=np.object_)
-                    inRowR = rightRow == ptIdxR
-                    ptR[rightCol[inRowR]] = rightData[inRowR]
+                    ptL = left[ptIdxL].copy()
+                    ptR = right[ptIdxR]
                     matches = ptL[matchingFtIdx[0]] == ptR[matchingFtIdx[1]]
                     nansL = ptL[matchingFtIdx[0]] != ptL[matchingFtIdx[0]]
                     nansR = ptR[matchingFtIdx[1]] != ptR[matchingFtIdx[1]]
@@ -552,8 +554,8 @@ class Sparse(Base):
                         # right value
                         for i, value in enumerate(ptL[matchingFtIdx[0]]):
                             if value != value:
-                                fill = ptR[matchingFtIdx[1]][i]
-                                ptL[matchingFtIdx[0]][i] = fill
+                                fill = ptR[matchingFtIdx[1][i]]
+                                ptL[matchingFtIdx[0][i]] = fill
                     ptR = ptR[[i for i in range(len(ptR))
                                if i not in matchingFtIdx[1]]]
                     pt = np.append(ptL, ptR)
@@ -573,9 +575,7 @@ class Sparse(Base):
                     nextPt += 1
                     numPts += 1
             elif point in ["union", "left"]:
-                ptL = np.zeros((tempFtsL,), dtype=np.object_)
-                inRowL = leftRow == ptIdxL
-                ptL[leftCol[inRowL]] = leftData[inRowL]
+                ptL = left[ptIdxL]
                 ptR = [np.nan] * (tempFtsR - len(matchingFtIdx[1]))
                 pt = np.append(ptL, ptR)
                 if feature == "intersection":
@@ -591,19 +591,15 @@ class Sparse(Base):
                 numPts += 1
 
         if point == 'union':
-            for ptIdxR, target in enumerate(rightData[rightCol == onIdxR]):
+            for ptIdxR, target in enumerate(right[:, onIdxR]):
                 if target not in matched:
                     nanList = [np.nan] * tempFtsL
                     ptL = np.array(nanList, dtype=np.object_)
-                    ptR = np.zeros((tempFtsR,), dtype=np.object_)
-                    inRowR = rightRow == ptIdxR
-                    ptR[rightCol[inRowR]] = rightData[inRowR]
+                    ptR = right[ptIdxR]
                     fill = ptR[matchingFtIdx[1]]
                     ptL[matchingFtIdx[0]] = fill
                     # only unmatched points from right
-                    notMatchedR = np.in1d(rightCol, matchingFtIdx[1],
-                                          invert=True)
-                    ptR = rightData[(rightRow == ptIdxR) & (notMatchedR)]
+                    ptR = np.delete(ptR, matchingFtIdx[1])
                     pt = np.append(ptL, ptR)
                     if feature == "intersection":
                         pt = pt[matchingFtIdx[0]]
@@ -625,9 +621,6 @@ class Sparse(Base):
             numFts = len(matchingFtIdx[0]) - 1
         elif feature == "left":
             numFts = len(self.features)
-        if len(mergedData) == 0:
-            mergedData = []
-
         mergedData = mergedData.astype(np.float64)
         self._dims = [numPts, numFts]
         self._data = scipy.sparse.coo_matrix(
-- 
2.43.0


From bbf55685c4adb4dcc2dcec63dd1e04017f8fc06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:52 +0000
Subject: [PATCH 022/124] fix: views of views use the wrong window and views
 could be modified with setitem

---
 nimble/core/data/views.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nimble/core/data/views.py b/nimble/core/data/views.py
index 4e36deb..0ce3987 100644
--- a/nimble/core/data/views.py
+++ b/nimble/core/data/views.py
@@ -119,25 +119,25 @@ class BaseView(Base, metaclass=ABCMeta):
         if pointStart is None:
             psAdj = None if len(self._source.points) == 0 else self._pStart
         else:
-            psIndex = self._source.points.getIndex(pointStart)
+            psIndex = self.points.getIndex(pointStart)
             psAdj = psIndex + self._pStart
 
         if pointEnd is None:
             peAdj = None if len(self._source.points) == 0 else self._pEnd - 1
         else:
-            peIndex = self._source.points.getIndex(pointEnd)
+            peIndex = self.points.getIndex(pointEnd)
             peAdj = peIndex + self._pStart
 
         if featureStart is None:
             fsAdj = None if len(self._source.features) == 0 else self._fStart
         else:
-            fsIndex = self._source.features.getIndex(featureStart)
+            fsIndex = self.features.getIndex(featureStart)
             fsAdj = fsIndex + self._fStart
 
         if featureEnd is None:
             feAdj = None if len(self._source.features) == 0 else self._fEnd - 1
         else:
-            feIndex = self._source.features.getIndex(featureEnd)
+            feIndex = self.features.getIndex(featureEnd)
             feAdj = feIndex + self._fStart
 
         return self._source._view_backend(psAdj, peAdj, fsAdj, feAdj,
@@ -231,6 +231,9 @@ class BaseView(Base, metaclass=ABCMeta):
     ###############################################################
     ###############################################################
 
+    def __setitem__(self, key, value):
+        readOnlyException("__setitem__")
+
     @baseExceptionDoc
     def __imatmul__(self, other):
         readOnlyException("__imatmul__")
-- 
2.43.0


From db1cac1dfc8a2833e990f7a6e39e28b2eb415d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:52 +0000
Subject: [PATCH 023/124] fix: setNames with old identifiers and repeated,
 default or exchanged names

---
 nimble/core/data/axis.py | 45 +++++++++++++++-------------------------
 1 file changed, 17 insertions(+), 28 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 957f929..745b68d 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -255,6 +255,9 @@ class Axis(ABC):
                     msg += "len(self." + self._axis + "s) - 1"
                     raise InvalidArgumentValue(msg)
 
+                if reverseMap[value] is not None:
+                    msg = "Multiple names cannot have the same index"
+                    raise InvalidArgumentValue(msg)
                 reverseMap[value] = name
 
             self.names = names
@@ -275,40 +278,26 @@ class Axis(ABC):
                 raise ImproperObjectAction(msg)
 
             if len(assignments) <= count and len(assignments) == len(oldIdentifiers):
-                indices = []
-                oldNames = []
                 if self.names is None:
                     self._setAllDefault()
-                for name in oldIdentifiers:
-                    index = self._getIndex(name)
-                    indices.append(index)
-                    if name in self.names:
-                        oldName = name
-                    else:
-                        oldName = self.namesInverse[index]
-                    oldNames.append(oldName)
-
-                old_dict = dict(zip(oldNames,indices))
-                assignments_dict = dict(zip(assignments, indices))
-                 # iterate through list of assignments, // how do you match this with old identifiers?
-                for name, index in assignments_dict.items():
-                    # verifying that none of the new assignments is used previously
-                    if name in self.names:
-                        if self.namesInverse[index] == name:
-                            continue # there could be more to check in the dict
-                        msg = "The name '" + name + "' is already in use"
-                        raise InvalidArgumentValue(msg)
+                indices = [self._getIndex(name) for name in oldIdentifiers]
+                newNames = list(self.namesInverse)
+                for name, index in zip(assignments, indices):
                     if not isinstance(name, (str, type(None))):
                         msg = "New names assigned must be strings or None"
                         raise InvalidArgumentValue(msg)
-
-                for name, index in old_dict.items():
-                    if name is not None:
-                        del self.names[name]
-                for name, index in assignments_dict.items():
-                    self.namesInverse[index] = name
+                    newNames[index] = name
+                # verifying that each name is only used once
+                names = {}
+                for index, name in enumerate(newNames):
+                    if name in names:
+                        msg = "The name '" + name + "' is already in use"
+                        raise InvalidArgumentValue(msg)
                     if name is not None:
-                        self.names[name] = index
+                        names[name] = index
+
+                self.names = names
+                self.namesInverse = newNames
 
             else:
                 msg = "The number of old names being changed must match "
-- 
2.43.0


From 4b0bb13d9794088ef07a5d591997bd2484f1899a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:52 +0000
Subject: [PATCH 024/124] fix: results depend on whether default names were
 generated before

---
 nimble/core/data/axis.py   | 2 +-
 nimble/core/data/base.py   | 7 ++++++-
 nimble/core/data/matrix.py | 4 +++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 745b68d..690d2b2 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -1011,7 +1011,7 @@ class Axis(ABC):
         self.names = {}
 
     def _getNamesNoGeneration(self):
-        if not self._namesCreated():
+        if self._allDefaultNames():
             return None
         return self._getNames()
 
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index f1ba487..e743f39 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -4123,7 +4123,8 @@ class Base(ABC):
             raise ImproperObjectAction(msg)
 
         fNames = None
-        if self.points._namesCreated() or self.features._namesCreated():
+        if not (self.points._allDefaultNames()
+                and self.features._allDefaultNames()):
             fNames = self._flattenNames(order)
         self._dims = list(self.shape) # make 2D before flattening
         self._flatten_implementation(order)
@@ -5951,10 +5952,14 @@ class Base(ABC):
         return lTable, lColWidths, fNames
 
     def _equalPointNames(self, other):
+        if len(self.points) != len(other.points):
+            return False
         return equalNames(self.points._getNamesNoGeneration(),
                           other.points._getNamesNoGeneration())
 
     def _equalFeatureNames(self, other):
+        if len(self.features) != len(other.features):
+            return False
         return equalNames(self.features._getNamesNoGeneration(),
                           other.features._getNamesNoGeneration())
 
diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index 8635949..6960a6c 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -298,7 +298,9 @@ class Matrix(Base):
                 ptsR = np.array(namesR, dtype=np.object_)
                 ptsR = ptsR.reshape(-1, 1)
             else:
-                ptsR = np.array(range(len(other.points)), dtype=np.object_)
+                # differentiate default names between objects
+                rtRange = range(self.shape[0], self.shape[0] + other.shape[0])
+                ptsR = np.array(rtRange, dtype=np.object_)
                 ptsR = ptsR.reshape(-1, 1)
             if feature == "intersection":
                 concatL = (ptsL, left[:, matchingFtIdx[0]])
-- 
2.43.0


From 412e728dbc44651cbe3bf440eae0354d6156f419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:02 +0000
Subject: [PATCH 025/124] fix: logical operations with a stretched object
 return the type of the left operand

---
 nimble/core/data/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index e743f39..b8fc394 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -5498,7 +5498,10 @@ class Base(ABC):
 
     def _genericLogicalBinary(self, opName, other):
         if isinstance(other, Stretch):
-            return getattr(other, opName)(self)
+            ret = getattr(other, opName)(self)
+            if ret.getTypeString() != self.getTypeString():
+                ret = ret.copy(self.getTypeString())
+            return ret
         if not isinstance(other, Base):
             msg = 'other must be an instance of a nimble Base object'
             raise InvalidArgumentType(msg)
-- 
2.43.0


From 1dfb2475961fb220514ef603e3a6a10e4b600ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:02 +0000
Subject: [PATCH 026/124] fix: stretch operations of two Sparse objects when
 one has a single element

---
 nimble/core/data/stretch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/data/stretch.py b/nimble/core/data/stretch.py
index 4436d40..492c1de 100644
--- a/nimble/core/data/stretch.py
+++ b/nimble/core/data/stretch.py
@@ -263,7 +263,7 @@ class StretchSparse(Stretch):
                 lhs = self._source
             rhs = other.copy()
         # other is Stretch
-        elif self._numPts == 1:
+        elif self._numPts == 1 and other._numFts == 1:
             selfFts = len(self._source.features)
             otherPts = len(other._source.points)
             lhs = self._source.points.repeat(otherPts, True, useLog=False)
-- 
2.43.0


From 16a3869e3d5fb5f86eecc54d7b9d68da72ebd0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:50 +0000
Subject: [PATCH 027/124] fix: matrix multiplication, stretch operations,
 saving and plotting convert the values of their operands in place

---
 nimble/core/data/base.py    | 38 +++++++++++++++++++++++--------------
 nimble/core/data/stretch.py | 21 ++++++++++----------
 2 files changed, 35 insertions(+), 24 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index b8fc394..1f2f4a5 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1919,6 +1919,7 @@ class Base(ABC):
             userblockSize = 0
         with h5py.File(outPath, 'w', userblock_size=userblockSize) as hdf:
             for name, point in zip(pnames, self.points):
+                point = point.copy() # the conversion is inplace
                 point._convertToNumericTypes()
                 asArray = point.copy('numpy array')
                 _ = hdf.create_dataset(name, data=asArray)
@@ -2901,13 +2902,14 @@ class Base(ABC):
     @pyplotRequired
     def _plot(self, includeColorbar, outPath, show, title, xAxisLabel,
               yAxisLabel, **kwargs):
-        self._convertToNumericTypes(allowBool=False)
+        toPlot = self.copy() # the conversion is inplace
+        toPlot._convertToNumericTypes(allowBool=False)
 
         if 'cmap' not in kwargs:
             kwargs['cmap'] = "gray"
 
         # matshow generates a new figure b/c existing axes are an issue.
-        plt.matshow(self.copy('numpyarray'), **kwargs)
+        plt.matshow(toPlot.copy('numpyarray'), **kwargs)
 
         if includeColorbar:
             plt.colorbar()
@@ -4923,21 +4925,15 @@ class Base(ABC):
             msg += "empty"
             raise ImproperObjectAction(msg)
 
-        try:
-            self._convertToNumericTypes()
-        except ImproperObjectAction:
-            self._numericValidation()
-        try:
-            other._convertToNumericTypes()
-        except ImproperObjectAction:
-            other._numericValidation(right=True)
+        selfNumeric = self._numericTypesCopy()
+        otherNumeric = other._numericTypesCopy(right=True)
 
         if opName.startswith('__r'):
-            caller = other
-            callee = self
+            caller = otherNumeric
+            callee = selfNumeric
         else:
-            caller = self
-            callee = other
+            caller = selfNumeric
+            callee = otherNumeric
 
         if len(caller.features) != len(callee.points):
             msg = "The number of features in the left hand object must "
@@ -5404,6 +5400,20 @@ class Base(ABC):
             msg += 'operation.'
             raise ImproperObjectAction(msg) from e
 
+    def _numericTypesCopy(self, right=False, **conversionKwargs):
+        """
+        A copy converted to numeric types, if necessary. The conversion
+        is inplace so a copy is required to not modify this object.
+        """
+        try:
+            ret = self.copy()
+            ret._convertToNumericTypes(**conversionKwargs)
+            return ret
+        # copying can also fail when the data is not numeric
+        except (ImproperObjectAction, ValueError):
+            self._numericValidation(right)
+            return self
+
     def _genericBinaryOperations(self, opName, other):
         conversionKwargs = {}
         if 'pow' in opName:
diff --git a/nimble/core/data/stretch.py b/nimble/core/data/stretch.py
index 492c1de..e11c4f1 100644
--- a/nimble/core/data/stretch.py
+++ b/nimble/core/data/stretch.py
@@ -188,19 +188,20 @@ class Stretch(object):
         if 'pow' in opName:
             conversionKwargs['allowInt'] = False
             conversionKwargs['allowBool'] = False
-        try:
-            self._source._convertToNumericTypes(**conversionKwargs)
-        except ImproperObjectAction:
-            self._source._numericValidation()
+        stretched = type(self)(
+            self._source._numericTypesCopy(**conversionKwargs))
         if isinstance(other, Stretch):
-            otherSource = other._source
+            otherSource = other._source._numericTypesCopy(right=True,
+                                                          **conversionKwargs)
+            other = type(other)(otherSource)
         else:
-            otherSource = other
-        try:
-            otherSource._convertToNumericTypes(**conversionKwargs)
-        except ImproperObjectAction:
-            otherSource._numericValidation(right=True)
+            otherSource = other._numericTypesCopy(right=True,
+                                                  **conversionKwargs)
+            other = otherSource
+
+        return stretched._numericStretchArithmetic(opName, other, otherSource)
 
+    def _numericStretchArithmetic(self, opName, other, otherSource):
         self._stretchArithmetic_validation(opName, other)
 
         try:
-- 
2.43.0


From b2a1ce4b87c6b9a293872f52845c79be902a367e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:30 +0000
Subject: [PATCH 028/124] fix: the result of an arithmetic operation shares its
 dimensions with the operand

---
 nimble/core/data/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 1f2f4a5..17376f0 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -5459,7 +5459,7 @@ class Base(ABC):
             obj._diagnoseFailureAndRaiseException(opName, other, error)
             raise # backup; should be diagnosed and raised above
 
-        ret._dims = self._dims
+        ret._dims = self._dims.copy()
         if opName.startswith('__i'):
             self._referenceFrom(ret, paths=(self._absPath, self._relPath))
             ret = self
-- 
2.43.0


From 3b27642996c9a51df49af0396ef9a65f948c9d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:30 +0000
Subject: [PATCH 029/124] fix: data created from a tuple or other iterable
 shares its lists with the source

---
 nimble/core/_createHelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 34b055b..eb09370 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1539,8 +1539,8 @@ def initDataObject(
     # anything we do not recognize turn into a list, this allows for source to
     # be range, generator, map, iter, etc., and other list-like data structures
     elif not isinstance(rawData, (list, dict)):
+        # only the outer container is copied, not the objects within it
         rawData = list(rawData)
-        copied = True
 
     rawData, highDim, copied = isHighDimensionData(rawData, rowsArePoints,
                                                    skipDataProcessing, copied)
-- 
2.43.0


From 6baf20d1bb18950a45689ec22db1b4653e7cf4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:21 +0000
Subject: [PATCH 030/124] fix: unflatten loses default names and DataFrame
 dtypes are taken from other features

---
 nimble/core/data/base.py      | 31 +++++++++----------------------
 nimble/core/data/dataframe.py |  2 +-
 2 files changed, 10 insertions(+), 23 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 17376f0..40bd139 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -4158,29 +4158,16 @@ class Base(ABC):
             else:
                 return (None, None)
 
-        pNames = []
-        fNames = []
-        allPtDefault = True
-        allFtDefault = True
-        for pName, fName in splitNames:
-            if pName not in pNames:
-                if pName.startswith('_PT#'):
-                    pNames.append(None)
-                else:
-                    pNames.append(pName)
-                    if allPtDefault:
-                        allPtDefault = False
-            if fName not in fNames:
-                if fName.startswith('_FT#'):
-                    fNames.append(None)
-                else:
-                    fNames.append(fName)
-                    if allFtDefault:
-                        allFtDefault = False
-
-        if allPtDefault:
+        # unique names in order of appearance; default names were numbered
+        pNames = list(dict.fromkeys(p for p, _ in splitNames))
+        fNames = list(dict.fromkeys(f for _, f in splitNames))
+        pNames = [None if name.startswith('_PT#') else name
+                  for name in pNames]
+        fNames = [None if name.startswith('_FT#') else name
+                  for name in fNames]
+        if all(name is None for name in pNames):
             pNames = None
-        if allFtDefault:
+        if all(name is None for name in fNames):
             fNames = None
 
         return pNames, fNames
diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index abf819b..692eaf9 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -315,7 +315,7 @@ class DataFrame(Base):
             newDtypes = tuple(max(dtypes[i::reshape[1]]) for i in jumps)
         else:
             jumps = range(0, np.prod(reshape), reshape[0])
-            newDtypes = tuple(max(dtypes[i:i+reshape[1]]) for i in jumps)
+            newDtypes = tuple(max(dtypes[i:i+reshape[0]]) for i in jumps)
         order = convertToNumpyOrder(order)
         array = self._asNumpyArray()
         values = array.reshape(reshape, order=order)
-- 
2.43.0


From 1e9c67d6343a328fada2ab44ac894cebab7d7949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:21 +0000
Subject: [PATCH 031/124] fix: groupByFeature fails or splits groups with
 missing values

---
 nimble/core/data/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 40bd139..eb6106d 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1376,9 +1376,10 @@ class Base(ABC):
             if isinstance(val, str):
                 return val
             if isinstance(val, numbers.Number):
-                if val in undefined:
+                if val in undefined or val != val:
                     # check that the feature axis doesn't have that string.
-                    if "NaN" not in list(self.features.copy(by)):
+                    groupFts = self.features.copy(by)
+                    if "NaN" not in groupFts.iterateElements():
                         return "NaN"
                     return 'numpy.nan'
                 iVal = int(val)
-- 
2.43.0


From b4d055e671d8fa8cab7e7f18bd8dae3b16f0ca83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:21 +0000
Subject: [PATCH 032/124] fix: transformFeatureToIntegers gives every nan
 another integer

---
 nimble/core/data/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index eb6106d..47a5bef 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -641,6 +641,8 @@ class Base(ABC):
             integerValue = 0
             mapped = []
             for val in ft:
+                if val != val:
+                    val = np.nan # every nan is the same unique value
                 if val in mapping:
                     mapped.append(mapping[val])
                 elif val == 0:
-- 
2.43.0


From 6c0e8d4cb449adef081bc1a2fd33216134adf1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:21 +0000
Subject: [PATCH 033/124] fix: combineByExpandingFeatures fails when values
 precede names, for integer DataFrames and after invalid names

---
 nimble/core/data/_dataHelpers.py  | 17 +++++++++++++
 nimble/core/data/dataframeAxis.py | 12 ++++++---
 nimble/core/data/listAxis.py      |  5 ++--
 nimble/core/data/matrixAxis.py    |  5 ++--
 nimble/core/data/points.py        | 42 +++++++++++++++++--------------
 nimble/core/data/sparseAxis.py    |  8 +++---
 6 files changed, 59 insertions(+), 30 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index 84b2537..8467a6b 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -333,6 +333,23 @@ def constructIndicesList(obj, axis, values, argName=None):
 
     return indicesList
 
+def validateNewAxisNames(names):
+    """
+    Verify the names that an axis will have after an operation, before the
+    operation modifies the object.
+    """
+    found = set()
+    for name in names:
+        if name is None:
+            continue
+        if not isinstance(name, str):
+            raise InvalidArgumentValue("Names must be strings")
+        if name in found:
+            msg = "Cannot input duplicate names: " + name
+            raise InvalidArgumentValue(msg)
+        found.add(name)
+
+
 def fillArrayWithCollapsedFeatures(featuresToCollapse, retainData,
                                    collapseData, currNumPoints, currFtNames,
                                    numRetPoints, numRetFeatures):
diff --git a/nimble/core/data/dataframeAxis.py b/nimble/core/data/dataframeAxis.py
index 5074e0c..30aa077 100644
--- a/nimble/core/data/dataframeAxis.py
+++ b/nimble/core/data/dataframeAxis.py
@@ -229,21 +229,25 @@ class DataFramePoints(DataFrameAxis, Points):
         self._base._setDtypes(dtypes)
 
     def _combineByExpandingFeatures_implementation(
-        self, uniqueDict, namesIdx, valuesIdx, uniqueNames, numRetFeatures):
+        self, uniqueDict, namesIdx, valuesIdx, uniqueNames, numRetFeatures,
+        insertIdx):
         uncombined = [dtype for i, dtype in self._base._data.dtypes.items()
                       if i not in valuesIdx + [namesIdx]]
         combined = list(self._base._data.dtypes.iloc[valuesIdx])
-        dtypes = (uncombined[:namesIdx]
+        dtypes = (uncombined[:insertIdx]
                   + combined * len(uniqueNames)
-                  + uncombined[namesIdx:])
+                  + uncombined[insertIdx:])
 
-        tmpData = fillArrayWithExpandedFeatures(uniqueDict, namesIdx,
+        tmpData = fillArrayWithExpandedFeatures(uniqueDict, insertIdx,
                                                 uniqueNames, numRetFeatures,
                                                 len(valuesIdx))
 
         self._base._data = pd.DataFrame(tmpData)
         if tuple(self._base._data.dtypes) != tuple(dtypes):
             for (i, col), dtype in zip(self._base._data.items(), dtypes):
+                if dtype.kind in 'biu' and col.isna().any():
+                    # a combination without a value, nan is not an integer
+                    dtype = np.dtype(object if dtype.kind == 'b' else float)
                 if col.dtype !=  dtype:
                     self._base._data[i] = col.astype(dtype)
 
diff --git a/nimble/core/data/listAxis.py b/nimble/core/data/listAxis.py
index c27894f..66f4414 100644
--- a/nimble/core/data/listAxis.py
+++ b/nimble/core/data/listAxis.py
@@ -231,8 +231,9 @@ class ListPoints(ListAxis, Points):
         self._base._numFeatures = numRetFeatures
 
     def _combineByExpandingFeatures_implementation(
-        self, uniqueDict, namesIdx, valuesIdx, uniqueNames, numRetFeatures):
-        tmpData = fillArrayWithExpandedFeatures(uniqueDict, namesIdx,
+        self, uniqueDict, namesIdx, valuesIdx, uniqueNames, numRetFeatures,
+        insertIdx):
+        tmpData = fillArrayWithExpandedFeatures(uniqueDict, insertIdx,
                                                 uniqueNames, numRetFeatures,
                                                 len(valuesIdx))
 
diff --git a/nimble/core/data/matrixAxis.py b/nimble/core/data/matrixAxis.py
index 4b3c33a..59b472f 100644
--- a/nimble/core/data/matrixAxis.py
+++ b/nimble/core/data/matrixAxis.py
@@ -208,8 +208,9 @@ class MatrixPoints(MatrixAxis, Points):
         self._base._data = numpy2DArray(tmpData)
 
     def _combineByExpandingFeatures_implementation(
-        self, uniqueDict, namesIdx, valuesIdx, uniqueNames, numRetFeatures):
-        tmpData = fillArrayWithExpandedFeatures(uniqueDict, namesIdx,
+        self, uniqueDict, namesIdx, valuesIdx, uniqueNames, numRetFeatures,
+        insertIdx):
+        tmpData = fillArrayWithExpandedFeatures(uniqueDict, insertIdx,
                                                 uniqueNames, numRetFeatures,
                                                 len(valuesIdx))
 
diff --git a/nimble/core/data/points.py b/nimble/core/data/points.py
index 64b8f6c..fd82ba4 100644
--- a/nimble/core/data/points.py
+++ b/nimble/core/data/points.py
@@ -32,7 +32,7 @@ from collections import OrderedDict
 
 import nimble
 from nimble.exceptions import ImproperObjectAction
-from ._dataHelpers import limitedTo2D, prepLog
+from ._dataHelpers import limitedTo2D, prepLog, validateNewAxisNames
 
 class Points(ABC):
     """
@@ -2176,36 +2176,39 @@ class Points(ABC):
             for i in adjust:
                 prefixes[i] += '(' + type(uniqueNames[i]).__name__ + ')'
 
-        self._combineByExpandingFeatures_implementation(
-            unique, namesIdx, valuesIdx, uniqueNames, numRetFeatures)
-
-        self._base._dims = [len(unique), numRetFeatures]
-
         newFtNames = []
         for prefix in prefixes:
             # if only one feature is expanded we will use the unique values
             # from the featureNames feature, otherwise we will concatenate
             # the feature name with the values feature name.
             if numExpanded > 1:
-                for suffix in featuresWithValues:
-                    if not isinstance(suffix, str):
-                        if self._base.features._namesCreated():
-                            suffix = self._base.features.getName(suffix)
-                        else:
-                            suffix = str(suffix)
-                    concat = prefix + '_' + suffix
-                    newFtNames.append(concat)
+                for idx in valuesIdx:
+                    suffix = None
+                    if self._base.features._namesCreated():
+                        suffix = self._base.features.getName(idx)
+                    if suffix is None:
+                        suffix = str(idx)
+                    newFtNames.append(prefix + '_' + suffix)
             else:
                 newFtNames.append(prefix)
 
+        # the values features may precede the names feature
+        insertIdx = min(namesIdx, len(uncombinedIdx))
         if self._base.features._namesCreated():
             origFts = self._base.features.getNames()
             keptFts = [origFts[i] for i in uncombinedIdx]
-            fNames = keptFts[:namesIdx] + newFtNames + keptFts[namesIdx:]
-            self._base.features.setNames(fNames, useLog=False)
         else:
-            for i, name in enumerate(newFtNames):
-                self._base.features.setNames( name, oldIdentifiers=namesIdx + i, useLog=False)
+            keptFts = [None] * len(uncombinedIdx)
+        fNames = keptFts[:insertIdx] + newFtNames + keptFts[insertIdx:]
+        validateNewAxisNames(fNames)
+
+        self._combineByExpandingFeatures_implementation(
+            unique, namesIdx, valuesIdx, uniqueNames, numRetFeatures,
+            insertIdx)
+
+        self._base._dims = [len(unique), numRetFeatures]
+
+        self._base.features.setNames(fNames, useLog=False)
         if self._base.points._namesCreated():
             self.setNames(pNames, useLog=False)
 
@@ -2987,7 +2990,8 @@ class Points(ABC):
 
     @abstractmethod
     def _combineByExpandingFeatures_implementation(
-        self, uniqueDict, namesIdx, valuesIdx, uniqueNames, numRetFeatures):
+        self, uniqueDict, namesIdx, valuesIdx, uniqueNames, numRetFeatures,
+        insertIdx):
         pass
 
     @abstractmethod
diff --git a/nimble/core/data/sparseAxis.py b/nimble/core/data/sparseAxis.py
index 6d540c3..2202bc8 100644
--- a/nimble/core/data/sparseAxis.py
+++ b/nimble/core/data/sparseAxis.py
@@ -422,20 +422,21 @@ class SparsePoints(SparseAxis, Points):
         self._base._resetSorted()
 
     def _combineByExpandingFeatures_implementation(
-        self, uniqueDict, namesIdx, valuesIdx, uniqueNames, numRetFeatures):
+        self, uniqueDict, namesIdx, valuesIdx, uniqueNames, numRetFeatures,
+        insertIdx):
         tmpData = []
         tmpRow = []
         tmpCol = []
         numExpanded = len(valuesIdx)
         numNewFts = len(uniqueNames) * numExpanded
         for idx, point in enumerate(uniqueDict):
-            tmpPoint = list(point[:namesIdx])
+            tmpPoint = list(point[:insertIdx])
             for name in uniqueNames:
                 if name in uniqueDict[point]:
                     tmpPoint.extend(uniqueDict[point][name])
                 else:
                     tmpPoint.extend([np.nan] * numExpanded)
-            tmpPoint.extend(point[namesIdx:])
+            tmpPoint.extend(point[insertIdx:])
             tmpData.extend(tmpPoint)
             tmpRow.extend([idx for _ in range(len(point) + numNewFts)])
             tmpCol.extend(list(range(numRetFeatures)))
@@ -444,6 +445,7 @@ class SparsePoints(SparseAxis, Points):
         shape = (len(uniqueDict), numRetFeatures)
         self._base._data = scipy.sparse.coo_matrix((tmpData, (tmpRow, tmpCol)),
                                                    shape=shape)
+        self._base._data.eliminate_zeros()
         self._base._resetSorted()
 
 
-- 
2.43.0


From 1612c9fb537c20f5af319e569059f3fa9ac748d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:21 +0000
Subject: [PATCH 034/124] fix: splitByCollapsingFeatures loses zeros, converts
 numbers to strings and misplaces dtypes

---
 nimble/core/data/_dataHelpers.py  |  3 ++-
 nimble/core/data/base.py          |  2 +-
 nimble/core/data/dataframeAxis.py | 11 ++++-------
 nimble/core/data/features.py      |  2 +-
 nimble/core/data/listAxis.py      | 21 +++++++++------------
 nimble/core/data/points.py        | 10 +++++++---
 nimble/core/data/sparseAxis.py    | 23 +++++++++++------------
 7 files changed, 35 insertions(+), 37 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index 8467a6b..c24b1a4 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -362,7 +362,8 @@ def fillArrayWithCollapsedFeatures(featuresToCollapse, retainData,
     fill[:, :-2] = np.repeat(retainData, len(featuresToCollapse), axis=0)
 
     # stack feature names repeatedly to create new feature
-    namesAsFeature = np.tile(currFtNames, (1, currNumPoints))
+    namesAsFeature = np.tile(np.array(currFtNames, dtype=np.object_),
+                             (1, currNumPoints))
     fill[:, -2] = namesAsFeature
     # flatten values by row then reshape into new feature
     valuesAsFeature = collapseData.flatten()
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 47a5bef..20da26b 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -56,7 +56,7 @@ from ._dataHelpers import csvCommaFormat
 from ._dataHelpers import validateElementFunction, wrapMatchFunctionFactory
 from ._dataHelpers import vectorizeElementFunction
 from ._dataHelpers import ElementIterator1D
-from ._dataHelpers import limitedTo2D
+from ._dataHelpers import limitedTo2D, validateNewAxisNames
 from ._dataHelpers import arrangeFinalTable
 from ._dataHelpers import inconsistentNames, equalNames
 from ._dataHelpers import validateRangeOrder
diff --git a/nimble/core/data/dataframeAxis.py b/nimble/core/data/dataframeAxis.py
index 30aa077..4d86c06 100644
--- a/nimble/core/data/dataframeAxis.py
+++ b/nimble/core/data/dataframeAxis.py
@@ -213,13 +213,10 @@ class DataFramePoints(DataFrameAxis, Points):
         collapseData = self._base._asNumpyArray()[:, collapseIndices]
         retainData = self._base._asNumpyArray()[:, retainIndices]
 
-        collapseDtypes = (np.dtype(object), max(self._base._data.dtypes))
-        dtypes = []
-        for i in range(len(self._base.features)):
-            if i in retainIndices:
-                dtypes.append(self._base._data.dtypes.iloc[i])
-            elif i == collapseIndices[0]:
-                dtypes.extend(collapseDtypes)
+        dtypes = [self._base._data.dtypes.iloc[i] for i in retainIndices]
+        # the collapsed names and values are always the last features
+        dtypes.append(np.dtype(object))
+        dtypes.append(max(self._base._data.dtypes.iloc[collapseIndices]))
 
         tmpData = fillArrayWithCollapsedFeatures(
             featuresToCollapse, retainData, collapseData, currNumPoints,
diff --git a/nimble/core/data/features.py b/nimble/core/data/features.py
index 0fbe027..43de23b 100644
--- a/nimble/core/data/features.py
+++ b/nimble/core/data/features.py
@@ -37,7 +37,7 @@ from nimble.core.logger import handleLogging
 from nimble.exceptions import InvalidArgumentType, InvalidArgumentValue
 from nimble.exceptions import InvalidArgumentValueCombination
 from nimble._utility import prettyListString, quoteStrings
-from ._dataHelpers import limitedTo2D, prepLog
+from ._dataHelpers import limitedTo2D, prepLog, validateNewAxisNames
 
 class Features(ABC):
     """
diff --git a/nimble/core/data/listAxis.py b/nimble/core/data/listAxis.py
index 66f4414..f46eccc 100644
--- a/nimble/core/data/listAxis.py
+++ b/nimble/core/data/listAxis.py
@@ -211,20 +211,17 @@ class ListPoints(ListAxis, Points):
     def _splitByCollapsingFeatures_implementation(
             self, featuresToCollapse, collapseIndices, retainIndices,
             currNumPoints, currFtNames, numRetPoints, numRetFeatures):
-        collapseData = []
-        retainData = []
-        for pt in self._base._data:
-            collapseFeatures = []
-            retainFeatures = []
-            for idx in collapseIndices:
-                collapseFeatures.append(pt[idx])
-            for idx in retainIndices:
-                retainFeatures.append(pt[idx])
-            collapseData.append(collapseFeatures)
-            retainData.append(retainFeatures)
+        # object dtype because numpy would convert mixed values to strings
+        collapseData = np.empty((currNumPoints, len(collapseIndices)),
+                                dtype=np.object_)
+        retainData = np.empty((currNumPoints, len(retainIndices)),
+                              dtype=np.object_)
+        for i, pt in enumerate(self._base._data):
+            collapseData[i] = [pt[idx] for idx in collapseIndices]
+            retainData[i] = [pt[idx] for idx in retainIndices]
 
         tmpData = fillArrayWithCollapsedFeatures(
-            featuresToCollapse, retainData, np.array(collapseData),
+            featuresToCollapse, retainData, collapseData,
             currNumPoints, currFtNames, numRetPoints, numRetFeatures)
 
         self._base._data = tmpData.tolist()
diff --git a/nimble/core/data/points.py b/nimble/core/data/points.py
index fd82ba4..a69cff4 100644
--- a/nimble/core/data/points.py
+++ b/nimble/core/data/points.py
@@ -1988,20 +1988,24 @@ class Points(ABC):
 
         numRetPoints = len(self) * numCollapsed
         numRetFeatures = len(features) - numCollapsed + 2
+        # validate names before modifying the object
+        ftNames = [features.getName(idx) for idx in retainIndices]
+        ftNames.extend([featureForNames, featureForValues])
+        validateNewAxisNames(ftNames)
 
         self._splitByCollapsingFeatures_implementation(
             featuresToCollapse, collapseIndices, retainIndices,
             currNumPoints, currFtNames, numRetPoints, numRetFeatures)
 
         self._base._dims = [numRetPoints, numRetFeatures]
-        ftNames = [features.getName(idx) for idx in retainIndices]
-        ftNames.extend([featureForNames, featureForValues])
         features.setNames(ftNames, useLog=False)
         if self._base.points._namesCreated():
             appendedPts = []
             for name in self.getNames():
                 for i in range(numCollapsed):
-                    appendedPts.append(f"{name}_{i}")
+                    # default names remain default names
+                    appendedPts.append(None if name is None
+                                       else f"{name}_{i}")
             self.setNames(appendedPts, useLog=False)
 
 
diff --git a/nimble/core/data/sparseAxis.py b/nimble/core/data/sparseAxis.py
index 2202bc8..48223c3 100644
--- a/nimble/core/data/sparseAxis.py
+++ b/nimble/core/data/sparseAxis.py
@@ -397,18 +397,16 @@ class SparsePoints(SparseAxis, Points):
         tmpRow = []
         tmpCol = []
         for ptIdx in range(len(self)):
-            inRetain = [val in retainIndices for val in col]
-            inCollapse = [val in collapseIndices for val in col]
-            retainData = data[(row == ptIdx) & (inRetain)]
-            retainCol = col[(row == ptIdx) & (inRetain)]
-            collapseData = data[(row == ptIdx) & (inCollapse)]
-            sort = np.argsort(collapseIndices)
-            collapseData = collapseData[sort]
-            for idx, value in enumerate(collapseData):
-                tmpData.extend(retainData)
-                tmpRow.extend([ptIdx * len(featuresToCollapse) + idx]
-                              * len(retainData))
-                tmpCol.extend(list(range(len(retainCol))))
+            # zeros are not stored
+            stored = dict(zip(col[row == ptIdx], data[row == ptIdx]))
+            retain = [(i, stored[ftIdx]) for i, ftIdx
+                      in enumerate(retainIndices) if ftIdx in stored]
+            for idx, ftIdx in enumerate(collapseIndices):
+                value = stored.get(ftIdx, 0)
+                for i, retainValue in retain:
+                    tmpData.append(retainValue)
+                    tmpRow.append(ptIdx * len(featuresToCollapse) + idx)
+                    tmpCol.append(i)
                 tmpData.append(currFtNames[idx])
                 tmpRow.append(ptIdx * len(featuresToCollapse) + idx)
                 tmpCol.append(numRetFeatures - 2)
@@ -419,6 +417,7 @@ class SparsePoints(SparseAxis, Points):
         tmpData = _dataArray(tmpData)
         self._base._data = scipy.sparse.coo_matrix(
             (tmpData, (tmpRow, tmpCol)), shape=(numRetPoints, numRetFeatures))
+        self._base._data.eliminate_zeros()
         self._base._resetSorted()
 
     def _combineByExpandingFeatures_implementation(
-- 
2.43.0


From 201669b2aa131b8611c5147264f3ddd86d65ce5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:21 +0000
Subject: [PATCH 035/124] fix: splitByParsing leaves an invalid object when the
 new names are refused

---
 nimble/core/data/features.py   | 9 ++++++---
 nimble/core/data/sparseAxis.py | 1 +
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/nimble/core/data/features.py b/nimble/core/data/features.py
index 43de23b..441e408 100644
--- a/nimble/core/data/features.py
+++ b/nimble/core/data/features.py
@@ -2186,12 +2186,15 @@ class Features(ABC):
         featureIndex = self.getIndex(feature)
         numRetFeatures = len(self) - 1 + numResultingFts
 
-        self._splitByParsing_implementation(featureIndex, splitList,
-                                            numRetFeatures, numResultingFts)
-
         fNames = self.getNames()[:featureIndex]
         fNames.extend(resultingNames)
         fNames.extend(self.getNames()[featureIndex + 1:])
+        # validate names before modifying the object
+        validateNewAxisNames(fNames)
+
+        self._splitByParsing_implementation(featureIndex, splitList,
+                                            numRetFeatures, numResultingFts)
+
         self._base._dims[1] = numRetFeatures
         self.setNames(fNames, useLog=False)
 
diff --git a/nimble/core/data/sparseAxis.py b/nimble/core/data/sparseAxis.py
index 48223c3..3ad6fc2 100644
--- a/nimble/core/data/sparseAxis.py
+++ b/nimble/core/data/sparseAxis.py
@@ -511,6 +511,7 @@ class SparseFeatures(SparseAxis, Features):
         shape = (len(self._base.points), numRetFeatures)
         self._base._data = scipy.sparse.coo_matrix((tmpData, (tmpRow, tmpCol)),
                                                    shape=shape)
+        self._base._data.eliminate_zeros()
         self._base._resetSorted()
 
 
-- 
2.43.0


From cbd29f08c618726edbe6b2c2a5b93fc7fc95128f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:21 +0000
Subject: [PATCH 036/124] fix: replaceFeatureWithBinaryFeatures ignores zeros
 of Sparse and loses the feature when refused

---
 nimble/core/data/base.py   | 18 +++++++++++++-----
 nimble/core/data/sparse.py |  6 ++++--
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 20da26b..304b42c 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -557,7 +557,7 @@ class Base(ABC):
 
         index = self.features.getIndex(featureToReplace)
 
-        replace = self.features.extract([index], useLog=False)
+        replace = self.features.copy([index], useLog=False)
 
         uniqueVals = replace.countUniqueElements().keys()
         uniqueIdx = {key: i for i, key in enumerate(uniqueVals)}
@@ -569,14 +569,22 @@ class Base(ABC):
                                   useLog=False)
         ftNames = []
 
+        prefix = None
         if replace.features._namesCreated():
-            prefix = replace.features.getName(0) + "="
-        else:
-            prefix = str(index) + '='
+            prefix = replace.features.getName(0)
+        if prefix is None:
+            prefix = str(index)
         for val in uniqueVals:
-            ftNames.append(prefix + str(val))
+            ftNames.append(prefix + '=' + str(val))
         binaryObj.features.setNames(ftNames, useLog=False)
 
+        # validate names before modifying the object
+        if self.features._namesCreated():
+            kept = self.features.getNames()
+            del kept[index]
+            validateNewAxisNames(kept + ftNames)
+        self.features.delete([index], useLog=False)
+
         # must use append if the object is now feature empty
         if len(self.features) == 0:
             self.features.append(binaryObj, useLog=False)
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 7fec541..67edcaa 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -633,8 +633,10 @@ class Sparse(Base):
         binaryRow = []
         binaryCol = []
         binaryData = []
-        for ptIdx, val in zip(self._data.row, self._data.data):
-            ftIdx = uniqueIdx[val]
+        # zeros are not stored
+        values = dict(zip(self._data.row, self._data.data))
+        for ptIdx in range(len(self.points)):
+            ftIdx = uniqueIdx[values.get(ptIdx, 0)]
             binaryRow.append(ptIdx)
             binaryCol.append(ftIdx)
             binaryData.append(1)
-- 
2.43.0


From b2854814f96a2110163dd3a55c10aad9ed89c641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:06 +0000
Subject: [PATCH 037/124] fix: random.setSeed reseeded one source of randomness
 when the seed was refused

---
 nimble/random/randomness.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nimble/random/randomness.py b/nimble/random/randomness.py
index 5fb3184..449c9dc 100644
--- a/nimble/random/randomness.py
+++ b/nimble/random/randomness.py
@@ -51,8 +51,10 @@ def setSeed(seed, *, useLog=None):
         msg += 'state of randomness'
         raise RuntimeError(msg)
 
-    pythonRandom.seed(seed)
+    # numpy is the more restrictive of the two, so seeding it first ensures an
+    # invalid seed is rejected before any state has been modified
     numpyRandom.seed(seed)
+    pythonRandom.seed(seed)
 
     handleLogging(useLog, 'setSeed', 'random.setSeed', seed=seed)
 
-- 
2.43.0


From 305cfabafb993824a58ee0ec364e7e61a1caab83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:28 +0000
Subject: [PATCH 038/124] fix: trainAndTestSets left the labels in the training
 data when the test set is empty, and refused labels objects with a default
 feature name

---
 nimble/core/data/base.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 304b42c..ca5d95d 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1688,7 +1688,8 @@ class Base(ABC):
                     labelNames = labels.features.getNames()
                     # filter names for ones that overlap with self
                     namesInBoth = [name for name in labelNames
-                                   if self.features.hasName(name)]
+                                   if name is not None
+                                   and self.features.hasName(name)]
                     if namesInBoth:
                         trainX.features.delete(namesInBoth, useLog=False)
                         testX.features.delete(namesInBoth, useLog=False)
@@ -1698,13 +1699,8 @@ class Base(ABC):
                     msg += "more than two dimensions"
                     raise ImproperObjectAction(msg)
 
-                # safety for empty objects
-                toExtract = labels
-                if testXSize == 0:
-                    toExtract = []
-
-                trainY = trainX.features.extract(toExtract, useLog=False)
-                testY = testX.features.extract(toExtract, useLog=False)
+                trainY = trainX.features.extract(labels, useLog=False)
+                testY = testX.features.extract(labels, useLog=False)
 
             if self.name is not None:
                 trainX.name = self.name + "_trainX"
-- 
2.43.0


From b1d06420f5626f03ed58a9360286b6c5d2cc4732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:08 +0000
Subject: [PATCH 039/124] fix: nimble.data applied keepPoints, keepFeatures and
 convertToType to the wrong axis when rowsArePoints is False

---
 nimble/core/_createHelpers.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index eb09370..3918d96 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1614,11 +1614,15 @@ def initDataObject(
     initMethod = getattr(nimble.core.data, returnType)
     # if limiting data based on keepPoints or keepFeatures,
     # delay name setting because names may be a subset
-    if keepPoints == 'all':
+    # (the axes of the raw data are still swapped when rows are not points)
+    limitRows, limitCols = limitPoints, limitFeatures
+    if not rowsArePoints:
+        limitRows, limitCols = limitCols, limitRows
+    if not limitRows:
         usePNames = pointNames
     else:
         usePNames = True if pointNames is True else None
-    if keepFeatures == 'all':
+    if not limitCols:
         useFNames = featureNames
     else:
         useFNames = True if featureNames is True else None
@@ -1626,6 +1630,11 @@ def initDataObject(
     ret = initMethod(rawData, pointNames=usePNames, featureNames=useFNames,
                      name=name, paths=paths, reuseData=True, **kwargs)
 
+    # the parameters applied below reference points and features
+    if not rowsArePoints:
+        ret.transpose(useLog=False)
+        pointNames, featureNames = featureNames, pointNames
+
     def makeCmp(keepList, outerObj, axis):
         if axis == 'point':
             def indexGetter(x):
@@ -1718,10 +1727,7 @@ def initDataObject(
             convertToType = convertToType[0]
 
     if convertToType is not None:
-        ret._data = elementTypeConvert(ret._data, convertToType)        
-        
-    if not rowsArePoints:
-        ret.transpose(useLog=False)
+        ret._data = elementTypeConvert(ret._data, convertToType)
 
     return ret
 
-- 
2.43.0


From 695ef9db6de6f8893dd7511ac8ee98797673410d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:25 +0000
Subject: [PATCH 040/124] fix: nimble.data could not extract names embedded in
 tuples or lists of arrays

---
 nimble/core/_createHelpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 3918d96..bfaff9e 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -247,8 +247,9 @@ def extractNamesFromRawList(rawData, pnamesID, fnamesID, copied):
     pnamesID, fnamesID = autoDetectNamesFromRaw(pnamesID, fnamesID, firstRow,
                                                 secondRow)
 
-    if not copied and (pnamesID is True or fnamesID is True):
-        rawData = [lst.copy() for lst in rawData]
+    if pnamesID is True or fnamesID is True:
+        # the rows may be any sequence, but need to be mutable here
+        rawData = [list(lst) for lst in rawData]
         copied = True
     retPNames = None
     if pnamesID is True:
-- 
2.43.0


From 9ba41601a44a2586ce984f9a441281e85cdf0d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:25 +0000
Subject: [PATCH 041/124] fix: nimble.data of a nimble object with
 rowsArePoints=False used its names for the wrong axes

---
 nimble/core/_createHelpers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index bfaff9e..28646c9 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1495,10 +1495,14 @@ def initDataObject(
         if isinstance(rawData, nimble.core.data.BaseView):
             rawData = rawData.copy()
             copied = True
+        if rowsArePoints:
+            ptNameSource, ftNameSource = rawData.points, rawData.features
+        else:
+            ptNameSource, ftNameSource = rawData.features, rawData.points
         if pointNames == 'automatic' or pointNames is True:
-            pointNames = rawData.points._getNamesNoGeneration()
+            pointNames = ptNameSource._getNamesNoGeneration()
         if featureNames == 'automatic' or featureNames is True:
-            featureNames = rawData.features._getNamesNoGeneration()
+            featureNames = ftNameSource._getNamesNoGeneration()
         if returnType is None:
             returnType = rawData.getTypeString()
         rawData = rawData._data
-- 
2.43.0


From 3419d61c2dd71aee153ebcf8b2d06faab698503f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:25 +0000
Subject: [PATCH 042/124] fix: nimble.data truncated replaceMissingWith to fit
 the type of the source array

---
 nimble/core/_createHelpers.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 28646c9..0eb018b 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1005,6 +1005,13 @@ def _replaceMissingData(rawData, treatAsMissing, replaceMissingWith, copied):
             if data.dtype == bool and not isinstance(replaceMissingWith, bool):
                 # numpy will replace with bool(replaceWith) instead
                 raise ValueError('replaceWith is not a bool type')
+            if data.dtype != np.object_:
+                # numpy would truncate the value to fit the current dtype
+                replaceType = np.array(replaceMissingWith).dtype
+                if data.dtype.kind == replaceType.kind == 'U':
+                    data = data.astype(np.result_type(data, replaceType))
+                elif data.dtype.kind in 'iu' and replaceType.kind == 'f':
+                    raise ValueError('replaceWith is not an integer type')
             data[replaceLocs] = replaceMissingWith
         except ValueError:
             dtype = type(replaceMissingWith)
-- 
2.43.0


From 73b75ee728659de5497930c25a6606711fe263c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:49 +0000
Subject: [PATCH 043/124] fix: nimble.data did not treat the unstored zeros of
 sparse data as missing when 0 is in treatAsMissing

---
 nimble/core/_createHelpers.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 0eb018b..8efad19 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1029,6 +1029,15 @@ def _replaceMissingData(rawData, treatAsMissing, replaceMissingWith, copied):
                 rawData = rawData.copy()
                 copied = True
             rawData = replaceNumpyValues(rawData, replaceLocs)
+    elif (scipy.nimbleAccessible() and scipy.sparse.issparse(rawData)
+          and any(isNum(val) and val == 0 for val in treatAsMissing)):
+        # zeros are not stored, so every location must be considered
+        dense = sparseMatrixToArray(rawData)
+        replaceLocs = getNumpyReplaceLocations(dense)
+        if replaceLocs.any():
+            dense = replaceNumpyValues(dense, replaceLocs)
+            rawData = scipy.sparse.coo_matrix(dense)
+            copied = True
     elif scipy.nimbleAccessible() and scipy.sparse.issparse(rawData):
         replaceLocs = getNumpyReplaceLocations(rawData.data)
         if replaceLocs.any():
-- 
2.43.0


From 239a91dbb6c50a9a72032b7fb2fe45f1ac09dbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:06 +0000
Subject: [PATCH 044/124] fix: nimble.data converted replaceMissingWith to a
 truncated string in arrays of strings, and refused None for arrays of
 integers

---
 nimble/core/_createHelpers.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 8efad19..5613770 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1005,15 +1005,14 @@ def _replaceMissingData(rawData, treatAsMissing, replaceMissingWith, copied):
             if data.dtype == bool and not isinstance(replaceMissingWith, bool):
                 # numpy will replace with bool(replaceWith) instead
                 raise ValueError('replaceWith is not a bool type')
-            if data.dtype != np.object_:
-                # numpy would truncate the value to fit the current dtype
-                replaceType = np.array(replaceMissingWith).dtype
-                if data.dtype.kind == replaceType.kind == 'U':
-                    data = data.astype(np.result_type(data, replaceType))
-                elif data.dtype.kind in 'iu' and replaceType.kind == 'f':
-                    raise ValueError('replaceWith is not an integer type')
+            # numpy would convert or truncate the value to fit the dtype
+            if data.dtype.kind == 'U':
+                data = data.astype(np.object_)
+            elif (data.dtype.kind in 'iu'
+                  and isinstance(replaceMissingWith, (float, np.floating))):
+                raise ValueError('replaceWith is not an integer type')
             data[replaceLocs] = replaceMissingWith
-        except ValueError:
+        except (ValueError, TypeError):
             dtype = type(replaceMissingWith)
             if not allowedNumpyDType(dtype):
                 dtype = np.object_
-- 
2.43.0


From a70a34aea3ebcafc2a7522a6e1f5881bb134bf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:50 +0000
Subject: [PATCH 045/124] fix: replaceMissingWith=0 left explicit zeros stored
 in Sparse objects

---
 nimble/core/_createHelpers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 5613770..0359c8e 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1044,6 +1044,7 @@ def _replaceMissingData(rawData, treatAsMissing, replaceMissingWith, copied):
                 rawData = rawData.copy()
                 copied = True
             rawData.data = replaceNumpyValues(rawData.data, replaceLocs)
+            rawData.eliminate_zeros()
     elif _isPandasDense(rawData):
         if len(rawData.to_numpy()) > 0:
             replaceLocs = getNumpyReplaceLocations(rawData.to_numpy())
-- 
2.43.0


From 0a282839f081a4e6377415ccc114a2397bf2eb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:50 +0000
Subject: [PATCH 046/124] fix: DataFrame objects kept the index and columns of
 the pandas object they are created from

---
 nimble/core/data/dataframe.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index 692eaf9..3d5a7c7 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -78,6 +78,15 @@ class DataFrame(Base):
         else:
             self._data = pd.DataFrame(data, copy=True)
 
+        if isinstance(data, pd.DataFrame) and not (
+                data.index.equals(pd.RangeIndex(data.shape[0]))
+                and data.columns.equals(pd.RangeIndex(data.shape[1]))):
+            if reuseData:
+                # the axis labels of the provided object must not change
+                self._data = self._data.copy(deep=False)
+            self._data.index = pd.RangeIndex(data.shape[0])
+            self._data.columns = pd.RangeIndex(data.shape[1])
+
         shape = kwds.get('shape', None)
         if shape is None:
             kwds['shape'] = self._data.shape
-- 
2.43.0


From 84e483c7eef1f02f8053b56237301978d28d7ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:06 +0000
Subject: [PATCH 047/124] fix: arguments of only the apply method of a custom
 learner failed when training

---
 nimble/core/interfaces/custom_learner.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/nimble/core/interfaces/custom_learner.py b/nimble/core/interfaces/custom_learner.py
index f4147a1..c36a8de 100644
--- a/nimble/core/interfaces/custom_learner.py
+++ b/nimble/core/interfaces/custom_learner.py
@@ -159,7 +159,8 @@ class CustomLearnerInterface(UniversalInterface):
             ret.labelList = np.unique(labels)
 
         with nimble.random.alternateControl(randomSeed, useLog=False):
-            ret.train(trainX, trainY, **arguments)
+            ret.train(trainX, trainY,
+                      **_withoutApplyOnly(ret, ret.train, arguments))
 
         return ret
 
@@ -172,7 +173,10 @@ class CustomLearnerInterface(UniversalInterface):
             learner.labelList = np.union1d(learner.labelList, flattenedY)
 
         with nimble.random.alternateControl(randomSeed, useLog=False):
-            learner.incrementalTrain(trainX, trainY, **arguments)
+            learner.incrementalTrain(
+                trainX, trainY,
+                **_withoutApplyOnly(learner, learner.incrementalTrain,
+                                    arguments))
 
         return learner
 
@@ -341,6 +345,17 @@ class CustomLearner(metaclass=abc.ABCMeta):
         """
 
 
+def _withoutApplyOnly(learner, method, arguments):
+    """
+    The arguments for a training method. An argument that is only a
+    parameter of apply is stored and provided when the learner applies.
+    """
+    trainParams = inspectArguments(method)[0]
+    applyParams = learner.getApplyParameters()
+    return {name: value for name, value in arguments.items()
+            if name in trainParams or name not in applyParams}
+
+
 def validateCustomLearnerSubclass(check):
     """
     Ensures the the given class conforms to the custom learner
-- 
2.43.0


From 8fac34decf8dadb32e7c355979b00c7de4080bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:06 +0000
Subject: [PATCH 048/124] fix: nimble.train failed for every Tuning with
 iterative selection because it could not be copied

---
 nimble/core/tune.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index abd34be..6eed684 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -1807,9 +1807,12 @@ class Tuning:
         """
         A new Tuner with attributes based on the latest tuning.
         """
+        # allowIncremental is determined by the selection
+        validatorArgs = {name: arg for name, arg in self._validatorArgs.items()
+                         if name != 'allowIncremental'}
         ret = Tuning(selection=self.selection, validation=self.validation,
                      performanceFunction=self.performanceFunction,
-                     **self._selectorArgs, **self._validatorArgs)
+                     **self._selectorArgs, **validatorArgs)
         ret.validator = self.validator
         ret.arguments = self.arguments
         ret._sortedResults = self._sortedResults
-- 
2.43.0


From 945a5fcc72fa459e22dbbef8a6a1ef41e4846cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:06 +0000
Subject: [PATCH 049/124] fix: iterative selection chose the worse neighbour
 when both improve

---
 nimble/core/tune.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 6eed684..2947b8d 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -1107,10 +1107,10 @@ class Iterative(ArgumentSelector):
                 highBest = False
             if lowBest and highBest: # select better of the two
                 if self.validator._isBest(perfHigh, perfLow):
-                    best[name] = argLow
+                    best[name] = argHigh
                     self._tuneIdx[name] += 1
                 else:
-                    best[name] = argHigh
+                    best[name] = argLow
                     self._tuneIdx[name] -= 1
             elif lowBest:
                 best[name] = argLow
-- 
2.43.0


From 2f3666bf833e803e6a35de4e180399bc80d6c67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:46 +0000
Subject: [PATCH 050/124] fix: data validation tuned with iterative selection
 trained the wrong learners, and returned learners reported the arguments of
 later trials

---
 nimble/core/tune.py | 63 ++++++++++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 27 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 2947b8d..a3d5d74 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -575,8 +575,8 @@ class HoldoutData(HoldoutValidator):
         self._trainedLearner = None
         self._trainedLearnerBase = None
         self._incremental = None if allowIncremental else False
-        self._updater = None
-        self._lastArguments = {}
+        self._lastLearner = None
+        self._lastArguments = None
         self.bestTrainedLearner = None
 
     def validate(self, arguments=None, record=True, **kwarguments):
@@ -586,45 +586,54 @@ class HoldoutData(HoldoutValidator):
         arguments = mergeArguments(arguments, kwarguments)
         performance = self._validate(arguments)
         if record:
+            self._trainedLearnerBase = self._trainedLearner
             self._results.append(performance)
             self._arguments.append(arguments)
             if self._best is None or self._isBest(performance, self._best[0]):
                 self._best = (performance, arguments)
-                self.bestTrainedLearner = copy.copy(self._trainedLearnerBase)
+                self.bestTrainedLearner = self._copyTrainedLearner()
 
         return performance
 
+    def _copyTrainedLearner(self):
+        """
+        A copy not affected by training the current base learner. Unless
+        training is incremental, every learner is trained separately.
+        """
+        if self._incremental is False:
+            return self._trainedLearnerBase
+        ret = copy.copy(self._trainedLearnerBase)
+        ret._arguments = copy.copy(ret._arguments)
+        ret._backend = copy.deepcopy(ret._backend)
+        return ret
+
     def _updateTrainedLearner(self, trial):
         if trial:
-            self._trainedLearner = copy.copy(self._trainedLearnerBase)
+            self._trainedLearner = self._copyTrainedLearner()
         else:
             self._trainedLearner = self._trainedLearnerBase
 
     def _validate(self, arguments):
-        if self._trainedLearner is None:
-            self._trainedLearnerBase = nimble.train(
-                self.learnerName, self.X, self.Y, arguments, useLog=False)
-            self._trainedLearner = self._trainedLearnerBase
-            self._lastArguments = arguments
-        elif self._updater is None:
-            if self._incremental is None:
-                try:
-                    self._trainedLearner.incrementalTrain(
-                        self.X, self.Y, arguments, useLog=False)
-                    self._updater = self._trainedLearner.incrementalTrain
-                    self._incremental = True
-                except TypeError:
-                    self._incremental = False
-            if not self._incremental:
-                self._updater = self._trainedLearner.retrain
-                # only retrain if arguments have changed
-                if arguments != self._lastArguments:
-                    self._trainedLearner.retrain(self.X, self.Y, arguments,
-                                                 useLog=False)
-            self._lastArguments = arguments
-        elif self._incremental or arguments != self._lastArguments:
-            self._updater(self.X, self.Y, arguments, useLog=False)
+        if self._trainedLearner is not None and self._incremental is None:
+            try:
+                self._trainedLearner.incrementalTrain(
+                    self.X, self.Y, arguments, useLog=False)
+                self._incremental = True
+            except (TypeError, ImproperObjectAction):
+                self._incremental = False
+        elif self._incremental:
+            self._trainedLearner.incrementalTrain(
+                self.X, self.Y, arguments, useLog=False)
+
+        # only train if arguments have changed
+        if not self._incremental and (self._lastLearner is None
+                                      or arguments != self._lastArguments):
+            self._lastLearner = nimble.train(
+                self.learnerName, self.X, self.Y, arguments,
+                randomSeed=self.randomSeed, useLog=False)
             self._lastArguments = arguments
+        if not self._incremental:
+            self._trainedLearner = self._lastLearner
 
         performance = self._trainedLearner.test(
             self.performanceFunction, self.validateX, self.validateY,
-- 
2.43.0


From 5a21d0704903ad60269dd55fc69b19a63c6cec1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:46 +0000
Subject: [PATCH 051/124] fix: consecutive selection stopped at an argument
 with a single value, without tuning the arguments after it

---
 nimble/core/tune.py | 45 +++++++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index a3d5d74..0e32398 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -861,28 +861,29 @@ class Consecutive(ArgumentSelector):
         elif not self.order: # no Tune objects
             raise StopIteration
         else:
-            target = self.order[self._target]
-            try:
-                self._currArgs[target] = next(self._tune[target])
-            except StopIteration:
-                if self._target + 1 < len(self.order): # next argument
-                    self._currArgs[target] = self._bestArgs[target]
-                    self._target += 1
-                    target = self.order[self._target]
-                    self._currArgs[target] = next(self._tune[target])
-                # new loop
-                elif self._currentLoop + 1 > self.loops:
-                    raise
-                else:
-                    self._currentLoop += 1
-                    self._target = 0
-                    target = self.order[self._target]
-                    self._currArgs = self._bestArgs.copy()
-                    for key in self.order:
-                        iterator = iter(val for val in self.arguments[key]
-                                        if val != self._currArgs[key])
-                        self._tune[key] = iterator
-                    self._currArgs[target] = next(self._tune[target])
+            value = None
+            while value is None:
+                target = self.order[self._target]
+                try:
+                    value = (next(self._tune[target]),)
+                except StopIteration:
+                    # every value for this argument has been tried
+                    if self._target + 1 < len(self.order): # next argument
+                        self._currArgs[target] = self._bestArgs[target]
+                        self._target += 1
+                    # new loop
+                    elif self._currentLoop + 1 > self.loops:
+                        raise
+                    else:
+                        self._currentLoop += 1
+                        self._target = 0
+                        self._currArgs = self._bestArgs.copy()
+                        for key in self.order:
+                            iterator = iter(val for val
+                                            in self.arguments[key]
+                                            if val != self._currArgs[key])
+                            self._tune[key] = iterator
+            self._currArgs[target] = value[0]
         # go to next if currArgs were already tried in a previous loop
         if tuple(self._currArgs.items()) in self._tried:
             return self.__next__()
-- 
2.43.0


From 4bd142dbd9c31f96705c585a4f164219ca22de64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:41 +0000
Subject: [PATCH 052/124] fix: Tune never returned for ranges that multiplying
 cannot reach, failed when start equals end, and exceeded descending range
 objects

---
 nimble/core/tune.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 0e32398..f812644 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -1406,7 +1406,7 @@ class Tune:
         if isinstance(values, range):
             self._values = None
             self._start = values.start
-            self._end = values.stop - 1
+            self._end = values.stop - (1 if values.step > 0 else -1)
             self._change = values.step
 
         self._args = {'values': values, 'start': start, 'end': end,
@@ -1434,7 +1434,7 @@ class Tune:
             change = self._change
             self._values = []
             if self._start < self._end:
-                if not linear and change < 1:
+                if not linear and change <= 1:
                     msg = "change must be greater than 1"
                     raise InvalidArgumentValue(msg)
                 if linear and change <= 0:
@@ -1449,6 +1449,16 @@ class Tune:
                     msg = "change must be less than 0"
                     raise InvalidArgumentValue(msg)
                 comp = operator.ge
+            else: # a single value
+                self._values.append(self._start)
+                comp = operator.lt
+
+            if (not linear and self._start != self._end
+                    and (self._start <= 0 or self._end <= 0)):
+                # multiplying would never go past the end
+                msg = "start and end must be greater than 0 when the "
+                msg += "changeType is 'multiply'"
+                raise InvalidArgumentValue(msg)
 
             curr = self._start
             while comp(curr, self._end):
-- 
2.43.0


From b9dea9416204d6209565845042d87ca63f9a6ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:14 +0000
Subject: [PATCH 053/124] fix: retrain changed the arguments of copies and of
 refused calls, forgot the previous ones and kept the old label names

---
 nimble/core/interfaces/universal_interface.py | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index a7b90e6..c7c788d 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -1441,20 +1441,20 @@ class TrainedLearner(object):
             has2dOutput = len(outputData.features) > 1
         elif isinstance(outputData, (list, tuple)):
             has2dOutput = len(outputData) > 1
-        self._randomSeed = self._interface._getValidSeed(randomSeed)
-
+        randomSeed = self._interface._getValidSeed(randomSeed)
         merged = mergeArguments(arguments, kwarguments)
-        self._interface._validateLearnerArgumentValues(self.learnerName,
-                                                       merged)
-        for arg, value in merged.items():
+        for value in merged.values():
             if isinstance(value, nimble.Tune):
                 msg = "Cannot provide a hyperparameter tuning arguments "
                 msg += "for parameters to retrain a TrainedLearner. "
                 msg += "If wanting to perform hyperparameter tuning, use "
                 msg += "nimble.train()"
                 raise InvalidArgumentValue(msg)
-            self._arguments[arg] = value
-            self._transformedArguments[arg] = value
+        # previously set arguments remain the same unless overridden
+        newArguments = {} if self._arguments is None else {**self._arguments}
+        newArguments.update(merged)
+        self._interface._validateLearnerArgumentValues(self.learnerName,
+                                                       newArguments)
 
         # separate training data / labels if needed
         if isinstance(trainY, (str, int, np.integer)):
@@ -1462,8 +1462,7 @@ class TrainedLearner(object):
             trainY = trainX.features.extract(toExtract=trainY, useLog=False)
 
         trainedBackend = self._interface._trainBackend(
-            self.learnerName, trainX, trainY, self._transformedArguments,
-            self.randomSeed)
+            self.learnerName, trainX, trainY, newArguments, randomSeed)
 
         newBackend = trainedBackend[0]
         transformedInputs = trainedBackend[1]
@@ -1471,7 +1470,11 @@ class TrainedLearner(object):
 
         self._backend = newBackend
         self._trainXShape = trainX.shape
-        self._arguments = merged
+        self._trainYNames = None
+        if trainY is not None:
+            self._trainYNames = trainY.features._getNamesNoGeneration()
+        self._randomSeed = randomSeed
+        self._arguments = newArguments
         self._transformedArguments = transformedInputs[3]
         self._customDict = customDict
         self._has2dOutput = has2dOutput
-- 
2.43.0


From db787266bec2ad46e9482b1a843a4bc7ab41a35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:14 +0000
Subject: [PATCH 054/124] fix: incrementalTrain did not accept a feature
 identifier for the labels, and changed the arguments when it fails

---
 nimble/core/interfaces/universal_interface.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index c7c788d..022313c 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -1513,12 +1513,17 @@ class TrainedLearner(object):
             False, do **NOT** send to the logger, regardless of the
             global option.
         """
-        validateLearningArguments(trainX, trainY)
+        validateLearningArguments(trainX, trainY, arguments=arguments)
+        newArguments = {} if self._arguments is None else {**self._arguments}
         if arguments is not None:
-            self.arguments.update(arguments)
+            newArguments.update(arguments)
+        # separate training data / labels if needed
+        if isinstance(trainY, (str, int, np.integer)):
+            trainX = trainX.copy()
+            trainY = trainX.features.extract(toExtract=trainY, useLog=False)
         transformed = self._interface._inputTransformation(
             self.learnerName, trainX, trainY, None, self._randomSeed,
-            self.arguments, self._customDict)
+            newArguments, self._customDict)
         transformedTrainX = transformed[0]
         transformedTrainY = transformed[1]
         transformedArguments = transformed[3]
@@ -1526,6 +1531,8 @@ class TrainedLearner(object):
             self.learnerName, self._backend, transformedTrainX,
             transformedTrainY, transformedArguments, randomSeed,
             self._customDict)
+        self._arguments = newArguments
+        self._transformedArguments = transformedArguments
 
         handleLogging(useLog, 'TLrun', self, 'incrementalTrain',
                       self.arguments, trainX, trainY,
-- 
2.43.0


From 4a8731f4f3ba75e7675c59b3b63624d82acb09a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:18 +0000
Subject: [PATCH 055/124] fix: settings with a percent sign could not be saved
 or read

---
 nimble/core/configuration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/configuration.py b/nimble/core/configuration.py
index 3ff8888..1d7bdc6 100644
--- a/nimble/core/configuration.py
+++ b/nimble/core/configuration.py
@@ -87,7 +87,8 @@ class SessionConfiguration(object):
         changes to that configuration set and gives the user control
         over which changes should be saved and when.
         """
-        self.parser = configparser.ConfigParser()
+        # values such as paths can include '%', they are never interpolated
+        self.parser = configparser.ConfigParser(interpolation=None)
         # Needs to be set if you want option names to be case sensitive
         self.parser.optionxform = str
         self.parser.read(path)
-- 
2.43.0


From 3154e8436e90d18ce5cc72c0927d53f7180c3cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:18 +0000
Subject: [PATCH 056/124] fix: setting an option back to its saved value did
 not call its hook, so logs went to the previous destination

---
 nimble/core/configuration.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nimble/core/configuration.py b/nimble/core/configuration.py
index 1d7bdc6..6bcdef9 100644
--- a/nimble/core/configuration.py
+++ b/nimble/core/configuration.py
@@ -223,6 +223,7 @@ class SessionConfiguration(object):
                 del self.changes[section][option]
                 if len(self.changes[section]) == 0:
                     del self.changes[section]
+                self._callHook(section, option, value)
                 return
         except configparser.NoSectionError:
             pass
@@ -264,6 +265,9 @@ class SessionConfiguration(object):
             self.changes[section] = {}
         self.changes[section][option] = value
 
+        self._callHook(section, option, value)
+
+    def _callHook(self, section, option, value):
         # call hook if available
         key = (section, option)
         if key in self.hooks and self.hooks[key] is not None:
-- 
2.43.0


From 7b3fe87e61728ebc9e9fb387722d1f5ee61312de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:18 +0000
Subject: [PATCH 057/124] fix: changing the dict returned by settings.get
 changed the settings

---
 nimble/core/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/configuration.py b/nimble/core/configuration.py
index 6bcdef9..e0edba9 100644
--- a/nimble/core/configuration.py
+++ b/nimble/core/configuration.py
@@ -155,7 +155,7 @@ class SessionConfiguration(object):
             # section not in changes or config file
             raise configparser.NoSectionError(section)
 
-        ret = self.changes.copy()
+        ret = {sec: opts.copy() for sec, opts in self.changes.items()}
         for cpSection in self.parser.sections():
             if cpSection not in ret:
                 ret[cpSection] = {}
-- 
2.43.0


From 90bd4492b0b900a04463de537659eaeb3209a0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:18 +0000
Subject: [PATCH 058/124] fix: failed, refused and interrupted saves of
 settings damaged the file or the session, and saving lost what other sessions
 saved

---
 nimble/core/configuration.py | 81 ++++++++++++++++++++----------------
 1 file changed, 44 insertions(+), 37 deletions(-)

diff --git a/nimble/core/configuration.py b/nimble/core/configuration.py
index e0edba9..c2a6ff8 100644
--- a/nimble/core/configuration.py
+++ b/nimble/core/configuration.py
@@ -203,6 +203,8 @@ class SessionConfiguration(object):
         configuration file.
         """
         self.set(section, option, value)
+        # set discards values matching the file as it was when last read
+        self.changes.setdefault(section, {})[option] = value
         self.saveChanges(section, option)
 
     def set(self, section, option, value):
@@ -285,46 +287,51 @@ class SessionConfiguration(object):
         None, then all changes will be written to file. If section is
         None and option is not None, an exception is raised.
         """
-        # if no changes have been made, nothing needs to be saved.
-        if not self.changes:
-            return
-
-        def changeIndividual(changeSec, changeOpt, changeVal):
-            if not self.parser.has_section(changeSec):
-                self.parser.add_section(changeSec)
-            self.parser.set(changeSec, changeOpt, changeVal)
+        if section is None and option is not None:
+            msg = "Must specify a section if specifying an option"
+            raise InvalidArgumentValueCombination(msg)
 
+        toSave = {}
+        for sec, options in self.changes.items():
+            if section is None or sec == section:
+                selected = {opt: val for opt, val in options.items()
+                            if option is None or opt == option}
+                if selected:
+                    toSave[sec] = selected
 
-        if section is None:
-            if option is not None:
-                msg = "Must specify a section if specifying an option"
-                raise InvalidArgumentValueCombination(msg)
-            # save all
-            for sec, options in self.changes.items():
-                for opt in options:
-                    optVal = options[opt]
-                    changeIndividual(sec, opt, optVal)
-
-            self.changes = {}
-        elif option is None and section in self.changes:
-            #save section
-            for opt in self.changes[section]:
-                changeIndividual(section, opt,
-                                 self.changes[section][opt])
-
-            del self.changes[section]
-        elif (option is not None and section in self.changes
-              and option in self.changes[section]):
-            # save specific
-            optVal = self.changes[section][option]
-            changeIndividual(section, option, optVal)
-            del self.changes[section][option]
-            if len(self.changes[section]) == 0:
-                del self.changes[section]
-
-        with open(self.path, 'w', encoding='utf-8') as configFile:
-            self.parser.write(configFile)
+        # if no changes have been made, nothing needs to be saved.
+        if not toSave:
+            return
 
+        # The state of this session is only updated once the file has been
+        # written. Other sessions could have saved changes to the file.
+        parser = configparser.ConfigParser(interpolation=None)
+        parser.optionxform = str
+        parser.read(self.path)
+        for sec, options in toSave.items():
+            if not parser.has_section(sec):
+                parser.add_section(sec)
+            for opt, val in options.items():
+                parser.set(sec, opt, val)
+
+        # replace the file at once so that it can never be incomplete
+        target = os.path.realpath(self.path)
+        partial = f'{target}.{os.getpid()}.tmp'
+        try:
+            with open(partial, 'w', encoding='utf-8') as configFile:
+                parser.write(configFile)
+            os.replace(partial, target)
+        except BaseException:
+            if os.path.exists(partial):
+                os.remove(partial)
+            raise
+
+        self.parser = parser
+        for sec, options in toSave.items():
+            for opt in options:
+                del self.changes[sec][opt]
+            if not self.changes[sec]:
+                del self.changes[sec]
 
 def loadSettings():
     """
-- 
2.43.0


From 34f5d0b0c470572af7349bebec56156f4c04ab3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:34 +0000
Subject: [PATCH 059/124] fix: combineByExpandingFeatures left the object
 unusable when the feature of names is also a feature of values

---
 nimble/core/data/points.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nimble/core/data/points.py b/nimble/core/data/points.py
index a69cff4..2f5f06c 100644
--- a/nimble/core/data/points.py
+++ b/nimble/core/data/points.py
@@ -32,6 +32,7 @@ from collections import OrderedDict
 
 import nimble
 from nimble.exceptions import ImproperObjectAction
+from nimble.exceptions import InvalidArgumentValue
 from ._dataHelpers import limitedTo2D, prepLog, validateNewAxisNames
 
 class Points(ABC):
@@ -2132,6 +2133,10 @@ class Points(ABC):
             featuresWithValues = [featuresWithValues]
         valuesIdx = [self._base.features.getIndex(idx) for idx
                      in featuresWithValues]
+        if namesIdx in valuesIdx:
+            msg = "featureWithFeatureNames cannot also be one of the "
+            msg += "featuresWithValues"
+            raise InvalidArgumentValue(msg)
         combinedIdx = [namesIdx] + valuesIdx
         uncombinedIdx = [i for i in range(len(self._base.features))
                          if i not in combinedIdx]
-- 
2.43.0


From 4ad4cd28d7fe4b3c84613158da28e6bec80b8c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:34 +0000
Subject: [PATCH 060/124] fix: failing to enter random.alternateControl was
 logged as leaving it

---
 nimble/random/randomness.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nimble/random/randomness.py b/nimble/random/randomness.py
index 449c9dc..c41184c 100644
--- a/nimble/random/randomness.py
+++ b/nimble/random/randomness.py
@@ -309,10 +309,12 @@ def alternateControl(seed=None, *, useLog=None):
     pythonState = pythonRandom.getstate()
     numpyState = numpyRandom.get_state()
     savedSettable = setSeed._settable
+    entered = False
     try:
         pythonRandom.seed(seed)
         numpyRandom.seed(seed)
         setSeed._settable = False
+        entered = True
 
         action = 'entered random.alternateControl'
         handleLogging(useLog, 'setSeed', action, seed=seed)
@@ -322,5 +324,6 @@ def alternateControl(seed=None, *, useLog=None):
         numpyRandom.set_state(numpyState)
         setSeed._settable = savedSettable
 
-        action = 'exited random.alternateControl'
-        handleLogging(useLog, 'setSeed', action, seed=seed)
+        if entered:
+            action = 'exited random.alternateControl'
+            handleLogging(useLog, 'setSeed', action, seed=seed)
-- 
2.43.0


From 7b5569c57a5523a23264a18e7549d90a545ff1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:43 +0000
Subject: [PATCH 061/124] fix: holdout validators renamed the user's objects

---
 nimble/core/tune.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index f812644..06de83f 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -503,11 +503,6 @@ class HoldoutValidator(Validator):
             msg += "points"
             raise InvalidArgumentValueCombination(msg)
 
-        if validateX.name is None:
-            validateX.name = "validateX"
-        if validateY.name is None:
-            validateY.name = "validateY"
-
         self.validateX = validateX
         self.validateY = validateY
 
-- 
2.43.0


From f57f0f4572a5a2b41d4662096fb928c4f4996d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:50 +0000
Subject: [PATCH 062/124] fix: with logging enabled, calls given an array
 failed after modifying the object

---
 nimble/core/logger/session_logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/logger/session_logger.py b/nimble/core/logger/session_logger.py
index 9bfdfe4..f5672bf 100644
--- a/nimble/core/logger/session_logger.py
+++ b/nimble/core/logger/session_logger.py
@@ -1210,7 +1210,7 @@ def _buildArgDict(func, logIDs, *args, **kwargs):
             try:
                 if arg == defaultDict[name]:
                     continue
-            except TypeError:
+            except (TypeError, ValueError): # no single truth value
                 pass
         if callable(arg):
             string = _extractFunctionString(arg)
-- 
2.43.0


From ccb76c5e262d067897e5023406079ce09e576223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:50 +0000
Subject: [PATCH 063/124] fix: nimble.data with keepPoints or keepFeatures lost
 the name and logged its internal steps

---
 nimble/core/_createHelpers.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 0359c8e..b44ba4f 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1694,9 +1694,9 @@ def initDataObject(
         cleaned = getKeepIndexValues(ret.points, keepPoints)
         if len(cleaned) == numPts:
             pCmp = makeCmp(cleaned, ret, 'point')
-            ret.points.sort(by=pCmp)
+            ret.points.sort(by=pCmp, useLog=False)
         else:
-            ret = ret.points.copy(cleaned)
+            ret = ret.points.copy(cleaned, useLog=False)
         # if we had a subset of pointNames can set now on the cleaned data
         if setPtNamesAfter:
             ret.points.setNames(pointNames, useLog=False)
@@ -1725,12 +1725,14 @@ def initDataObject(
                 raise InvalidArgumentValue(msg)
         if len(cleaned) == numFts:
             fCmp = makeCmp(cleaned, ret, 'feature')
-            ret.features.sort(by=fCmp)
+            ret.features.sort(by=fCmp, useLog=False)
         else:
-            ret = ret.features.copy(cleaned)
+            ret = ret.features.copy(cleaned, useLog=False)
         # if we had a subset of featureNames can set now on the cleaned data
         if setFtNamesAfter:
             ret.features.setNames(featureNames, useLog=False)
+    # the copies made above are not named
+    ret._name = name
 
     # To simplify, we will make convertToType dicts into lists of types
     if isinstance(convertToType, dict):
-- 
2.43.0


From 73866615379d294c18089a5b3ac890148a66a55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:50 +0000
Subject: [PATCH 064/124] fix: internal steps of calls were logged as calls of
 the user

---
 nimble/core/_learnHelpers.py                  | 4 ++--
 nimble/core/data/axis.py                      | 6 ++++--
 nimble/core/data/base.py                      | 9 +++++----
 nimble/core/data/features.py                  | 5 +++--
 nimble/core/interfaces/universal_interface.py | 2 +-
 5 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/nimble/core/_learnHelpers.py b/nimble/core/_learnHelpers.py
index b6e619b..cfbdbd2 100644
--- a/nimble/core/_learnHelpers.py
+++ b/nimble/core/_learnHelpers.py
@@ -478,7 +478,7 @@ class LearnerInspector:
         try:
             runResults = nimble.trainAndApply(
                 learnerName, trainX=regressorTrainData, trainY=trainLabels,
-                testX=regressorTestData)
+                testX=regressorTestData, useLog=False)
         except Exception: # pylint: disable=broad-except
             return 'other'
 
@@ -523,7 +523,7 @@ class LearnerInspector:
         try:
             runResults = nimble.trainAndApply(learnerName, trainX=trainData,
                                               trainY=trainLabels,
-                                              testX=testData)
+                                              testX=testData, useLog=False)
         except Exception: # pylint: disable=broad-except
             return 'other'
 
diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 690d2b2..8f47364 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -1168,7 +1168,8 @@ class Axis(ABC):
                 raise ImproperObjectAction(msg)
             # construct list from function
             if limitTo is not None:
-                obj = self._base._getAxis(self._offAxis).copy(limitTo)
+                obj = self._base._getAxis(self._offAxis).copy(limitTo,
+                                                              useLog=False)
                 toIter = obj._getAxis(self._axis)
             else:
                 toIter = self
@@ -1472,7 +1473,8 @@ class Axis(ABC):
             if not (objAllDefault or toInsertAllDefault) and reorder:
                 # use copy when reordering so toInsert object is not modified
                 toInsert = toInsert.copy()
-                toInsert._getAxis(self._offAxis).permute(offAxisObj.getNames())
+                toInsert._getAxis(self._offAxis).permute(
+                    offAxisObj.getNames(), useLog=False)
 
         return toInsert
 
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index ca5d95d..8fef436 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1388,7 +1388,7 @@ class Base(ABC):
             if isinstance(val, numbers.Number):
                 if val in undefined or val != val:
                     # check that the feature axis doesn't have that string.
-                    groupFts = self.features.copy(by)
+                    groupFts = self.features.copy(by, useLog=False)
                     if "NaN" not in groupFts.iterateElements():
                         return "NaN"
                     return 'numpy.nan'
@@ -3244,7 +3244,7 @@ class Base(ABC):
                 outPath, show, figureID, title, xAxisLabel, yAxisLabel, xMin,
                 xMax, yMin, yMax, **kwargs)
         else:
-            grouped = self.groupByFeature(groupByFeature)
+            grouped = self.groupByFeature(groupByFeature, useLog=False)
             labels = list(grouped.keys())
             lastLabel = labels[-1]
             if 'color' in kwargs:
@@ -3518,8 +3518,9 @@ class Base(ABC):
         if subgroupFeature:
             subgroupFt = self.features[subgroupFeature]
             # remove name in case is same as feature
-            subgroupFt.features.setNames(None, oldIdentifiers=0)
-            toGroup.features.insert(1, subgroupFt)
+            subgroupFt.features.setNames(None, oldIdentifiers=0,
+                                         useLog=False)
+            toGroup.features.insert(1, subgroupFt, useLog=False)
         grouped = toGroup.groupByFeature(0, useLog=False)
 
         axisRange = range(1, len(grouped) + 1)
diff --git a/nimble/core/data/features.py b/nimble/core/data/features.py
index 441e408..4445f61 100644
--- a/nimble/core/data/features.py
+++ b/nimble/core/data/features.py
@@ -2453,8 +2453,9 @@ class Features(ABC):
             if 'dataType' not in report.features.getNames():
                 featureDtype = unifyingType(self._base)
                 if featureDtype: 
-                    featureTypes = nimble.data(featureDtype, featureNames=['dataType'])
-                    report.features.append(featureTypes)
+                    featureTypes = nimble.data(
+                        featureDtype, featureNames=['dataType'], useLog=False)
+                    report.features.append(featureTypes, useLog=False)
 
         handleLogging(useLog, 'report', "feature", str(report))
 
diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index 022313c..f1c1b4a 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -251,7 +251,7 @@ class UniversalInterface(metaclass=abc.ABCMeta):
 
                 # Get set of unique class labels, then generate list of all
                 # 2-combinations of class labels
-                labelVector = trainX.features.copy([trainY])
+                labelVector = trainX.features.copy([trainY], useLog=False)
                 labelVector.transpose(useLog=False)
                 labelVectorToList = labelVector.copy(to="python list")[0]
                 labelSet = list(set(labelVectorToList))
-- 
2.43.0


From 3f30dfa03517840c8fc14a32033158205282ed73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:30 +0000
Subject: [PATCH 065/124] fix: showLog refused datetime objects and compared
 dates as text

---
 nimble/core/logger/session_logger.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/nimble/core/logger/session_logger.py b/nimble/core/logger/session_logger.py
index f5672bf..5a451cd 100644
--- a/nimble/core/logger/session_logger.py
+++ b/nimble/core/logger/session_logger.py
@@ -162,11 +162,13 @@ def showLog(levelOfDetail=2, leastSessionsAgo=0, mostSessionsAgo=1,
     if levelOfDetail < 1 or levelOfDetail > 3 or levelOfDetail is None:
         msg = "levelOfDetail must be 1, 2, or 3"
         raise InvalidArgumentValue(msg)
+    if startDate is not None:
+        startDate = stringToDatetime(startDate)
+    if endDate is not None:
+        endDate = stringToDatetime(endDate)
     if (startDate is not None
             and endDate is not None
             and startDate > endDate):
-        startDate = stringToDatetime(startDate)
-        endDate = stringToDatetime(endDate)
         msg = "The startDate must be before the endDate"
         raise InvalidArgumentValueCombination(msg)
     if leastSessionsAgo is not None:
@@ -823,8 +825,11 @@ def stringToDatetime(string):
     if any value cannot be converted to an integer. Last, an attempt to
     create the datetime.datetime object is made, if it deems a value to
     be invalid (i.e a date that doesn't exist) this will also raise a
-    ValueError.
+    ValueError. A datetime object is returned unchanged.
     """
+    if isinstance(string, datetime.datetime):
+        return string
+
     string = string.strip()
 
     datetimeArgs = []
-- 
2.43.0


From 1447f5b7401732dc7040dd82a558c69951cf2d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:30 +0000
Subject: [PATCH 066/124] fix: showLog treated % and _ of the searched text as
 wildcards

---
 nimble/core/logger/session_logger.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nimble/core/logger/session_logger.py b/nimble/core/logger/session_logger.py
index 5a451cd..6062553 100644
--- a/nimble/core/logger/session_logger.py
+++ b/nimble/core/logger/session_logger.py
@@ -938,8 +938,12 @@ def _showLogQueryAndValues(leastSessionsAgo, mostSessionsAgo, startDate,
             searchForText = re.compile(searchForText).pattern
             whereQueryList.append("(logType REGEXP ? or logInfo REGEXP ?)")
         else:
+            # the text is searched for literally, not as a LIKE pattern
+            for char in ["\\", "%", "_"]:
+                searchForText = searchForText.replace(char, "\\" + char)
             searchForText = "%" + searchForText + "%"
-            whereQueryList.append("(logType LIKE ? or logInfo LIKE ?)")
+            like = "LIKE ? ESCAPE '\\'"
+            whereQueryList.append(f"(logType {like} or logInfo {like})")
         includedValues.append(searchForText)
         includedValues.append(searchForText)
 
-- 
2.43.0


From a436a4d8447ee3d5ffdfed138735547cbf9cf704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:30 +0000
Subject: [PATCH 067/124] fix: showLog cut off the contents of a logged list

---
 nimble/core/logger/session_logger.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nimble/core/logger/session_logger.py b/nimble/core/logger/session_logger.py
index 6062553..37e2ee3 100644
--- a/nimble/core/logger/session_logger.py
+++ b/nimble/core/logger/session_logger.py
@@ -1142,8 +1142,7 @@ def _buildDefaultLogString(timestamp, logType, entry):
         fullLog += textwrap.fill(entry, 79)
         fullLog += "\n"
     elif isinstance(entry, list):
-        listString = _formatSessionLine(entry)
-        fullLog += textwrap.fill(listString, 79)
+        fullLog += textwrap.fill(str(entry), 79)
         fullLog += "\n"
     else:
         dictString = _dictToKeywordString(entry)
-- 
2.43.0


From ed2d0706e91dbf43e2692695bacad9205f37ad98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:30 +0000
Subject: [PATCH 068/124] fix: two sessions logging to the same file shared a
 session number

---
 nimble/core/logger/session_logger.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/nimble/core/logger/session_logger.py b/nimble/core/logger/session_logger.py
index 37e2ee3..d7bcbec 100644
--- a/nimble/core/logger/session_logger.py
+++ b/nimble/core/logger/session_logger.py
@@ -203,6 +203,7 @@ class SessionLogger(object):
         self.logName = logName
         self.logFileName = fullLogDesignator + ".db"
         self.sessionNumber = None
+        self.sessionStarted = False
         self.connection = None
         self.cursor = None
         self.isAvailable = False
@@ -260,6 +261,7 @@ class SessionLogger(object):
         else:
             self.sessionNumber = 0
 
+        self.sessionStarted = False
         self.isAvailable = True
 
 
@@ -299,6 +301,14 @@ class SessionLogger(object):
         if not self.isAvailable:
             self.setup(self.logFileName)
 
+        if not self.sessionStarted:
+            # another session may have started using the file after setup
+            self.cursor.execute("BEGIN IMMEDIATE;")
+            self.cursor.execute("SELECT MAX(sessionNumber) FROM logger;")
+            lastSession = self.cursor.fetchone()[0]
+            if lastSession is not None and lastSession >= self.sessionNumber:
+                self.sessionNumber = lastSession + 1
+
         timestamp = strftime('%Y-%m-%d %H:%M:%S')
         sessionNum = self.sessionNumber
         logInfo = repr(logInfo)
@@ -308,6 +318,7 @@ class SessionLogger(object):
         self.cursor.execute(statement, (timestamp, sessionNum, logType,
                                         logInfo))
         self.connection.commit()
+        self.sessionStarted = True
 
 
     def extractFromLog(self, query, values=None):
-- 
2.43.0


From 1f26e513d249afddf908986ff55b324753fcf77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:30 +0000
Subject: [PATCH 069/124] fix: a random seed of 0 was missing from the log

---
 nimble/core/logger/session_logger.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nimble/core/logger/session_logger.py b/nimble/core/logger/session_logger.py
index d7bcbec..1703aae 100644
--- a/nimble/core/logger/session_logger.py
+++ b/nimble/core/logger/session_logger.py
@@ -511,7 +511,7 @@ class SessionLogger(object):
                 arguments = arguments.copy() # don't modify original dict
                 logInfo['arguments'] = literalOnlyArguments(arguments)
 
-            if randomSeed is not None and randomSeed:
+            if randomSeed is not None:
                 logInfo['randomSeed'] = randomSeed
             if metrics is not None and metrics:
                 logInfo["metrics"] = metrics
@@ -1080,7 +1080,7 @@ def _buildRunLogString(timestamp, entry):
         fullLog += textwrap.fill(argString, 79, subsequent_indent=" "*11)
         fullLog += "\n"
     # randomSeed
-    if entry.get("randomSeed", False):
+    if entry.get("randomSeed") is not None:
         fullLog += "Random Seed: " + str(entry["randomSeed"])
         fullLog += "\n"
     # extraInfo
-- 
2.43.0


From 4b3eff6a3abbc3a0384847858ed9496b9ee31976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:33 +0000
Subject: [PATCH 070/124] fix: calculate.sum failed on non-numeric data instead
 of returning NaN

---
 nimble/calculate/statistic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nimble/calculate/statistic.py b/nimble/calculate/statistic.py
index 5666e07..2ab9df7 100644
--- a/nimble/calculate/statistic.py
+++ b/nimble/calculate/statistic.py
@@ -506,6 +506,7 @@ def count(values):
     """
     return _sum(1 for _ in values.iterateElements(only=nonMissing))
 
+@numericRequired
 def sum(values): # pylint: disable=redefined-builtin
     """
     The sum of the values in the vector.
-- 
2.43.0


From c7281f04ca712d45058b2a835f17f4a8c799c60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:33 +0000
Subject: [PATCH 071/124] fix: quartiles of boolean values were NaN

---
 nimble/calculate/statistic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/calculate/statistic.py b/nimble/calculate/statistic.py
index 2ab9df7..1079735 100644
--- a/nimble/calculate/statistic.py
+++ b/nimble/calculate/statistic.py
@@ -425,7 +425,7 @@ def quartiles(values):
     (8.5, 13.0, 17.5)
     """
     # copy as horizontal array to use for intermediate calculations
-    values = dtypeConvert(values.copy(to="numpyarray", outputAs1D=True))
+    values = values.copy(to="numpyarray", outputAs1D=True).astype(np.float64)
     ret = np.nanpercentile(values, (25, 50, 75), overwrite_input=True)
     return tuple(ret)
 
-- 
2.43.0


From 53671df9ebdd284d771c3f3d5dd9028babf78d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:33 +0000
Subject: [PATCH 072/124] fix: the 'count' statistic was accepted and then
 refused

---
 nimble/_utility.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nimble/_utility.py b/nimble/_utility.py
index 4fdce96..b1bf35a 100644
--- a/nimble/_utility.py
+++ b/nimble/_utility.py
@@ -602,6 +602,8 @@ def _getStatsFunction(statsFuncName):
         toCall = nimble.calculate.mean
     elif statsFuncName == 'median':
         toCall = nimble.calculate.median
+    elif statsFuncName == 'count':
+        toCall = nimble.calculate.count
     elif statsFuncName == 'mode':
         toCall = nimble.calculate.mode
     elif statsFuncName == 'sum':
-- 
2.43.0


From 5a10a8dc5146acdb9414f4a66233c67aeededb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:33 +0000
Subject: [PATCH 073/124] fix: features.mode did not accept groupByFeature

---
 nimble/core/data/features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/features.py b/nimble/core/data/features.py
index 4445f61..3a5d6f4 100644
--- a/nimble/core/data/features.py
+++ b/nimble/core/data/features.py
@@ -2974,7 +2974,7 @@ class Features(ABC):
    
     
     @limitedTo2D
-    def mode(self,grouByFeature=None):
+    def mode(self, groupByFeature=None):
         """
         Returns a nimble object representing the mode along 
         the features axis.
@@ -2997,7 +2997,7 @@ class Features(ABC):
          mode │ 0  2  2
         >
         """
-        return self._mode(grouByFeature)
+        return self._mode(groupByFeature)
     
     @limitedTo2D
     def sum(self, groupByFeature=None):
-- 
2.43.0


From 084c5305da351ac8012b6cef9003398db0aebe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:35 +0000
Subject: [PATCH 074/124] fix: percentileNormalize counted only one missing
 value

---
 nimble/calculate/normalize.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/nimble/calculate/normalize.py b/nimble/calculate/normalize.py
index 3c59fd0..8fde192 100644
--- a/nimble/calculate/normalize.py
+++ b/nimble/calculate/normalize.py
@@ -234,11 +234,8 @@ def percentileNormalize(values1, values2=None):
 
     # index locations of sorted values
     argsort = np.argsort(arr1)
-    anyNan = any(map(np.isnan, arr1))
-    if anyNan: # ignore index for nan
-        epsilon = 1 / (len(arr1) - 2)
-    else:
-        epsilon = 1 / (len(arr1) - 1)
+    numKnown = np.count_nonzero(~np.isnan(arr1)) # ignore index for nan
+    epsilon = 1 / max(numKnown - 1, 1)
     for i, idx in enumerate(argsort):
         if not np.isnan(percentiles[idx]):
             percentiles[idx] = i * epsilon
-- 
2.43.0


From f49da118cf9a3c68f11909784ef86035e7418618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:35 +0000
Subject: [PATCH 075/124] fix: features.normalize with applyResultTo did not
 accept a single feature

---
 nimble/core/data/features.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/features.py b/nimble/core/data/features.py
index 3a5d6f4..f92bbf3 100644
--- a/nimble/core/data/features.py
+++ b/nimble/core/data/features.py
@@ -38,6 +38,7 @@ from nimble.exceptions import InvalidArgumentType, InvalidArgumentValue
 from nimble.exceptions import InvalidArgumentValueCombination
 from nimble._utility import prettyListString, quoteStrings
 from ._dataHelpers import limitedTo2D, prepLog, validateNewAxisNames
+from ._dataHelpers import constructIndicesList
 
 class Features(ABC):
     """
@@ -2003,7 +2004,8 @@ class Features(ABC):
                 msg += 'featureNames of the calling object'
                 raise InvalidArgumentValue(msg)
             if features is not None:
-                features = list(map(self._getIndex, features))
+                features = constructIndicesList(self._base, 'feature',
+                                                features)
             zipFeatures = zip(self, applyResultTo.features)
             for i, (ft1, ft2) in enumerate(zipFeatures):
                 if features is None or i in features:
-- 
2.43.0


From 9ccf0b49d096c4add3fd52db32df362c1dd3ff97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:35 +0000
Subject: [PATCH 076/124] fix: leastSquaresSolution failed for a 1x1 Sparse
 object

---
 nimble/calculate/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/calculate/linalg.py b/nimble/calculate/linalg.py
index 8d1bb0c..e8cfc44 100644
--- a/nimble/calculate/linalg.py
+++ b/nimble/calculate/linalg.py
@@ -326,7 +326,7 @@ def _backendSolvers(aObj, bObj, solverFunction):
     elif aObj.getTypeString() == 'Sparse':
         aCopy = aObj.copy()
         aData = dtypeConvert(aCopy._data)
-        bData = dtypeConvert(np.asarray(bObj._data))
+        bData = dtypeConvert(np.asarray(bObj._data)).flatten()
         if solverFunction.__name__ == 'solve':
             solution = scipy.sparse.linalg.spsolve(aData, bData)
         else:
-- 
2.43.0


From ac97b1fa714f0a0413ca381d46ae3c7b45617bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:08 +0000
Subject: [PATCH 077/124] fix: inverse of a singular 1x1 Sparse object was NaN
 instead of refused

---
 nimble/calculate/linalg.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nimble/calculate/linalg.py b/nimble/calculate/linalg.py
index e8cfc44..ea23c50 100644
--- a/nimble/calculate/linalg.py
+++ b/nimble/calculate/linalg.py
@@ -116,6 +116,9 @@ def inverse(aObj):
                 msg = 'Elements types in object data are not supported.'
                 raise InvalidArgumentType(msg) from exception
             raise exception
+        # scipy does not raise the exception for a 1x1 matrix
+        if invObj.shape == (1, 1) and not np.isfinite(invData).all():
+            raise InvalidArgumentValue('Object non-invertible (Singular)')
 
     return nimble.data(invData, returnType=aObj.getTypeString(), useLog=False)
 
-- 
2.43.0


From b01ebe5b2100d1da71c0f400b60420768739ff22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:22 +0000
Subject: [PATCH 078/124] fix: the separator of a one column file was guessed
 to be one of its digits or letters

---
 nimble/core/_createHelpers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index b44ba4f..bfa01e6 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2566,7 +2566,11 @@ def _detectDialectFromSeparator(ioStream, inputSeparator):
     _ = _advancePastComments(ioStream)
     if inputSeparator == 'automatic':
         # detect the delimiter from the first line of data
-        inputSeparator = csv.Sniffer().sniff(ioStream.readline()).delimiter
+        try:
+            sniffed = csv.Sniffer().sniff(ioStream.readline(), ',\t;:| ~^')
+            inputSeparator = sniffed.delimiter
+        except csv.Error: # no separators, the file has a single column
+            inputSeparator = ','
     elif len(inputSeparator) > 1:
         msg = "inputSeparator must be a single character"
         raise InvalidArgumentValue(msg)
-- 
2.43.0


From 1196c4ba918185edf89de82ba5bbb7e8385328c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:22 +0000
Subject: [PATCH 079/124] fix: reading a delimited file changed blank lines and
 carriage returns in quoted values

---
 nimble/core/_createHelpers.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index bfa01e6..1fb0989 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2274,7 +2274,8 @@ def createDataFromFile(
     if extension != 'csv':
         ioStream = BytesIO(content)
     else:
-        ioStream = StringIO(content.decode(encoding), newline=None)
+        # line endings are handled by the reader, in quoted values they are data
+        ioStream = StringIO(content.decode(encoding), newline='')
 
     # if the file has a different, valid extension from the one we determined
     # we will defer to the file's extension
@@ -2523,7 +2524,7 @@ def _advancePastComments(ioStream):
         row = ioStream.readline()
         if not row: # empty row indicates end of file
             raise FileFormatException('No data found in file')
-        if row[0] not in ['#', '\n']:
+        if row[0] not in ['#', '\n', '\r']:
             ioStream.seek(startPosition)
             break
 
@@ -2894,10 +2895,8 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
     # Advance the file past any beginning of file comments, record
     # how many are skipped
     skippedLines = _advancePastComments(ioStream)
-    # remake the file iterator to ignore empty lines
-    filtered = filter(lambda row: row[0] != '\n', ioStream)
-    # send that line iterator to the csv reader
-    lineReader = csv.reader(filtered, dialect)
+    # the reader provides an empty list for each empty line, ignore those
+    lineReader = filter(None, csv.reader(ioStream, dialect))
 
     firstRowLength = None
     if featureNames is True:
-- 
2.43.0


From 37354a0d9940edaef7a142160022d9474b147db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:33 +0000
Subject: [PATCH 080/124] fix: values and names with quotes, line breaks or a
 leading # and missing names were not saved properly in csv files

---
 nimble/core/_createHelpers.py    |  4 ++--
 nimble/core/data/_dataHelpers.py |  6 ++++--
 nimble/core/data/base.py         |  3 ++-
 nimble/core/data/dataframe.py    | 30 ++++++++++++++++--------------
 nimble/core/data/list.py         |  2 +-
 nimble/core/data/matrix.py       |  3 ++-
 nimble/core/data/sparse.py       |  2 +-
 7 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 1fb0989..9ea1bd8 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -3026,7 +3026,7 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
             if keepPoints == 'all':
                 retData.append(row)
                 if pointNames is True or trackPoints:
-                    extractedPointNames.append(ptName)
+                    extractedPointNames.append(ptName if ptName else None)
             else:
                 if ptName is not None and ptName in keepPoints:
                     locate = ptName
@@ -3038,7 +3038,7 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
                 locatedPoints.append(locate)
                 retData[location] = row
                 if pointNames is True or trackPoints:
-                    extractedPointNames[location] = ptName
+                    extractedPointNames[location] = ptName if ptName else None
 
         totalPoints = i + 1
 
diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index c24b1a4..5a9d32d 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -787,9 +787,11 @@ class NimbleElementIterator(object):
 
 def csvCommaFormat(name):
     """
-    Prevent the name from being interpreted as two different csv values.
+    Prevent the name from being interpreted as two different csv values,
+    as quoted text, as a comment or as an empty line.
     """
-    if isinstance(name, str) and ',' in name:
+    if isinstance(name, str) and (not name or name[0] == '#'
+                                  or re.search(r'[,"\r\n]', name)):
         if '"' in name:
             name = re.sub(r'"', '""', name)
         name = f'"{name}"'
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 8fef436..b5acdb2 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1907,7 +1907,8 @@ class Base(ABC):
 
 
     def _writeFeatureNamesToCSV(self, openFile, includePointNames):
-        fnames = list(map(csvCommaFormat, self.features.getNames()))
+        fnames = [csvCommaFormat(name) if name else ''
+                  for name in self.features.getNames()]
         if includePointNames:
             fnames.insert(0, 'pointNames')
         fnamesLine = ','.join(fnames)
diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index 3d5a7c7..20f8b24 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -19,6 +19,7 @@
 Class extending Base, using a pandas DataFrame to store data.
 """
 
+import csv
 import itertools
 import numbers
 
@@ -166,22 +167,23 @@ class DataFrame(Base):
         Function to write the data in this object to a CSV file at the
         designated path.
         """
-        with open(outPath, 'w', encoding='utf-8') as outFile:
+        toWrite = self._data
+        if includePointNames:
+            pnames = [name or '' for name in self.points.getNames()]
+            toWrite = toWrite.set_axis(pnames, axis=0)
+        with open(outPath, 'w', encoding='utf-8', newline='') as outFile:
             if includeFeatureNames:
-                self._data.columns = self.features.getNames()
+                self._writeFeatureNamesToCSV(outFile, includePointNames)
+            quoting = csv.QUOTE_MINIMAL
+            if toWrite.size:
+                # the first value cannot be read as the start of a comment
+                first = toWrite.iat[0, 0]
                 if includePointNames:
-                    outFile.write('pointNames')
-
-            if includePointNames:
-                self._data.index = self.points.getNames()
-
-        self._data.to_csv(outPath, mode='a', index=includePointNames,
-                          header=includeFeatureNames)
-
-        if includePointNames:
-            self._data.index = pd.RangeIndex(len(self._data.index))
-        if includeFeatureNames:
-            self._data.columns = pd.RangeIndex(len(self._data.columns))
+                    first = pnames[0]
+                if str(first).startswith('#'):
+                    quoting = csv.QUOTE_NONNUMERIC
+            toWrite.to_csv(outFile, index=includePointNames, header=False,
+                           na_rep='nan', quoting=quoting)
 
     def _saveMTX_implementation(self, outPath, includePointNames,
                                 includeFeatureNames):
diff --git a/nimble/core/data/list.py b/nimble/core/data/list.py
index b1a2aa9..9830788 100644
--- a/nimble/core/data/list.py
+++ b/nimble/core/data/list.py
@@ -212,7 +212,7 @@ class List(Base):
             for point in self.points:
                 first = True
                 if includePointNames:
-                    currPname = csvCommaFormat(point.points.getName(0))
+                    currPname = csvCommaFormat(point.points.getName(0) or '')
                     outFile.write(currPname)
                     first = False
 
diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index 6960a6c..6248076 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -144,7 +144,8 @@ class Matrix(Base):
             else:
                 viewData = self._data.view()
             if includePointNames:
-                pnames = list(map(csvCommaFormat, self.points.getNames()))
+                pnames = [csvCommaFormat(name or '')
+                          for name in self.points.getNames()]
                 pnames = numpy2DArray(pnames).transpose()
                 viewData = np.concatenate((pnames, viewData), 1)
 
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 67edcaa..0b6cee3 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -316,7 +316,7 @@ class Sparse(Base):
             zero = self._data.data.dtype.type(0)
             for i in range(len(self.points)):
                 if includePointNames:
-                    currPname = csvCommaFormat(self.points.getName(i))
+                    currPname = csvCommaFormat(self.points.getName(i) or '')
                     outFile.write(currPname)
                     outFile.write(',')
                 for j in range(len(self.features)):
-- 
2.43.0


From d56015ff60600f1b84611c6e62e8f82cfed6c1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:33 +0000
Subject: [PATCH 081/124] fix: names with commas and missing names were not
 saved properly in mtx files

---
 nimble/core/_createHelpers.py | 12 +++++++-----
 nimble/core/data/base.py      |  7 +++++++
 nimble/core/data/dataframe.py |  4 ++--
 nimble/core/data/list.py      | 13 ++-----------
 nimble/core/data/matrix.py    | 12 ++----------
 nimble/core/data/sparse.py    | 14 ++------------
 6 files changed, 22 insertions(+), 40 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 9ea1bd8..1378964 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2691,6 +2691,9 @@ def _limitToKeptFeatures(keepFeatures, retFNames):
     return keepIndices, keepNames
 
 
+def _emptyToNone(names):
+    return [name if name else None for name in names]
+
 def _loadmtxForAuto(ioStream, pointNames, featureNames, encoding):
     """
     Uses scipy helpers to read a matrix market file; returning whatever
@@ -2718,14 +2721,13 @@ def _loadmtxForAuto(ioStream, pointNames, featureNames, encoding):
             # strip '%#' from the begining of the line
             scrubbedLine = currLine[2:]
             # strip newline from end of line
-            scrubbedLine = scrubbedLine.rstrip()
-            names = list(map(lambda s: s.decode(encoding),
-                             scrubbedLine.split(b',')))
+            scrubbedLine = scrubbedLine.rstrip(b'\r\n').decode(encoding)
+            names = next(csv.reader([scrubbedLine]), [])
             if not seenPNames:
-                retPNames = names if names != [''] else None
+                retPNames = _emptyToNone(names) if any(names) else None
                 seenPNames = True
             else:
-                retFNames = names if names != [''] else None
+                retFNames = _emptyToNone(names) if any(names) else None
 
     ioStream.seek(startPosition)
     data = scipy.io.mmread(ioStream)
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index b5acdb2..2209a93 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1915,6 +1915,13 @@ class Base(ABC):
         fnamesLine += '\n'
         openFile.write(fnamesLine)
 
+    def _mtxNames(self, axis):
+        """
+        The line with the names of an axis in the comments of mtx files.
+        """
+        return '#' + ','.join([csvCommaFormat(name) if name else ''
+                               for name in axis.getNames()])
+
     def _saveHDF_implementation(self, outPath, includePointNames):
         if not h5py.nimbleAccessible():
             msg = 'h5py must be installed to write to an hdf file'
diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index 20f8b24..8226e9d 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -197,9 +197,9 @@ class DataFrame(Base):
 
         comment = '#'
         if includePointNames:
-            comment += ','.join(self.points.getNames())
+            comment = self._mtxNames(self.points)
         if includeFeatureNames:
-            comment += '\n#' + ','.join(self.features.getNames())
+            comment += '\n' + self._mtxNames(self.features)
         scipy.io.mmwrite(outPath, self._data.astype(np.float64),
                          comment=comment)
 
diff --git a/nimble/core/data/list.py b/nimble/core/data/list.py
index 9830788..35a041e 100644
--- a/nimble/core/data/list.py
+++ b/nimble/core/data/list.py
@@ -232,21 +232,12 @@ class List(Base):
         with open(outPath, 'w', encoding='utf-8') as outFile:
             outFile.write("%%MatrixMarket matrix array real general\n")
 
-            def writeNames(nameList):
-                for i, n in enumerate(nameList):
-                    if i == 0:
-                        outFile.write('%#')
-                    else:
-                        outFile.write(',')
-                    outFile.write(n)
-                outFile.write('\n')
-
             if includePointNames:
-                writeNames(self.points.getNames())
+                outFile.write('%' + self._mtxNames(self.points) + '\n')
             else:
                 outFile.write('%#\n')
             if includeFeatureNames:
-                writeNames(self.features.getNames())
+                outFile.write('%' + self._mtxNames(self.features) + '\n')
             else:
                 outFile.write('%#\n')
 
diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index 6248076..e001e55 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -157,22 +157,14 @@ class Matrix(Base):
             msg = "scipy is not available"
             raise PackageException(msg)
 
-        def makeNameString(count, namesGetter):
-            nameString = "#"
-            for i in range(count):
-                nameString += namesGetter(i)
-                if not i == count - 1:
-                    nameString += ','
-            return nameString
-
         header = ''
         if includePointNames:
-            header = makeNameString(len(self.points), self.points.getName)
+            header = self._mtxNames(self.points)
             header += '\n'
         else:
             header += '#\n'
         if includeFeatureNames:
-            header += makeNameString(len(self.features), self.features.getName)
+            header += self._mtxNames(self.features)
         else:
             header += '#\n'
 
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 0b6cee3..b19d386 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -334,24 +334,14 @@ class Sparse(Base):
 
     def _saveMTX_implementation(self, outPath, includePointNames,
                                 includeFeatureNames):
-        def makeNameString(count, namesItoN):
-            nameString = "#"
-            for i in range(count):
-                nameString += namesItoN[i]
-                if not i == count - 1:
-                    nameString += ','
-            return nameString
-
         header = ''
         if includePointNames:
-            pNames = self.points.getNames()
-            header = makeNameString(len(self.points), pNames)
+            header = self._mtxNames(self.points)
             header += '\n'
         else:
             header += '#\n'
         if includeFeatureNames:
-            fNames = self.features.getNames()
-            header += makeNameString(len(self.features), fNames)
+            header += self._mtxNames(self.features)
             header += '\n'
         else:
             header += '#\n'
-- 
2.43.0


From fad07e0581ec6f0c6cdd50737454a7375ffcc6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:33 +0000
Subject: [PATCH 082/124] fix: List saved boolean values and objects which are
 not numeric as invalid mtx files

---
 nimble/core/data/list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/data/list.py b/nimble/core/data/list.py
index 35a041e..dfac1fc 100644
--- a/nimble/core/data/list.py
+++ b/nimble/core/data/list.py
@@ -246,7 +246,7 @@ class List(Base):
             for j in range(len(self.features)):
                 for i in range(len(self.points)):
                     value = self._data[i][j]
-                    outFile.write(str(value) + '\n')
+                    outFile.write(str(float(value)) + '\n')
 
     def _referenceFrom_implementation(self, other, kwargs):
         kwargs.setdefault('checkAll', False)
-- 
2.43.0


From 7243ce2114286ef3cdd4469451b20ddaa50cde4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:41 +0000
Subject: [PATCH 083/124] fix: hdf5 files of two-dimensional data were loaded
 with a different shape, order and number of points

---
 nimble/core/_createHelpers.py |  9 +++++++--
 nimble/core/data/base.py      | 22 ++++++++++++++++++----
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 1378964..6cb6904 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2785,6 +2785,8 @@ def _loadhdf5ForAuto(ioStream, pointNames, featureNames):
         data = []
         pnames = []
         expShape = None
+        # when saved by Nimble, each Dataset is always a point
+        fromNimble = 'nimblePoints' in hdf.attrs
         for key, val in hdf.items():
             ptData = extractArray(val)
             ptShape = np.array(ptData).shape
@@ -2795,7 +2797,8 @@ def _loadhdf5ForAuto(ioStream, pointNames, featureNames):
                 msg += f"The data in key '{key}' had shape {ptShape} but the "
                 msg += f'first point had shape {expShape}'
                 raise InvalidArgumentValue(msg)
-            pnames.append(key)
+            name = val.attrs.get('pointName', key)
+            pnames.append(name if name else None)
             data.append(ptData)
 
     # by default 'automatic' will only assign point names if we identify
@@ -2809,7 +2812,9 @@ def _loadhdf5ForAuto(ioStream, pointNames, featureNames):
     # if we only have one Dataset, we will default to returning only the
     # array contained in the Dataset unless the pointNames indicate that
     # we should keep the array contained in a single point
-    if len(data) == 1 and pointNames and pointNames is not True:
+    if fromNimble:
+        pass
+    elif len(data) == 1 and pointNames and pointNames is not True:
         numNames = len(pointNames)
         innerShape = data[0].shape[0]
         # point names are for the array in the dataset
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 2209a93..9755923 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1932,12 +1932,26 @@ class Base(ABC):
         else:
             pnames = [str(i) for i in range(len(self.points))]
             userblockSize = 0
-        with h5py.File(outPath, 'w', userblock_size=userblockSize) as hdf:
-            for name, point in zip(pnames, self.points):
+        # tracking the order keeps the points from being sorted by name
+        with h5py.File(outPath, 'w', userblock_size=userblockSize,
+                       track_order=True) as hdf:
+            hdf.attrs['nimblePoints'] = True
+            for i, (name, point) in enumerate(zip(pnames, self.points)):
                 point = point.copy() # the conversion is inplace
                 point._convertToNumericTypes()
-                asArray = point.copy('numpy array')
-                _ = hdf.create_dataset(name, data=asArray)
+                if len(self._dims) > 2:
+                    asArray = point.copy('numpy array')
+                else:
+                    asArray = point.copy('numpy array', outputAs1D=True)
+                # not every name, and no missing name, can be used in the file
+                key = name
+                if not name or '/' in name or not name.strip('.'):
+                    key = f'point {i}'
+                    while key in pnames:
+                        key += '_'
+                dataset = hdf.create_dataset(key, data=asArray)
+                if key != name:
+                    dataset.attrs['pointName'] = name if name else ''
                 hdf.flush()
         if includePointNames:
             with open(outPath, 'rb+') as f:
-- 
2.43.0


From 3a285a8244295b7cafb658791789015b619a1596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:46 +0000
Subject: [PATCH 084/124] fix: reading a csv file with pointNames=False used
 the first column as names if its feature had no name

---
 nimble/core/_createHelpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 6cb6904..c0440ff 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2474,6 +2474,7 @@ def _checkCSVForNames(ioStream, pointNames, featureNames, dialect):
     # Use the robust csv reader to read the first two lines (if available)
     # these are saved to use in further autodetection
     rowReader = csv.reader(ioStream, dialect)
+    automaticPtNames = pointNames == 'automatic'
     possiblePtNames = False
     try:
         firstRow = next(rowReader)
@@ -2504,7 +2505,7 @@ def _checkCSVForNames(ioStream, pointNames, featureNames, dialect):
         pointNames, featureNames, firstDataRow, secondDataRow)
 
     # possible pointNames if first was missing and rest could be featureNames
-    trackPoints = possiblePtNames and featureNames
+    trackPoints = automaticPtNames and possiblePtNames and featureNames
 
     # reset everything to make the loop easier
     ioStream.seek(startPosition)
-- 
2.43.0


From 77be327feb394188319d94615096f6c16fb0f3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:49 +0000
Subject: [PATCH 085/124] fix: reading delimited files changed the delimiter of
 csv.excel

---
 nimble/core/_createHelpers.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index c0440ff..b35aeea 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2576,11 +2576,8 @@ def _detectDialectFromSeparator(ioStream, inputSeparator):
     elif len(inputSeparator) > 1:
         msg = "inputSeparator must be a single character"
         raise InvalidArgumentValue(msg)
-    if inputSeparator == '\t':
-        dialect = csv.excel_tab
-    else:
-        dialect = csv.excel
-        dialect.delimiter = inputSeparator
+    class dialect(csv.excel):
+        delimiter = inputSeparator
 
     # reset everything to make the loop easier
     ioStream.seek(startPosition)
-- 
2.43.0


From 8829d3711687dc5eba07112a7d45b745a2e63c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:49 +0000
Subject: [PATCH 086/124] fix: reading a delimited file with
 rowsArePoints=False mixed up points and features

---
 nimble/core/_createHelpers.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index b35aeea..2d67a28 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2288,6 +2288,10 @@ def createDataFromFile(
     with ioStream as toLoad:
         selectSuccess = False
         if extension == 'csv':
+            if not rowsArePoints:
+                toLoad = _transposeCSV(toLoad, inputSeparator)
+                inputSeparator = ','
+                rowsArePoints = True
             emptyIsMissing = '' in treatAsMissing
             loaded = _loadcsvUsingPython(
                 toLoad, pointNames, featureNames, ignoreNonNumericalFeatures,
@@ -2585,6 +2589,27 @@ def _detectDialectFromSeparator(ioStream, inputSeparator):
     return dialect
 
 
+def _transposeCSV(ioStream, inputSeparator):
+    """
+    Exchange the rows and columns of a delimited file, so that each row
+    will be a point. The file returned is comma separated.
+    """
+    dialect = _detectDialectFromSeparator(ioStream, inputSeparator)
+    skippedLines = _advancePastComments(ioStream)
+    rows = list(filter(None, csv.reader(ioStream, dialect)))
+    for i, row in enumerate(rows):
+        if len(row) != len(rows[0]):
+            msg = f"The row on line {skippedLines + i + 1} has length "
+            msg += f"{len(row)}. We expected length {len(rows[0])}."
+            raise FileFormatException(msg)
+    transposed = StringIO(newline='')
+    # quoting prevents the first value from being considered a comment
+    csv.writer(transposed, quoting=csv.QUOTE_ALL).writerows(zip(*rows))
+    transposed.seek(0)
+
+    return transposed
+
+
 def _checkForDuplicates(lst, varName):
     duplicates = set(x for x in lst if lst.count(x) > 1)
     if duplicates:
-- 
2.43.0


From 91ddd797b7d88f18c5091e8fb7f816fada7ba697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:22 +0000
Subject: [PATCH 087/124] fix: numeric features of a csv file starting with a
 missing value were read as text

---
 nimble/core/_createHelpers.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 2d67a28..2a419ec 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2436,18 +2436,17 @@ def _csvColTypeTracking(row, convertCols, nonNumericFeatures,
                 elif colType is bool:
                     delKeys.append(idx)
 
-    if allEmptyFeatures:
-        for idx in allEmptyFeatures:
-            if row[idx] != '':
-                delKeys.append(idx)
-
-    if delKeys:
-        for key in delKeys:
-            if key in convertCols:
-                del convertCols[key]
-                nonNumericFeatures.add(key)
-            else:
-                allEmptyFeatures.remove(key)
+    for key in delKeys:
+        del convertCols[key]
+        nonNumericFeatures.add(key)
+
+    for idx in list(allEmptyFeatures):
+        if row[idx] != '':
+            allEmptyFeatures.remove(idx)
+            colType = type(_intFloatBoolOrString(row[idx]))
+            if colType is not str:
+                convertCols[idx] = colType
+                nonNumericFeatures.remove(idx)
 
 def _colTypeConversion(row, convertCols, containsMissing):
     """
-- 
2.43.0


From bbff587202e6a778e710bb0cc65535143bac52c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:57 +0000
Subject: [PATCH 088/124] fix: names provided for a file were ignored when
 featureNames was False or the file had a single line

---
 nimble/core/_createHelpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 2a419ec..48ab978 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -175,8 +175,8 @@ def autoDetectNamesFromRaw(pointNames, featureNames, firstValues,
     """
     Determine if first row or column contains names.
     """
-    failPN = isinstance(pointNames, bool) and pointNames
-    failFN = isinstance(featureNames, bool) and featureNames
+    failPN = False if pointNames == 'automatic' else pointNames
+    failFN = False if featureNames == 'automatic' else featureNames
     if isEmptyRaw(firstValues):
         return (failPN, failFN)
     if isEmptyRaw(secondValues):
-- 
2.43.0


From da2bce95a53cdc340eea4473a22bf01539e31fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:57 +0000
Subject: [PATCH 089/124] fix: names in mtx files replaced those provided and
 were not exchanged with rowsArePoints=False

---
 nimble/core/_createHelpers.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 48ab978..de7c45d 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2298,8 +2298,13 @@ def createDataFromFile(
                 keepPoints, keepFeatures, inputSeparator, emptyIsMissing)
             selectSuccess = True
         elif extension == 'mtx':
-            loaded = _loadmtxForAuto(toLoad, pointNames, featureNames,
-                                     encoding)
+            if rowsArePoints:
+                loaded = _loadmtxForAuto(toLoad, pointNames, featureNames,
+                                         encoding)
+            else:
+                data, columnNames, rowNames = _loadmtxForAuto(
+                    toLoad, featureNames, pointNames, encoding)
+                loaded = data, rowNames, columnNames
         elif extension in ['hdf5', 'h5']: # h5 and hdf5 are synonymous
             loaded = _loadhdf5ForAuto(toLoad, pointNames, featureNames)
 
@@ -2772,6 +2777,12 @@ def _loadmtxForAuto(ioStream, pointNames, featureNames, encoding):
         extPNames = None
         extFNames = None
 
+    # the names in the comments are not used when the user provided names or
+    # did not want any
+    if pointNames is not True and pointNames != 'automatic':
+        retPNames = None
+    if featureNames is not True and featureNames != 'automatic':
+        retFNames = None
     # choose between names extracted automatically from comments
     # (retPNames) vs names extracted explicitly from the data
     # (extPNames). extPNames has priority.
-- 
2.43.0


From ff8e6ccef6a21ab41e6dd8e4601b72464f20e10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:31 +0000
Subject: [PATCH 090/124] fix: the contents of gzip compressed tar archives
 were not extracted when loading

---
 nimble/core/_createHelpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index de7c45d..4348aaa 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2265,7 +2265,8 @@ def createDataFromFile(
     with BytesIO(content) as toCheck:
         if _isGZip(toCheck):
             content = _decompressGZip(toCheck).read()
-        elif _isArchive(toCheck):
+    with BytesIO(content) as toCheck:
+        if _isArchive(toCheck):
             content = _extractFromArchive(toCheck, dataFilter).read()
 
     with BytesIO(content) as toCheck:
-- 
2.43.0


From cd82ac3044845407ade3599f579f7ac2c8204208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:34 +0000
Subject: [PATCH 091/124] fix: KNNClassifier distances of close points were
 inaccurate or NaN

---
 nimble/learners/knn_classification.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/nimble/learners/knn_classification.py b/nimble/learners/knn_classification.py
index bb4b428..6626359 100644
--- a/nimble/learners/knn_classification.py
+++ b/nimble/learners/knn_classification.py
@@ -103,10 +103,8 @@ class KNNClassifier(CustomLearner):
         trainArray = dtypeConvert(self._trainX.copy('numpy array'))
         testArray = dtypeConvert(testX.copy('numpy array'))
         # euclidean distance for each point in test
-        dists = np.sqrt(-2 * np.dot(testArray, trainArray.T)
-                           + np.sum(trainArray**2, axis=1)
-                           + np.sum(testArray**2, axis=1)[:, np.newaxis])
-        return dists
+        return np.array([np.sqrt(np.sum((trainArray - testPoint)**2, axis=1))
+                         for testPoint in testArray])
 
 
     def _kNeighborOrderedLabelsAndVotes(self, point):
-- 
2.43.0


From df167ad6315c8a20bb402219fe93877e9362fd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:34 +0000
Subject: [PATCH 092/124] fix: changing the training data after training
 changed the predictions of KNNClassifier

---
 nimble/learners/knn_classification.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nimble/learners/knn_classification.py b/nimble/learners/knn_classification.py
index 6626359..3a7e71f 100644
--- a/nimble/learners/knn_classification.py
+++ b/nimble/learners/knn_classification.py
@@ -40,8 +40,8 @@ class KNNClassifier(CustomLearner):
 
     def train(self, trainX, trainY, k=5):
         self.k = k
-        self._trainX = trainX
-        self._trainY = trainY
+        self._trainX = trainX.copy()
+        self._trainY = trainY.copy()
 
     def apply(self, testX):
         dists = self._getDistanceMatrix(testX)
-- 
2.43.0


From 585332d178620b3506f5d6c5f602380104c79aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:34 +0000
Subject: [PATCH 093/124] fix: KNNImputation applied to other data used the
 locations of the missing values in the training data

---
 nimble/learners/knn_imputation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nimble/learners/knn_imputation.py b/nimble/learners/knn_imputation.py
index 4e3d740..8980553 100644
--- a/nimble/learners/knn_imputation.py
+++ b/nimble/learners/knn_imputation.py
@@ -63,11 +63,13 @@ class KNNImputation(CustomLearner):
 
         match = _convertMatchToFunction(np.nan)
         self.match = trainX.matchingElements(match, useLog=False)
+        self._trainX = trainX.copy()
 
     def apply(self, testX):
-        testData = testX.copy()
         result = []
-        for pt, fill in zip(testData.points, self.match.points):
+        match = _convertMatchToFunction(np.nan)
+        toFill = testX.matchingElements(match, useLog=False)
+        for pt, fill in zip(testX.points, toFill.points):
             newPt = list(pt)
             if anyTrue(fill):
                 fillIdx = []
@@ -82,7 +84,7 @@ class KNNImputation(CustomLearner):
                     keepIdx.append(ftIdx)
                     cannotTrain = map(anyTrue, self.match[:, keepIdx].points)
                     trainIdx = [i for i, v in enumerate(cannotTrain) if not v]
-                    toTrain = testData[trainIdx, keepIdx]
+                    toTrain = self._trainX[trainIdx, keepIdx]
                     pred = nimble.trainAndApply(
                         self.learner, toTrain, -1, toPredict, useLog=False,
                         **self.kwargs)
-- 
2.43.0


From 2533350414393b77d893ee42d4b68661e6caada0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:34 +0000
Subject: [PATCH 094/124] fix: normalizeData failed when trainY is the
 identifier of a feature in trainX

---
 nimble/core/learn.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/nimble/core/learn.py b/nimble/core/learn.py
index 949f571..00884a1 100644
--- a/nimble/core/learn.py
+++ b/nimble/core/learn.py
@@ -495,13 +495,18 @@ def normalizeData(learnerName, trainX, trainY=None, testX=None, arguments=None,
 
     tl = train(learnerName, trainX, trainY, arguments=merged,
                randomSeed=randomSeed, useLog=False)
-    normalizedTrain = tl.apply(trainX, useLog=False)
+    toNormalize = trainX
+    if isinstance(trainY, (str, int, np.integer)):
+        # the labels are not part of the data to normalize
+        toNormalize = trainX.copy()
+        toNormalize.features.delete(trainY, useLog=False)
+    normalizedTrain = tl.apply(toNormalize, useLog=False)
 
     if normalizedTrain.getTypeString() != trainX.getTypeString():
         normalizedTrain = normalizedTrain.copy(to=trainX.getTypeString())
 
-    if len(normalizedTrain.features) == len(trainX.features):
-        trainXFtNames = trainX.features._getNamesNoGeneration()
+    if len(normalizedTrain.features) == len(toNormalize.features):
+        trainXFtNames = toNormalize.features._getNamesNoGeneration()
         normalizedTrain.features.setNames(trainXFtNames, useLog=False)
 
     # return normalized trainX when testX is not included otherwise return will
-- 
2.43.0


From 60990b0acb406e09c449535cc9ded6ee40487c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:34 +0000
Subject: [PATCH 095/124] fix: fillMatching with an object of matches was
 refused when the names or type of the objects differ

---
 nimble/core/learn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nimble/core/learn.py b/nimble/core/learn.py
index 00884a1..7975a6b 100644
--- a/nimble/core/learn.py
+++ b/nimble/core/learn.py
@@ -657,7 +657,9 @@ def fillMatching(learnerName, matchingElements, trainX, arguments=None,
             checkNans = False
     if checkNans:
         nanLocs = trainX.matchingElements(match.missing, useLog=False)
-        if matchMatrix | nanLocs != matchMatrix:
+        if any(isNan and not matches
+               for isNan, matches in zip(nanLocs.iterateElements(),
+                                         matchMatrix.iterateElements())):
             msg = "filling requires all unmatched elements to be non-nan"
             raise ImproperObjectAction(msg)
 
-- 
2.43.0


From 8e856ef2cde6b9aece27d21ae374943f0e31f53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:16 +0000
Subject: [PATCH 096/124] fix: objects with the text 'nan' and with a missing
 value were identical

---
 nimble/core/data/_dataHelpers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index 5a9d32d..e835713 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -407,9 +407,14 @@ def allDataIdentical(arr1, arr2):
     try:
         # check the values that are not equal
         checkPos = arr1 != arr2
+        unequal1, unequal2 = arr1[checkPos], arr2[checkPos]
+        # strings representing nan also convert to float dtype, but are not nan
+        if any(isinstance(val, str) for arr in (unequal1, unequal2)
+               if arr.dtype.kind not in 'biufc' for val in arr):
+            return False
         # if values are nan, conversion to float dtype will be successful
-        test1 = np.array(arr1[checkPos], dtype=np.float64)
-        test2 = np.array(arr2[checkPos], dtype=np.float64)
+        test1 = np.array(unequal1, dtype=np.float64)
+        test2 = np.array(unequal2, dtype=np.float64)
         return np.isnan(test1).all() and np.isnan(test2).all()
     except ValueError:
         return False
-- 
2.43.0


From 087f08a3712fef7aa83f75b49d3f7f9f8aece36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:02 +0000
Subject: [PATCH 097/124] fix: fillMatching with an object of matches and named
 or unordered points or features

---
 nimble/core/data/axis.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 8f47364..58b4504 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -759,13 +759,12 @@ class Axis(ABC):
 
         # if matchingElements is a boolean matrix we need to provide the
         # corresponding boolean vector for the vector passed to _transform
-        try:
-            idxOrder = iter(limitTo)
-        except TypeError:
-            if limitTo is None:
-                idxOrder = iter(range(len(self)))
-            else: # limitTo is a single identifier
-                idxOrder = iter([self._getIndex(limitTo)])
+        # the order the transform will be applied
+        if limitTo is None:
+            idxOrder = iter(range(len(self)))
+        else:
+            limitTo = constructIndicesList(self._base, self._axis, limitTo)
+            idxOrder = iter(sorted(set(limitTo)))
 
         @functools.wraps(fillFunc)
         def fillFunction(vector):
-- 
2.43.0


From f4c8cb240384909a7671d36bee819d02bb33b494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:02 +0000
Subject: [PATCH 098/124] fix: fill functions named a point as a feature when
 refusing it

---
 nimble/fill/fill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/fill/fill.py b/nimble/fill/fill.py
index b5b8a4a..e86726d 100644
--- a/nimble/fill/fill.py
+++ b/nimble/fill/fill.py
@@ -543,7 +543,7 @@ def getAxis(vector):
     """
     Helper function to determine if the vector is a point or feature.
     """
-    return 'point' if vector.points == 1 else 'feature'
+    return 'point' if len(vector.points) == 1 else 'feature'
 
 def getNameAndIndex(axis, vector):
     """
-- 
2.43.0


From 4e4e4572a0c45fb963732ea2d7fd3bcf62b9b098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:47 +0000
Subject: [PATCH 099/124] fix: match.true, match.false and the True and False
 queries missed numpy booleans

---
 nimble/match/match.py | 4 ++--
 nimble/match/query.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/nimble/match/match.py b/nimble/match/match.py
index 3175baf..da15aa7 100644
--- a/nimble/match/match.py
+++ b/nimble/match/match.py
@@ -441,7 +441,7 @@ def true(value):
     >>> true('True')
     False
     """
-    return boolean(value) and value is True
+    return boolean(value) and bool(value)
 
 def false(value):
     """
@@ -473,7 +473,7 @@ def false(value):
     >>> false('False')
     False
     """
-    return boolean(value) and value is False
+    return boolean(value) and not value
 
 def anyValues(match):
     """
diff --git a/nimble/match/query.py b/nimble/match/query.py
index 03246ef..de6116e 100644
--- a/nimble/match/query.py
+++ b/nimble/match/query.py
@@ -115,8 +115,8 @@ class QueryString:
     >
     """
     _accepted = {n: getattr(match, n) for n in _setAll(vars(match))}
-    _accepted['True'] = lambda e: e is True
-    _accepted['False'] = lambda e: e is False
+    _accepted['True'] = match.true
+    _accepted['False'] = match.false
     _accepted['None'] = lambda e: e is None
 
     def __init__(self, string, elementQuery=None):
-- 
2.43.0


From d5112849bbea3041ea9aa55770030e9c21c30365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:47 +0000
Subject: [PATCH 100/124] fix: countElements miscounted when only some values
 are numpy booleans

---
 nimble/core/data/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 9755923..3b3bdd1 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1185,7 +1185,8 @@ class Base(ABC):
             condition = QueryString(condition, elementQuery=True)
         ret = self.calculateOnElements(condition, outputType='Matrix',
                                        useLog=False)
-        return int(np.sum(ret._data))
+        # the sum of two numpy booleans with object dtype is also a boolean
+        return int(np.sum(ret._data, dtype=np.float64))
 
     @limitedTo2D
     def countUniqueElements(self, points=None, features=None):
-- 
2.43.0


From 63bbf694e96f26ed02daf78d442c638b18ecd3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:47 +0000
Subject: [PATCH 101/124] fix: transforming the boolean values of a Matrix
 converted the values not yet transformed

---
 nimble/core/data/matrix.py     | 4 +++-
 nimble/core/data/matrixAxis.py | 8 ++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index e001e55..eb7c291 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -87,8 +87,10 @@ class Matrix(Base):
     def _transform_implementation(self, toTransform, points, features):
         ids = itertools.product(range(len(self.points)),
                                 range(len(self.features)))
+        # the dtype of self._data can change with each modification
+        original = self._data
         for i, j in ids:
-            currVal = self._data[i, j]
+            currVal = original[i, j]
 
             if points is not None and i not in points:
                 continue
diff --git a/nimble/core/data/matrixAxis.py b/nimble/core/data/matrixAxis.py
index 59b472f..d45d9c1 100644
--- a/nimble/core/data/matrixAxis.py
+++ b/nimble/core/data/matrixAxis.py
@@ -178,11 +178,15 @@ class MatrixPoints(MatrixAxis, Points):
             (startData, toInsert._data, endData), 0)
 
     def _transform_implementation(self, function, limitTo):
+        # modifications can change the dtype so must occur after each function
+        transformed = []
         for i, pt in enumerate(self):
             if limitTo is not None and i not in limitTo:
                 continue
             currRet = function(pt)
             retArray = np.array(currRet, dtype=function.convertType)
+            transformed.append((i, retArray))
+        for i, retArray in transformed:
             self._convertBaseDtype(retArray.dtype)
             self._base._data[i, :] = retArray
         # if transformations applied to all data and function.convertType is
@@ -254,11 +258,15 @@ class MatrixFeatures(MatrixAxis, Features):
             (startData, toInsert._data, endData), 1)
 
     def _transform_implementation(self, function, limitTo):
+        # modifications can change the dtype so must occur after each function
+        transformed = []
         for j, f in enumerate(self):
             if limitTo is not None and j not in limitTo:
                 continue
             currRet = function(f)
             retArray = np.array(currRet, dtype=function.convertType)
+            transformed.append((j, retArray))
+        for j, retArray in transformed:
             self._convertBaseDtype(retArray.dtype)
             self._base._data[:, j] = retArray
         # if transformations applied to all data and function.convertType is
-- 
2.43.0


From a0f226a0bd98e9103f62da795cf308a6a2e7bc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:54 +0000
Subject: [PATCH 102/124] fix: element functions returning zero for 0 were not
 applied to False values

---
 nimble/core/data/_dataHelpers.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index e835713..1789f79 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -616,21 +616,22 @@ def validateElementFunction(func, preserveZeros, skipNoneReturnValues,
 
     else:
         oneArg = True
-        # see if we can preserve zeros even if not explicitly set
-        if not preserveZeros:
-            try:
-                if func(0) == 0:
-                    preserveZeros = True
-            # since it is a user function we cannot predict the exception type
-            except Exception: # pylint: disable=broad-except
-                pass
 
         @wraps(func)
         def wrappedElementFunction(value):
             return elementValidated(value)
 
+    zerosPreserved = preserveZeros
+    # see if zeros are preserved even if not explicitly set
+    if oneArg and not preserveZeros:
+        try:
+            zerosPreserved = bool(func(0) == 0)
+        # since it is a user function we cannot predict the exception type
+        except Exception: # pylint: disable=broad-except
+            pass
+
     wrappedElementFunction.oneArg = oneArg
-    wrappedElementFunction.preserveZeros = preserveZeros
+    wrappedElementFunction.preserveZeros = zerosPreserved
 
     return wrappedElementFunction
 
-- 
2.43.0


From cbda0f7b113372a708fba09e05368d587473cf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:28 +0000
Subject: [PATCH 103/124] fix: printing a range of points or features outside
 of the axis failed

---
 nimble/core/data/base.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 3b3bdd1..d56763d 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -2714,14 +2714,12 @@ class Base(ABC):
         if target.step != 1:
             msg = "range inputs for printing must have a step of 1, not "
             msg += f"{target.step}"
+            raise InvalidArgumentValue(msg)
 
-        desired = (target.start, target.stop)
-        if desired[0] < 0:
-            desired[0] = 0
-        if desired[1] > axisLength:
-            desired[1] = axisLength
+        start = min(max(target.start, 0), axisLength)
+        stop = min(max(target.stop, start), axisLength)
 
-        return range(desired[0], desired[1])
+        return range(start, stop)
 
     def _getNotebookTerminalSize(self, _):
         """
-- 
2.43.0


From 8df676bbae9f31fbd7fb790b84a86a0a56f82f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:28 +0000
Subject: [PATCH 104/124] fix: printing a single point of a range showed the
 label of the first point

---
 nimble/core/data/_dataHelpers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index 1789f79..23509a1 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -168,11 +168,13 @@ def indicesSplit(numAllow, iRange):
     growing up to negative one.
     """
     total = len(iRange)
+    if total == 0:
+        return ([], [])
     if total > numAllow:
         numAllow -= 1
 
-    if numAllow == 1 or total == 1:
-        return ([0], [])
+    if numAllow <= 1 or total == 1:
+        return ([iRange.start], [])
 
     forward = int(math.ceil(numAllow / 2.0))
     backward = int(math.floor(numAllow / 2.0))
-- 
2.43.0


From 3235a230aa2a5018f9a3722ff3bad2f225b20a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:28 +0000
Subject: [PATCH 105/124] fix: printing an empty range, or one point of an
 object, failed or did not mark the omission

---
 nimble/core/data/base.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index d56763d..affaf84 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -5739,7 +5739,7 @@ class Base(ABC):
         and process them for length. Returns a list of prepared names
         and an int bounding the length of each name representation.
         """
-        if len(self.points) == 0:
+        if len(pRange) == 0:
             return [], 0
 
         names = []
@@ -5803,7 +5803,7 @@ class Base(ABC):
         third returned value is a list of feature names matching the columns
         represented in the first return value.
         """
-        if maxHeight < 2 and maxHeight != len(self.points):
+        if maxHeight < min(2, numPts):
             msg = "If the number of points in this object is two or greater, "
             msg += "then we require that the input argument maxHeight also "
             msg += "be greater than or equal to two."
@@ -5834,19 +5834,21 @@ class Base(ABC):
         maxRows = min(maxHeight, numPts)
         maxDataRows = maxRows
 
-        if numFts == 0:
-            return [[]] * maxDataRows, [], []
-
         if numPts > 0:
             tRowIDs, bRowIDs = indicesSplit(maxDataRows, pRange)
         else:
             tRowIDs, bRowIDs = [], []
         combinedRowIDs = tRowIDs + bRowIDs
 
-        if len(combinedRowIDs) < numPts:
+        if len(combinedRowIDs) < len(pRange):
             rowHolderIndex = len(tRowIDs)
+            numTableRows = len(combinedRowIDs) + 1
         else:
             rowHolderIndex = sys.maxsize
+            numTableRows = len(combinedRowIDs)
+
+        if numFts == 0:
+            return [[] for _ in range(numTableRows)], [], []
 
         lTable, rTable = [], []
         lColWidths, rColWidths = [], []
-- 
2.43.0


From 3ac5038130fc267077ff4310d705ff3afd35f411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:28 +0000
Subject: [PATCH 106/124] fix: printing a number of features showed only the
 first ones, unmarked, or failed

---
 nimble/core/data/base.py | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index affaf84..68a0b98 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -5816,14 +5816,17 @@ class Base(ABC):
         # At the beginning of this method,features may only be a
         # range or an int
         if isinstance(features, range):
-            numFts = len(features)
-            if numFts != 0:
-                fOffset = features[0]
-            else:
-                fOffset = 0
+            ftIDs = list(features)
+            omitsFts = False
         else:
-            numFts = features
-            fOffset = 0
+            totalFts = len(self.features)
+            allowed = min(max(features, 0), totalFts)
+            numBack = allowed // 2
+            ftIDs = list(range(allowed - numBack))
+            ftIDs.extend(range(totalFts - numBack, totalFts))
+            # some features are excluded, so the placeholder is always needed
+            omitsFts = allowed < totalFts
+        numFts = len(ftIDs)
 
         #setup a bundle of default values
         if maxHeight is None:
@@ -5870,11 +5873,10 @@ class Base(ABC):
         currIndex = 0
         numAdded = 0
 
-        # due to the possibility of ranges that don't start at zero,
-        # we define the access index to be the absolute position in
-        # the object, not the numerical position relative to within
-        # the possible range.
-        accessIndex = fOffset
+        # since not all features may be displayed, we define the access index
+        # to be the absolute position in the object, not the numerical
+        # position relative to within the features to display.
+        accessIndex = ftIDs[currIndex]
 
         if self.features._allDefaultNames() or includeFeatureNames is False:
             fnames = None
@@ -5942,16 +5944,16 @@ class Base(ABC):
                 if currIndex < 0:
                     rFNames.append(currFName)
                     currIndex = abs(currIndex)
-                    accessIndex = fOffset + currIndex
                     rColWidths.append(currWidths)
                 else:
                     lFNames.append(currFName)
                     currIndex = (-1 * currIndex) - 1
-                    accessIndex = fOffset + numFts + currIndex
                     lColWidths.append(currWidths)
+                if currIndex != endIndex:
+                    accessIndex = ftIDs[currIndex]
 
             # ignore column separator if the next column is the last
-            if numAdded == (numFts - 1):
+            if numAdded == (numFts - 1) and not omitsFts:
                 totalWidth -= cHoldTotal
             totalWidth += len(colSep)
 
@@ -5960,7 +5962,8 @@ class Base(ABC):
         rColWidths.reverse()
         rFNames.reverse()
         fNames = lFNames + rFNames
-        if numAdded == numFts:
+        allShown = numAdded == numFts and not omitsFts
+        if allShown:
             lColWidths += rColWidths
         else:
             lColWidths += [cHoldWidth] + rColWidths
@@ -5975,7 +5978,7 @@ class Base(ABC):
             else:
                 toAdd = []
 
-            if numAdded == numFts:
+            if allShown:
                 lTable[rowIndex] += toAdd
             else:
                 lTable[rowIndex] += [colHold] + toAdd
-- 
2.43.0


From 5e95161b3fd1f2226abf956536f54e43a2658e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:28 +0000
Subject: [PATCH 107/124] fix: objects without points or features could not be
 represented

---
 nimble/core/data/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 68a0b98..cc36d43 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -2773,8 +2773,8 @@ class Base(ABC):
             if isinstance(lineWidthLimit, int):
                 # If we just have point indices can know how much space they'll take up
                 if not self.points.names or len(self.points.names) == None:
-                    pNamesEst = math.ceil(math.log(len(self.points), 10))
-                    columnWidthLimit = ((lineWidthLimit-pNamesEst) // len(self.features)) + 7
+                    pNamesEst = math.ceil(math.log(max(len(self.points), 1), 10))
+                    columnWidthLimit = ((lineWidthLimit-pNamesEst) // max(len(self.features), 1)) + 7
                 # For assigned names, we just let it take up another column's worth
                 else:
                     columnWidthLimit = (lineWidthLimit // (len(self.features)+1)) + 7
-- 
2.43.0


From 30ef1ef68b073d286d71603f91195478a4f534ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:28 +0000
Subject: [PATCH 108/124] fix: show ignored the lineWidthLimit given

---
 nimble/core/data/base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index cc36d43..77522ad 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -2752,10 +2752,11 @@ class Base(ABC):
         else:
             terminalSize = shutil.get_terminal_size()
 
-        if features is None and lineWidthLimit == 'automatic':
-            lineWidthLimit = max(79, terminalSize[0] - 1)
-        else:
-            lineWidthLimit = None
+        if lineWidthLimit == 'automatic':
+            if features is None:
+                lineWidthLimit = max(79, terminalSize[0] - 1)
+            else:
+                lineWidthLimit = None
 
         if lineLimit == 'automatic':
             lineLimit = max(30, terminalSize[1] - 1)
-- 
2.43.0


From 72e977b38956bf99425258535e156ee07d62f21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:09 +0000
Subject: [PATCH 109/124] fix: Sparse views of points lost the dimensions when
 a point has one element

---
 nimble/core/data/sparse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index b19d386..58dec48 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -731,7 +731,8 @@ class Sparse(Base):
         allFeats = featureStart == 0 and featureEnd == len(self.features)
         singleFeat = featureEnd - featureStart == 1
         # singleFeat = singlePoint = False
-        if singleFeat or singlePoint:
+        # high dimension data only allowed for points
+        if singlePoint or (singleFeat and len(self._dims) == 2):
             pshape = pointEnd - pointStart
             fshape = featureEnd - featureStart
 
-- 
2.43.0


From 7875c4ae35fd9b3d0a3f93f64231a19c7582d5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:09 +0000
Subject: [PATCH 110/124] fix: stretch was allowed for Sparse objects with more
 than two dimensions

---
 nimble/core/data/sparse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 58dec48..41af55d 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -42,6 +42,7 @@ from ._dataHelpers import allDataIdentical
 from ._dataHelpers import createDataNoValidation
 from ._dataHelpers import csvCommaFormat
 from ._dataHelpers import denseCountUnique
+from ._dataHelpers import limitedTo2D
 from ._dataHelpers import NimbleElementIterator
 from ._dataHelpers import convertToNumpyOrder, modifyNumpyArrayValue
 from ._dataHelpers import isValid2DObject
@@ -132,6 +133,7 @@ class Sparse(Base):
         return SparseFeatures(self, names)
 
     @property
+    @limitedTo2D
     def stretch(self):
         return StretchSparse(self)
 
-- 
2.43.0


From faae514456b6178ecd7f155829351f4d80d21bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:09 +0000
Subject: [PATCH 111/124] fix: List.containsZero only considered the first
 point for more than two dimensions

---
 nimble/core/data/list.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/nimble/core/data/list.py b/nimble/core/data/list.py
index dfac1fc..c3b021e 100644
--- a/nimble/core/data/list.py
+++ b/nimble/core/data/list.py
@@ -593,13 +593,11 @@ class List(Base):
         Returns True if there is a value that is equal to integer 0
         contained in this object. False otherwise
         """
-        for point in self.points:
-            if len(point._dims) == 2 and point._dims[0] == 1:
+        with self._treatAs2D():
+            for point in self.points:
                 for val in point:
                     if val == 0:
                         return True
-            else:
-                return point.containsZero()
         return False
 
 
-- 
2.43.0


From 1db081e73a4069b510f28b26b04158370799e997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:09 +0000
Subject: [PATCH 112/124] fix: iterating a point of an object with more than
 two dimensions failed

---
 nimble/core/data/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 77522ad..6b60d60 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -222,7 +222,7 @@ class Base(ABC):
         dimensions, Points, Features
         """
         if len(self._dims) > 2:
-            return self._dims[0], np.prod(self._dims[1:])
+            return self._dims[0], int(np.prod(self._dims[1:]))
         return self._dims[0], self._dims[1]
     
     @shape.setter
-- 
2.43.0


From 082b4572b5b65f851c8622cb2932dd643fc05615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:09 +0000
Subject: [PATCH 113/124] fix: objects of different dimensions could be
 inserted if their flattened points are of the same length

---
 nimble/core/data/axis.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 58b4504..d29d72a 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -1309,8 +1309,13 @@ class Axis(ABC):
         insertHasOffAxisNames = toInsertOffAxis._namesCreated()
         funcName = self._axis + 's.' + func
 
-        if objOffAxisLen != insertOffAxisLen:
-            if len(self._base._dims) > 2:
+        highDims = len(self._base._dims) > 2 or len(toInsert._dims) > 2
+        if highDims and self._base._dims[1:] != toInsert._dims[1:]:
+            differentDims = True
+        else:
+            differentDims = objOffAxisLen != insertOffAxisLen
+        if differentDims:
+            if highDims:
                 msg = f"Cannot perform {funcName} operation when data has "
                 msg += "different dimensions"
                 raise ImproperObjectAction(msg)
-- 
2.43.0


From 515d3a361c917bb7c3e17e631e7fbba1ceb3de37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:09 +0000
Subject: [PATCH 114/124] fix: isApproximatelyEqual and hashCode failed for
 missing values

---
 nimble/core/data/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 6b60d60..f933ccc 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -87,6 +87,8 @@ def hashCodeFunc(elementValue, pointNum, featureNum):
     """
     Generate hash code.
     """
+    if elementValue is None or elementValue != elementValue:
+        elementValue = 0.5 # missing values are all considered the same
     return ((math.sin(pointNum) + math.cos(featureNum)) / 2.0) * elementValue
 
 def isNumeric(base):
-- 
2.43.0


From 6060573055e157c48c6a83dcd9ee73fe86b1d83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:44 +0000
Subject: [PATCH 115/124] fix: float indices outside of the axis were accepted
 and negative float indices were not resolved

---
 nimble/core/data/axis.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index d29d72a..cdbd8be 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -313,6 +313,9 @@ class Axis(ABC):
             msg = "There are no valid " + self._axis + " identifiers; "
             msg += "this object has 0 " + self._axis + "s"
             raise IndexError(msg)
+        if (allowFloats and isinstance(identifier, (float, np.float64))
+                and not identifier % 1):
+            identifier = int(identifier)
         if isinstance(identifier, (int, np.integer)):
             if identifier < 0:
                 identifier = num + identifier
@@ -324,13 +327,10 @@ class Axis(ABC):
         elif isinstance(identifier, str):
             identifier = self._getIndexByName(identifier)
         elif allowFloats and isinstance(identifier, (float, np.float64)):
-            if identifier % 1: # x!=int(x)
-                idVal = str(identifier)
-                msg = "A float valued key of value x is only accepted if x == "
-                msg += "int(x). The given value was " + idVal + " yet int("
-                msg += idVal + ") = " + str(int(identifier))
-                raise KeyError(msg)
-            identifier = int(identifier)
+            # x!=int(x)
+            msg = "A float valued key of value x is only accepted if x == "
+            msg += "int(x). The given value was " + str(identifier)
+            raise KeyError(msg)
         else:
             msg = "The identifier must be either a string (a valid "
             msg += self._axis + " name) or an integer (python or numpy) index "
-- 
2.43.0


From 9fa317f74364666fbf135fe6b1bc27dd52fdd397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:44 +0000
Subject: [PATCH 116/124] fix: slices with a negative step and no start or stop
 selected nothing

---
 nimble/core/data/axis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index cdbd8be..6edadc3 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -1051,9 +1051,10 @@ class Axis(ABC):
         if isinstance(key, slice):
             if key == slice(None): # full slice
                 return None
-            start = key.start if key.start is not None else 0
-            stop = key.stop if key.stop is not None else length - 1
             step = key.step if key.step is not None else 1
+            first, last = (0, length - 1) if step > 0 else (length - 1, 0)
+            start = key.start if key.start is not None else first
+            stop = key.stop if key.stop is not None else last
 
             start = self._getIndex(start, allowFloats=True)
             stop = self._getIndex(stop, allowFloats=True)
-- 
2.43.0


From cff44f7fcb987e04696e363c8f66054da2ee591d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:44 +0000
Subject: [PATCH 117/124] fix: keys of booleans and additional other values
 were accepted

---
 nimble/core/data/axis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 6edadc3..33d9f11 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -1067,9 +1067,10 @@ class Axis(ABC):
                 stop -= 1
             return list(range(start, stop, step))
 
+        key = list(key)
         numBool = sum(isinstance(val, (bool, np.bool_)) for val in key)
         # contains all boolean values
-        if numBool == length:
+        if numBool == length == len(key):
             return [i for i, v in enumerate(key) if v]
         if numBool > 0:
             msg = f'The key provided for {self._axis}s contains boolean '
-- 
2.43.0


From 7ca25d8f9149a3c2f76aef0b0b64d7a1271214dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:44 +0000
Subject: [PATCH 118/124] fix: point names of sparse data including 0 were
 refused if feature names were also extracted

---
 nimble/core/_createHelpers.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 4348aaa..b4620c3 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -407,23 +407,19 @@ def extractNamesFromScipySparse(data, pnamesID, fnamesID, copied):
         names = newData[nameCol]
         idxNameMap = dict(zip( map(int, index), map(str, names)))
         # retPNames = dict(zip(map(str, names), map(int, index)))
-        if fnamesID is not True and len(idxNameMap) < numPts:
+        # the first row does not hold a name when extracting feature names
+        offset = 1 if fnamesID is True else 0
+        if offset:
+            idxNameMap.pop(0, None)
+        if len(idxNameMap) < numPts - offset:
             # 0 is one of the names, need to find missing index:
-            missing = set(range(numPts)) - idxNameMap.keys()
+            missing = set(range(offset, numPts)) - idxNameMap.keys()
             if len(missing) > 1:
                 msg = 'pointNames must be unique. Found multiple zero values '
                 msg += 'in column containing pointNames'
                 raise InvalidArgumentValue(msg)
-            retPNames = {v:k for k, v in idxNameMap.items()}
-            retPNames['0'] = missing.pop()
-        elif fnamesID is True:
-            if 0 in idxNameMap:
-                del idxNameMap[0]
-            retPNames = {}
-            for key, val in idxNameMap.items():
-                retPNames[val] = key - 1
-        else:
-            retPNames = {v:k for k, v in idxNameMap.items()}
+            idxNameMap[missing.pop()] = '0'
+        retPNames = {v: k - offset for k, v in idxNameMap.items()}
 
         numFts -= 1
         newData = newData[~nameCol]
-- 
2.43.0


From e61c9f22e591927273170d153c48e9d65d55ca5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:44 +0000
Subject: [PATCH 119/124] fix: splitting by a list of separators kept all but
 the first character of a separator

---
 nimble/core/data/features.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nimble/core/data/features.py b/nimble/core/data/features.py
index f92bbf3..a8f2d9f 100644
--- a/nimble/core/data/features.py
+++ b/nimble/core/data/features.py
@@ -2164,10 +2164,10 @@ class Features(ABC):
                         split.append(value[startIdx:].split(item)[0])
                         # find index of value from startIdx on, o.w. will only
                         # ever return first instance. Add len of previous
-                        # values to get actual index and add one to bypass this
-                        # item in next iteration
+                        # values to get actual index and add len of this
+                        # item to bypass it in next iteration
                         startIdx = (value[startIdx:].index(item) +
-                                    len(value[:startIdx]) + 1)
+                                    len(value[:startIdx]) + len(item))
                     elif isinstance(item, (int, np.integer)):
                         split.append(value[startIdx:item])
                         startIdx = item
-- 
2.43.0


From 29f1a60ed7dc73256e62d307faa8114cfcaf7be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:44 +0000
Subject: [PATCH 120/124] fix: groupByFeature failed if a value in the feature
 is infinite

---
 nimble/core/data/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index f933ccc..0e143e7 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1395,6 +1395,8 @@ class Base(ABC):
                     if "NaN" not in groupFts.iterateElements():
                         return "NaN"
                     return 'numpy.nan'
+                if val in (float('inf'), float('-inf')):
+                    return val
                 iVal = int(val)
                 return iVal if iVal == val else val
             return val
-- 
2.43.0


From 8df8e088c643e2208d28f8b8a4717ce998c32a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:16 +0000
Subject: [PATCH 121/124] fix: duplicate names extracted from sparse data were
 dropped instead of refused

---
 nimble/core/_createHelpers.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index b4620c3..e5249a9 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -419,7 +419,7 @@ def extractNamesFromScipySparse(data, pnamesID, fnamesID, copied):
                 msg += 'in column containing pointNames'
                 raise InvalidArgumentValue(msg)
             idxNameMap[missing.pop()] = '0'
-        retPNames = {v: k - offset for k, v in idxNameMap.items()}
+        retPNames = [idxNameMap[i] for i in range(offset, numPts)]
 
         numFts -= 1
         newData = newData[~nameCol]
@@ -430,15 +430,16 @@ def extractNamesFromScipySparse(data, pnamesID, fnamesID, copied):
         nameRow = newRow == 0
         index = newCol[nameRow]
         names = newData[nameRow]
-        retFNames = dict(zip(map(str, names), map(int, index)))
-        if len(retFNames) < numFts:
+        idxNameMap = dict(zip(map(int, index), map(str, names)))
+        if len(idxNameMap) < numFts:
             # 0 is one of the names, need to find missing index:
-            missing = set(range(numFts)) - set(retFNames.values())
+            missing = set(range(numFts)) - idxNameMap.keys()
             if len(missing) > 1:
                 msg = 'featureNames must be unique. Found multiple zero '
                 msg += 'values in column containing featureNames'
                 raise InvalidArgumentValue(msg)
-            retFNames['0'] = missing.pop()
+            idxNameMap[missing.pop()] = '0'
+        retFNames = [idxNameMap[i] for i in range(numFts)]
         numPts -= 1
         newData = newData[~nameRow]
         newRow = newRow[~nameRow] - 1
-- 
2.43.0


From 02099f248cf93129685483ef5c8b7e8f3223cfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:15 +0000
Subject: [PATCH 122/124] fix: files of urls with parent segments were stored
 outside of nimbleData

---
 nimble/core/_createHelpers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index e5249a9..882d7a9 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -25,6 +25,7 @@ functions are contained in create.py without the distraction of helpers.
 import csv
 from io import StringIO, BytesIO
 import os
+import posixpath
 import copy
 import warnings
 import datetime
@@ -1953,7 +1954,9 @@ def _getNimbleDataPath(source):
     netLoc = urlInfo.netloc
     if netLoc.startswith('www.'):
         netLoc = netLoc[4:]
-    directory = os.path.join(*urlInfo.path.split('/'))
+    # remove any parent segments, the path must be in the nimbleData directory
+    urlPath = posixpath.normpath('/' + urlInfo.path)
+    directory = os.path.join(*urlPath.split('/'))
     localPath = os.path.join(homepath, netLoc, directory)
 
     return localPath
-- 
2.43.0


From b0d92a02e299330a5e36c16b7fece9659281e2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:15 +0000
Subject: [PATCH 123/124] fix: data of urls differing only in the query were
 taken for each other when fetching

---
 nimble/core/_createHelpers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 882d7a9..8f9c178 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -26,6 +26,7 @@ import csv
 from io import StringIO, BytesIO
 import os
 import posixpath
+import hashlib
 import copy
 import warnings
 import datetime
@@ -1958,6 +1959,11 @@ def _getNimbleDataPath(source):
     urlPath = posixpath.normpath('/' + urlInfo.path)
     directory = os.path.join(*urlPath.split('/'))
     localPath = os.path.join(homepath, netLoc, directory)
+    if urlInfo.query:
+        query = urllib.parse.quote('?' + urlInfo.query, safe='=&')
+        if len(query) > 100: # file names are limited in length
+            query = hashlib.sha256(query.encode()).hexdigest()
+        localPath += query
 
     return localPath
 
-- 
2.43.0


From 12fc867302f2feec6ef48494d5de4213b46d2753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:15 +0000
Subject: [PATCH 124/124] fix: interrupted downloads, archives sharing file
 names, compressed tar files and gzip files without extension gave wrong data
 when fetching

---
 nimble/core/_createHelpers.py | 144 +++++++++++++++++++++-------------
 1 file changed, 91 insertions(+), 53 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 8f9c178..8ef2e34 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1826,49 +1826,109 @@ def _isGZip(filename):
     with open(filename, 'rb') as f:
         return f.read(2) == b'\x1f\x8b'
 
-def _processArchiveFile(filename, extract):
+def _writeFile(path, content):
+    """
+    Write the content of a file object to the path.
+
+    A temporary file is used so there is never an incomplete file at the
+    path, even if writing is interrupted.
+    """
+    os.makedirs(os.path.dirname(path), exist_ok=True)
+    partial = f'{path}.{os.getpid()}.part'
+    try:
+        with open(partial, 'wb') as fOut:
+            shutil.copyfileobj(content, fOut)
+        os.replace(partial, path)
+    finally:
+        if os.path.exists(partial):
+            os.remove(partial)
+
+def _sameContent(path, content):
+    """
+    Whether the file at the path holds the content of the file object.
+    """
+    if not os.path.isfile(path):
+        return False
+    size = 2 ** 16
+    with open(path, 'rb') as existing:
+        while True:
+            block = content.read(size)
+            if existing.read(len(block) if block else size) != block:
+                return False
+            if not block:
+                return True
+
+def _processArchiveFile(filename):
     """
     Extract contents of an archive file.
 
     Return a list of paths to the extracted files.
     """
     if zipfile.is_zipfile(filename):
-        archiveObj = zipfile.ZipFile
-        nameGetter = 'namelist'
+        archiveOpen = zipfile.ZipFile
     else:
-        archiveObj = tarfile.TarFile
-        nameGetter = 'getnames'
-    with archiveObj(filename, 'r') as fileObj:
-        names = getattr(fileObj, nameGetter)()
-        if any(os.path.isabs(name) or '..' in name for name in names):
+        archiveOpen = tarfile.open
+    with archiveOpen(filename, 'r') as fileObj:
+        if archiveOpen is zipfile.ZipFile:
+            names = fileObj.namelist()
+            members = [m for m in names if not m.endswith('/')]
+            getContent = fileObj.open
+        else:
+            names = fileObj.getnames()
+            # linked content is extracted from the archive
+            members = [m.name for m in fileObj.getmembers()
+                       if m.isfile() or m.islnk() or m.issym()]
+            getContent = fileObj.extractfile
+        location = os.path.dirname(filename)
+        paths = [os.path.join(location, name) for name in members]
+        if (any(os.path.isabs(name) or '..' in name for name in names)
+                or filename in map(os.path.normpath, paths)):
             # potential security risk will not perform extraction
             return [filename]
 
-        location = os.path.dirname(filename)
-        paths = [os.path.join(location, name) for name in names]
-        # only need to extract if overwrite or any expected files don't exist
-        if extract or not all(os.path.exists(path) for path in paths):
-            fileObj.extractall(location)
-
         files = []
-        for path in paths:
-            if os.path.isfile(path):
-                files.append(path)
+        for name, path in zip(members, paths):
+            content = getContent(name)
+            if content is None: # link to a directory
+                continue
+            # only need to extract if the expected file isn't there already
+            with content:
+                isExtracted = _sameContent(path, content)
+            if not isExtracted:
+                with getContent(name) as content:
+                    _writeFile(path, content)
+            files.append(path)
 
         return files
 
-def _processCompressedFile(filename):
+def _processCompressedFile(filename, extract):
     """
     Decompress a gzip file.
     """
-    with gzip.open(filename, 'rb') as fIn:
-        if filename.endswith('.gz'):
-            unzipped = filename[:-3]
-        else:
-            unzipped = filename
-        with open(unzipped, 'wb') as fOut:
-            shutil.copyfileobj(fIn, fOut)
-        return [unzipped]
+    if filename.endswith('.gz'):
+        unzipped = filename[:-3]
+    else:
+        unzipped = filename
+    # only need to decompress if overwrite or expected file doesn't exist
+    if extract or unzipped == filename or not os.path.exists(unzipped):
+        with gzip.open(filename, 'rb') as fIn:
+            _writeFile(unzipped, fIn)
+    return [unzipped]
+
+def _processFetchedFile(filename, extract):
+    """
+    Extract the contents of the file, if possible.
+
+    Return a list of paths to the available files.
+    """
+    try:
+        if _isArchive(filename):
+            return _processArchiveFile(filename)
+        if _isGZip(filename):
+            return _processCompressedFile(filename, extract)
+    except Exception: # pylint: disable=broad-except
+        pass # return the archive file on failure
+    return [filename]
 
 def _processUCISource(source):
     """
@@ -1996,17 +2056,7 @@ class _DirectURLManager:
                 # need to use _IndirectURLManager
                 msg = 'source does not provide downloadable data'
                 raise InvalidArgumentValue(msg)
-            if _isArchive(self.path):
-                self.local = _processArchiveFile(self.path, False)
-            else:
-                isGZip = _isGZip(self.path)
-                if isGZip and os.path.exists(self.path[:-3]):
-                    # already decompressed gzip file
-                    self.local = [self.path[:-3]]
-                elif isGZip:
-                    self.local = _processCompressedFile(self.path)
-                else:
-                    self.local = [self.path]
+            self.local = _processFetchedFile(self.path, False)
         else:
             self.local = None
         if self.local is None and not _isDownloadable(self.source):
@@ -2024,24 +2074,12 @@ class _DirectURLManager:
 
         response = _getURLResponse(self.source)
 
-        directory = os.path.split(self.path)[0]
-        if not os.path.exists(directory):
-            os.makedirs(directory)
+        with BytesIO(response.content) as content:
+            _writeFile(self.path, content)
 
-        with open(self.path, 'w+b') as f:
-            f.write(response.content)
+        self.local = _processFetchedFile(self.path, True)
 
-        self.local = self.path
-
-        try:
-            if _isArchive(self.path):
-                return _processArchiveFile(self.path, overwrite)
-            if _isGZip(self.path):
-                return _processCompressedFile(self.path)
-        except Exception: # pylint: disable=broad-except
-            pass # return the archive file on failure
-
-        return [self.path]
+        return self.local
 
 class _IndirectURLManager:
     """
-- 
2.43.0

