From 5aa1c0b9ce2c33b32ed47e087ab3c8f3d2e3aa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 01/28] fix: always trace rays through a MatrixGroup instead of
 returning a stale trace

MatrixGroup.trace() returned the previous trace whenever the ray had the same
height and angle as the last one, ignoring its position, its blocked state and
any change of the elements or of their apertures in between. Threads sharing
the group could also get each other's trace.
---
 raytracing/matrixgroup.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 86c2323..4746c18 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -29,9 +29,7 @@ class MatrixGroup(Matrix):
             for element in elements:
                 self.append(element)
 
-        # Solely for performance reason: it is common to raytrace
-        # groups of rays that are similar (to mimick intensities)
-        # We keep the last ray and the last ray trace for optimization
+        # For information only: the last ray traced and its trace
         self._lastRayToBeTraced = None
         self._lastRayTrace = None
 
@@ -429,17 +427,17 @@ class MatrixGroup(Matrix):
         """
         if not isinstance(inputRay, (Ray, GaussianBeam)):
             raise TypeError("'inputRay' must be a Ray or a GaussianBeam {0}".format(inputRay))
+        # The trace is always calculated: two rays that are equal (same height and
+        # angle) can still differ by their position or by being blocked, and the
+        # elements may have changed since the last trace.
         ray = inputRay
-        if ray != self._lastRayToBeTraced:
-            rayTrace = [ray]
-            for element in self.elements:
-                rayTraceInElement = element.trace(ray)
-                rayTrace.extend(rayTraceInElement)
-                ray = rayTraceInElement[-1]  # last
-            self._lastRayToBeTraced = inputRay
-            self._lastRayTrace = rayTrace
-        else:
-            rayTrace = self._lastRayTrace
+        rayTrace = [ray]
+        for element in self.elements:
+            rayTraceInElement = element.trace(ray)
+            rayTrace.extend(rayTraceInElement)
+            ray = rayTraceInElement[-1]  # last
+        self._lastRayToBeTraced = inputRay
+        self._lastRayTrace = rayTrace
 
         return rayTrace
 
-- 
2.43.0


From ba164bc0df9119d6fc3ea9541e2736473f1b80a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 02/28] fix: tracing does not mark the caller's ray as blocked
 nor deviate blocked rays

Matrix.trace() set isBlocked on the ray it was given, and Axicon.mul_ray()
changed the angle of the input ray when that ray was already blocked.
---
 raytracing/axicon.py | 2 ++
 raytracing/matrix.py | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/raytracing/axicon.py b/raytracing/axicon.py
index bd6a5d2..ae56c35 100644
--- a/raytracing/axicon.py
+++ b/raytracing/axicon.py
@@ -98,6 +98,8 @@ class Axicon(Matrix):
         """
 
         outputRay = super(Axicon, self).mul_ray(rightSideRay)
+        if rightSideRay.isBlocked:
+            return outputRay  # This is the input ray itself: it is not deviated
 
         if rightSideRay.y > 0:
             outputRay.theta += -self.deviationAngle()
diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 5656b6a..9d5bf94 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -5,6 +5,7 @@ from .interface import *
 from .utils import *
 
 from typing import List
+import copy
 import multiprocessing
 import sys
 import math
@@ -657,7 +658,8 @@ class Matrix(object):
         rayTrace = []
         if isinstance(ray, Ray):
             if self.L > 0:
-                if abs(ray.y) > self.apertureDiameter/2:
+                if abs(ray.y) > self.apertureDiameter/2 and ray.isNotBlocked:
+                    ray = copy.copy(ray)  # The ray belongs to the caller: do not modify it
                     ray.isBlocked = True
                 rayTrace.append(ray)
 
-- 
2.43.0


From b473d796eec390d98737236004e5fb9e6932a528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 03/28] fix: parallel tracing survives one-shot ray sources and
 dying workers

When multiprocessing failed, traceManyThroughInParallel() traced the source a
second time: with a generator, all rays already read were lost. And a worker
process killed half-way made Pool.starmap() wait forever.
---
 raytracing/matrix.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 9d5bf94..6d5f3fe 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -838,7 +838,7 @@ class Matrix(object):
         several other parallel processes using the `multiprocessing` module,
         which is os-independent.
 
-        Everything hinges on a simple pool.map() command that will apply 
+        Everything hinges on a simple map() command that will apply 
         the provided function to every element of the array, but across several
         processors. It is trivial to implement and the benefits are simple:
         if you create 8 processes on 8 CPU cores, you gain a factor of 
@@ -870,15 +870,22 @@ class Matrix(object):
         the array in #processes different lists.
         """
 
+        # The rays may come from a source that can only be read once: this list is
+        # also what we trace if multiprocessing fails.
+        theExplicitList = list(inputRays)
+
         try:
+            # Contrary to multiprocessing.Pool, this executor notices when a worker
+            # process dies: it raises instead of waiting forever for its answer.
+            from concurrent.futures import ProcessPoolExecutor
+
             if processes is None:
                 processes = multiprocessing.cpu_count()
 
-            theExplicitList = list(inputRays)
-            manyInputRays = [(theExplicitList[i::processes], progress) for i in range(processes)]
+            manyInputRays = [theExplicitList[i::processes] for i in range(processes)]
 
-            with multiprocessing.Pool(processes=processes) as pool:
-                outputRays = pool.starmap(self.traceManyThrough, manyInputRays)
+            with ProcessPoolExecutor(max_workers=processes) as pool:
+                outputRays = list(pool.map(self.traceManyThrough, manyInputRays, [progress]*processes))
 
             outputRaysList = []
             for rays in outputRays:
@@ -887,7 +894,7 @@ class Matrix(object):
             return Rays(rays=outputRaysList)
         except Exception as err:
             warnings.warn("Multiprocessing failed with: '{0}'. Falling back to slower code.".format(err), ExpertNote)
-            return self.traceManyThrough(inputRays=inputRays, progress=progress)
+            return self.traceManyThrough(inputRays=theExplicitList, progress=progress)
 
     def profileFromRayTraces(self, rayTraces, z=float("+inf")):
         outputRays = Rays()
-- 
2.43.0


From fca1ba78f6db3e7b0a5dd868e3d4c9aacbe2fadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:26 +0000
Subject: [PATCH 04/28] fix: edits of a MatrixGroup are all-or-nothing and
 always update its matrix

---
 raytracing/lasercavity.py |   4 +-
 raytracing/matrixgroup.py | 133 ++++++++++++++++++++++++--------------
 2 files changed, 84 insertions(+), 53 deletions(-)

diff --git a/raytracing/lasercavity.py b/raytracing/lasercavity.py
index 1b134cb..3ea3625 100644
--- a/raytracing/lasercavity.py
+++ b/raytracing/lasercavity.py
@@ -54,9 +54,7 @@ class LaserCavity(LaserPath):
         else:
             forwardElements = self.elements[firstElement:]
             
-        for element in reversed(forwardElements):
-            self.elements.append(element)
-
+        self._replaceElements(self.elements + forwardElements[::-1], firstNewElement=len(self.elements))
 
     def eigenModes(self):
         """
diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 4746c18..49d79c6 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -61,23 +61,41 @@ class MatrixGroup(Matrix):
          f=10.000
 
          """
-        lastElement = None
         if not isinstance(matrix, Matrix):
             raise TypeError("'matrix' must be a Matrix instance.")
 
-        if len(self.elements) != 0:
-            lastElement = self.elements[-1]
-            if lastElement.backIndex != matrix.frontIndex:
-                if isinstance(matrix, Space):  
-                    # For Space(), we fix it
-                    matrix.frontIndex = lastElement.backIndex
-                    matrix.backIndex = matrix.frontIndex
-                else:
-                    msg = "Mismatch of indices between last element and appended element"
-                    raise ValueError(msg)
-
-        self.elements.append(matrix)
-        transferMatrix = self.transferMatrix()
+        self._replaceElements(self.elements + [matrix], firstNewElement=len(self.elements))
+
+    def _replaceElements(self, elements, firstNewElement=0):
+        """ Replaces the elements of the group by those of the list `elements` in a
+        single step: the indices of refraction of neighbours are checked starting
+        from `firstNewElement` and the matrix of the group is updated. If anything
+        fails, the group and the elements are left exactly as they were. """
+
+        previousElements = self.elements[:]
+        previousIndices = [(element, element.frontIndex, element.backIndex) for element in elements]
+
+        try:
+            for i in range(max(firstNewElement, 1), len(elements)):
+                lastElement, element = elements[i - 1], elements[i]
+                if lastElement.backIndex != element.frontIndex:
+                    if isinstance(element, Space):
+                        # For Space(), we fix it
+                        element.frontIndex = lastElement.backIndex
+                        element.backIndex = element.frontIndex
+                    else:
+                        msg = "Mismatch of indices between last element and appended element"
+                        raise ValueError(msg)
+
+            self.elements[:] = elements
+            transferMatrix = self.transferMatrix()
+        except BaseException:
+            self.elements[:] = previousElements
+            for element, frontIndex, backIndex in previousIndices:
+                element.frontIndex = frontIndex
+                element.backIndex = backIndex
+            raise
+
         self.A = transferMatrix.A
         self.B = transferMatrix.B
         self.C = transferMatrix.C
@@ -88,6 +106,14 @@ class MatrixGroup(Matrix):
         self.frontIndex = transferMatrix.frontIndex
         self.backIndex = transferMatrix.backIndex
 
+    @staticmethod
+    def _listOfElements(element):
+        """ The list of matrices of `element`: a single matrix, a group or any iterable of matrices. """
+        elements = list(element) if isinstance(element, collections.Iterable) else [element]
+        for matrix in elements:
+            if not isinstance(matrix, Matrix):
+                raise TypeError("'matrix' must be a Matrix instance.")
+        return elements
 
     def __len__(self):
         """
@@ -167,11 +193,9 @@ class MatrixGroup(Matrix):
         >>> print(f"Has finite diameter? {system.hasFiniteApertureDiameter()}")
         Has finite diameter? False
         """
-        poppedElement = self.elements.pop(index)  # We pop the matrix in the list
-        tempElements = self.elements[:]  # We "copy" the list
-        self.elements.clear()  # We clear the attribute
-        for element in tempElements:
-            self.append(element)  # We rebuild the attribute (check indices, compute ABCD, etc)
+        elements = self.elements[:]  # We "copy" the list
+        poppedElement = elements.pop(index)  # We pop the matrix in the list
+        self._replaceElements(elements)  # We rebuild the attribute (check indices, compute ABCD, etc)
         return poppedElement
 
     def insert(self, index: int, element: Matrix):
@@ -211,15 +235,8 @@ class MatrixGroup(Matrix):
         --------
         raytracing.MatrixGroup.append
         """
-        if not isinstance(element, collections.Iterable):
-            element = MatrixGroup([element])
-        else:
-            element = MatrixGroup(element)
-        self.elements = self.elements[:index] + element.elements + self.elements[index:]
-        tempElements = self.elements[:]
-        self.elements.clear()
-        for matrix in tempElements:
-            self.append(matrix)
+        newElements = self._listOfElements(element)
+        self._replaceElements(self.elements[:index] + newElements + self.elements[index:])
 
     def __setitem__(self, key, element: Matrix):
         """ This function is used to substitute a single matrix 
@@ -258,15 +275,14 @@ class MatrixGroup(Matrix):
         if isinstance(key, slice):
             if key.step is not None and key.step != 1:
                 warnings.warn("Not using the step of the slice.", UserWarning)
-            if key.start is None:
-                key = slice(0, key.stop)
-            if key.stop is None:
-                key = slice(key.start, len(self))
-            self.elements = self.elements[:key.start] + self.elements[key.stop:]  # "Cut" the original list
-            self.insert(key.start, element)
+            start, stop, _ = slice(key.start, key.stop).indices(len(self))
+            stop = max(start, stop)
         else:
-            self.pop(key)
-            self.insert(key, element)
+            start = range(len(self))[key]  # Negative or invalid positions, as in a list
+            stop = start + 1
+
+        newElements = self._listOfElements(element)
+        self._replaceElements(self.elements[:start] + newElements + self.elements[stop:])
 
     def transferMatrix(self, upTo=float('+Inf')):
         r""" The transfer matrix between front edge and distance=upTo
@@ -468,18 +484,37 @@ class MatrixGroup(Matrix):
     def flipOrientation(self):
         """ Flip the orientation (forward-backward) of this group of elements.
         Each element is also flipped individually. """
-        self.isFlipped = not self.isFlipped
+        state = self._stateOfElements()
+        try:
+            flippedElements = []
+            for element in reversed(self.elements):
+                if not any(element is flippedElement for flippedElement in flippedElements):
+                    element.flipOrientation()
+                flippedElements.append(element)
+
+            self._replaceElements(flippedElements)
+        except BaseException:
+            for element, attributes, elements in state:
+                element.__dict__.update(attributes)
+                if elements is not None:
+                    element.elements[:] = elements
+            raise
 
-        allElements = self.elements
-        allElements.reverse()
-        self.elements = []
-
-        for element in allElements:
-            element.flipOrientation()
-            self.append(element)
+        self.isFlipped = not self.isFlipped
 
         return self
 
+    def _stateOfElements(self):
+        """ The current state of all elements, those in groups within the group included,
+        as a list of (element, attributes, sub-elements). """
+        state = [(self, dict(self.__dict__), self.elements[:])]
+        for element in self.elements:
+            if isinstance(element, MatrixGroup):
+                state.extend(element._stateOfElements())
+            else:
+                state.append((element, dict(element.__dict__), None))
+        return state
+
     def __iter__(self):
         self.iteration = 0
         return self
@@ -546,10 +581,8 @@ class MatrixGroup(Matrix):
                 raise IOError(f"{filePath} does not contain an iterable of Matrix objects.")
             if not all([isinstance(matrix, Matrix) for matrix in loadedMatrices]):
                 raise IOError(f"{filePath} must contain only Matrix objects.")
-            if append and self.elements is not None:
-                for element in loadedMatrices:
-                    self.append(element)
+            loadedMatrices = list(loadedMatrices)
+            if append:
+                self._replaceElements(self.elements + loadedMatrices, firstNewElement=len(self.elements))
             else:
-                self.elements = []
-                for element in loadedMatrices:
-                    self.append(element)
+                self._replaceElements(loadedMatrices)
-- 
2.43.0


From 981892c71885b6ea7694cf0c87c40f3e6436bf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 05/28] fix: ray collections always describe the rays they
 hold, and can be iterated several times at once

---
 raytracing/matrixgroup.py |  3 +-
 raytracing/rays.py        | 96 +++++++++++++++++++++++++--------------
 2 files changed, 65 insertions(+), 34 deletions(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 49d79c6..47ca586 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -516,8 +516,9 @@ class MatrixGroup(Matrix):
         return state
 
     def __iter__(self):
+        # Each iteration keeps its own position, so several can be under way at once.
         self.iteration = 0
-        return self
+        return iter(self.elements)
 
     def __next__(self):
         if self.elements is None:
diff --git a/raytracing/rays.py b/raytracing/rays.py
index 16396cf..f2a6f6a 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -64,8 +64,9 @@ class Rays:
             self._rays = []
         else:
             if isinstance(rays, collections.Iterable):
+                rays = list(rays)  # The iterable may be usable only once
                 if all([isinstance(ray, Ray) for ray in rays]):
-                    self._rays = list(rays)
+                    self._rays = rays
                 else:
                     raise TypeError("'rays' elements must be of type Ray.")
             else:
@@ -78,6 +79,9 @@ class Rays:
         self.label = None
 
         # We cache these because they can be lengthy to calculate
+        self._invalidateCachedValues()
+
+    def _invalidateCachedValues(self):
         self._yValues = None
         self._thetaValues = None
         self._yHistogram = None
@@ -116,7 +120,7 @@ class Rays:
         if self._yValues is None:
             self._yValues = list(map(lambda x: x.y, self))
 
-        return self._yValues
+        return list(self._yValues)
 
     @property
     def thetaValues(self):
@@ -126,7 +130,7 @@ class Rays:
         if self._thetaValues is None:
             self._thetaValues = list(map(lambda x: x.theta, self))
 
-        return self._thetaValues
+        return list(self._thetaValues)
 
     def rayCountHistogram(self, binCount=None, minValue=None, maxValue=None):
 
@@ -191,18 +195,20 @@ class Rays:
             maxValue = max(self.yValues)
 
         if self._countHistogramParameters != (binCount, minValue, maxValue):
-            self._countHistogramParameters = (binCount, minValue, maxValue)
-
-            (self._yHistogram, binEdges) = np.histogram(self.yValues,
-                                                     bins=binCount,
-                                                     range=(minValue, maxValue))
-            self._yHistogram = list(self._yHistogram)
+            (yHistogram, binEdges) = np.histogram(self.yValues,
+                                                  bins=binCount,
+                                                  range=(minValue, maxValue))
             xValues = []
             for i in range(len(binEdges) - 1):
                 xValues.append((binEdges[i] + binEdges[i + 1]) / 2)
+
+            # We only remember the parameters once we have the histogram
+            self._countHistogramParameters = None
+            self._yHistogram = list(yHistogram)
             self._xValuesCountHistogram = xValues
+            self._countHistogramParameters = (binCount, minValue, maxValue)
 
-        return (self._xValuesCountHistogram, self._yHistogram)
+        return (list(self._xValuesCountHistogram), list(self._yHistogram))
 
     def rayAnglesHistogram(self, binCount=None, minValue=None, maxValue=None):
 
@@ -271,16 +277,18 @@ class Rays:
             maxValue = max(self.thetaValues)
 
         if self._anglesHistogramParameters != (binCount, minValue, maxValue):
-            self._anglesHistogramParameters = (binCount, minValue, maxValue)
-
-            (self._thetaHistogram, binEdges) = np.histogram(self.thetaValues, bins=binCount, range=(minValue, maxValue))
-            self._thetaHistogram = list(self._thetaHistogram)
+            (thetaHistogram, binEdges) = np.histogram(self.thetaValues, bins=binCount, range=(minValue, maxValue))
             xValues = []
             for i in range(len(binEdges) - 1):
                 xValues.append((binEdges[i] + binEdges[i + 1]) / 2)
+
+            # We only remember the parameters once we have the histogram
+            self._anglesHistogramParameters = None
+            self._thetaHistogram = list(thetaHistogram)
             self._xValuesAnglesHistogram = xValues
+            self._anglesHistogramParameters = (binCount, minValue, maxValue)
 
-        return (self._xValuesAnglesHistogram, self._thetaHistogram)
+        return (list(self._xValuesAnglesHistogram), list(self._thetaHistogram))
 
     def display(self, title="Intensity profile", showTheta=True):  # pragma: no cover
         """This function plots the intensity profiles of a list of rays.
@@ -359,7 +367,7 @@ class Rays:
     def __iter__(self):
         self.iteration = 0
         self.progressLog = 10000
-        return self
+        return _RaysIterator(self)
 
     def __next__(self) -> Ray:
         if self._rays is None:
@@ -389,18 +397,7 @@ class Rays:
         if self._rays is not None:
             self._rays.append(ray)
 
-        # Invalidate cached values
-        self._yValues = None
-        self._thetaValues = None
-        self._yHistogram = None
-        self._thetaHistogram = None
-        self._directionBinEdges = None
-
-        self._countHistogramParameters = None
-        self._xValuesCountHistogram = None
-
-        self._anglesHistogramParameters = None
-        self._xValuesAnglesHistogram = None
+        self._invalidateCachedValues()
 
     def load(self, filePath, append=False):
 
@@ -419,6 +416,7 @@ class Rays:
             loadedRays = pickle.Unpickler(infile).load()
             if not isinstance(loadedRays, collections.Iterable):
                 raise IOError(f"{filePath} does not contain an iterable of Ray objects.")
+            loadedRays = list(loadedRays)
             if not all([isinstance(ray, Ray) for ray in loadedRays]):
                 raise IOError(f"{filePath} must contain only Ray objects.")
             if append and self._rays is not None:
@@ -426,6 +424,8 @@ class Rays:
             else:
                 self._rays = loadedRays
 
+            self._invalidateCachedValues()
+
     def save(self, filePath):
 
         """ A list of rays can be saved using this function.
@@ -467,6 +467,28 @@ class Rays:
     # and https://stackoverflow.com/questions/3122049/drawing-an-anti-aliased-line-with-thepython-imaging-library
 
 
+class _RaysIterator:
+    """ An iteration over `Rays`: each iteration keeps its own position, so several
+    can be under way at once. The last position reached is also kept in
+    `rays.iteration` to display the progress. """
+
+    def __init__(self, rays):
+        self._rays = rays
+        self._position = 0
+
+    def __iter__(self):
+        return self
+
+    def __next__(self) -> Ray:
+        if self._position >= len(self._rays):
+            raise StopIteration
+
+        ray = self._rays[self._position]
+        self._position += 1
+        self._rays.iteration = self._position
+        return ray
+
+
 class UniformRays(Rays):
     """A list of rays with uniform distribution.
 
@@ -633,15 +655,16 @@ class RandomRays(Rays):
         super(RandomRays, self).__init__()
 
     def __len__(self) -> int:
-        return self.maxCount
+        # More rays than maxCount can have been appended
+        return max(self.maxCount, len(self._rays))
 
     def __getitem__(self, item):
         if item < 0:
             # Convert negative index to positive (i.e. -1 == len - 1)
-            item += self.maxCount
+            item += len(self)
 
-        if item < 0 or item >= self.maxCount:
-            raise IndexError(f"Index {item} out of bound, min = 0, max {self.maxCount}.")
+        if item < 0 or item >= len(self):
+            raise IndexError(f"Index {item} out of bound, min = 0, max {len(self)}.")
 
         start = time.monotonic()
         while len(self._rays) <= item:
@@ -652,13 +675,20 @@ class RandomRays(Rays):
         return self._rays[item]
 
     def __next__(self) -> Ray:
-        if self.iteration >= self.maxCount:
+        if self.iteration >= len(self):
             raise StopIteration
         # This should be able to know if enough rays. If not enough, generate them
         ray = self[self.iteration]
         self.iteration += 1
         return ray
 
+    def load(self, filePath, append=False):
+        if append and len(self) != 0:
+            self[-1]  # The rays are loaded after all the random rays
+
+        super(RandomRays, self).load(filePath, append=append)
+        self.maxCount = len(self._rays)
+
     def randomRay(self) -> Ray:
         raise NotImplementedError("You must implement randomRay() in your subclass")
 
-- 
2.43.0


From d35aa24512bfa134fdade0ca987cae9efeb8060c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:46 +0000
Subject: [PATCH 06/28] fix: saving finishes as soon as the file is written and
 includes rays not generated yet

---
 raytracing/matrixgroup.py | 23 +----------------------
 raytracing/rays.py        | 28 +++++-----------------------
 2 files changed, 6 insertions(+), 45 deletions(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 47ca586..c618d15 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -539,31 +539,10 @@ class MatrixGroup(Matrix):
             A path, or a Python file-like object, or possibly some backend-dependent object.
             Must be provided in OS-dependent format.
         """
+        # The file is complete once it is closed
         with open(filePath, "wb") as outfile:
             pickle.Pickler(outfile).dump(self.elements)
 
-            # We save the data to disk using a module called Pickler
-            # Some asynchronous magic is happening here with Pickle
-            # and sometimes, access to files is wonky, especially
-            # when the files are very large.
-            # Make sure file exists
-            while not os.path.exists(filePath):
-                time.sleep(0.1)
-
-            oldSize = None
-            # Make sure file is not still being written to
-            while True:
-                try:
-                    currentSize = os.path.getsize(filePath)
-                    if currentSize == oldSize:
-                        break
-
-                    time.sleep(1)
-                    oldSize = currentSize
-                except:
-                    # Not possible, yet: sometimes we get here
-                    time.sleep(0.1)
-
     def load(self, filePath, append=False):
         """ A MatrixGroup saved with `save()` can be loaded using this function.
 
diff --git a/raytracing/rays.py b/raytracing/rays.py
index f2a6f6a..7b6df28 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -437,30 +437,12 @@ class Rays:
             Must be provided in OS-dependent format.
         """
 
+        # Random rays that were never used have not been generated yet
+        rays = [self[i] for i in range(len(self))]
+
+        # The file is complete once it is closed
         with open(filePath, 'wb') as outfile:
-            pickle.Pickler(outfile).dump(self._rays)
-
-        # We save the data to disk using a module called Pickler
-        # Some asynchronous magic is happening here with Pickle
-        # and sometimes, access to files is wonky, especially
-        # when the files are very large.
-        # Make sure file exists
-        while not os.path.exists(filePath):
-            time.sleep(0.1)
-
-        oldSize = None
-        # Make sure file is not still being written to
-        while True:
-            try:
-                currentSize = os.path.getsize(filePath)
-                if currentSize == oldSize:
-                    break
-
-                time.sleep(1)
-                oldSize = currentSize
-            except:
-                # Not possible, yet: sometimes we get here
-                time.sleep(0.1)
+            pickle.Pickler(outfile).dump(rays)
 
     # For 2D histogram:
     # https://en.wikipedia.org/wiki/Xiaolin_Wu's_line_algorithm
-- 
2.43.0


From 9357121993ca3b2e28f3b7387f06e6b2752aee90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:29 +0000
Subject: [PATCH 07/28] fix: preferences are never lost, damaged or written by
 a read

---
 raytracing/preferences.py | 95 ++++++++++++++++++++++++++++++---------
 1 file changed, 73 insertions(+), 22 deletions(-)

diff --git a/raytracing/preferences.py b/raytracing/preferences.py
index bf8d141..0258c52 100644
--- a/raytracing/preferences.py
+++ b/raytracing/preferences.py
@@ -1,11 +1,10 @@
 import os
 import json
 import platform
+import tempfile
 
 class Preferences(dict):
     def __init__(self, *args, **kwargs):
-        self.update(*args, **kwargs)
-
         prefFilename = "ca.dcclab.python.raytracing.json"
         prefDir = "."
 
@@ -20,45 +19,97 @@ class Preferences(dict):
                 home = os.path.expanduser("~")
                 prefDir = os.path.join(home, ".config")
                 if not os.path.exists(prefDir):
-                    os.mkdir(prefDir)
+                    try:
+                        os.mkdir(prefDir)
+                    except FileExistsError:  # Created in the meantime by another program
+                        pass
         except Exception as err:
             prefDir = "."
 
         self.path = os.path.join(prefDir, prefFilename)
-        self.readFromDisk()
+        try:
+            self.readFromDisk()
+        except OSError:  # Unreadable for now, but using the preferences will tell
+            pass
+        self.update(*args, **kwargs)
 
     def update(self, *args, **kwargs):
         for k, v in dict(*args, **kwargs).items():
             self[k] = v
 
+    # All accesses use what is on the disk, because it may have been changed elsewhere
+
     def __getitem__(self, key):
         self.readFromDisk()
         return super().__getitem__(key)
 
     def __setitem__(self, key, value):
+        self.readFromDisk()
+        self._replaceOnDisk({**dict(super().items()), key: value})
         super().__setitem__(key, value)
-        self.writeToDisk()
+
+    def __contains__(self, key):
+        self.readFromDisk()
+        return super().__contains__(key)
+
+    def __iter__(self):
+        self.readFromDisk()
+        return super().__iter__()
+
+    def __len__(self):
+        self.readFromDisk()
+        return super().__len__()
+
+    def get(self, key, default=None):
+        self.readFromDisk()
+        return super().get(key, default)
+
+    def keys(self):
+        self.readFromDisk()
+        return super().keys()
+
+    def values(self):
+        self.readFromDisk()
+        return super().values()
+
+    def items(self):
+        self.readFromDisk()
+        return super().items()
 
     def resetPreferences(self):
-        try:
-            os.remove(self.path)
-        except Exception as err:
-            pass
+        self._replaceOnDisk({})
         self.clear()
-        self.writeToDisk()
 
     def readFromDisk(self):
-        if os.path.exists(self.path):
-            with open(self.path, "r+") as prefFile:
-                try:
-                    data = json.load(prefFile)
-                except Exception as err:
-                    data = dict()
-            self.update(data)
-        else:
-            self.clear()
-            self.writeToDisk()
+        try:
+            with open(self.path, "r") as prefFile:
+                data = json.load(prefFile)
+            if not isinstance(data, dict):
+                data = dict()
+        except FileNotFoundError:
+            data = dict()
+        except (ValueError, RecursionError):  # Damaged
+            data = dict()
+
+        self.clear()
+        super().update(data)
 
     def writeToDisk(self):
-        with open(self.path, "w+") as prefFile:
-            json.dump(self, prefFile)
+        self._replaceOnDisk(dict(super().items()))
+
+    def _replaceOnDisk(self, data):
+        """ The file is replaced at once when its new content is complete, so that
+        it always contains either all the previous or all the new preferences."""
+        path = os.path.realpath(self.path)
+        content = json.dumps(data)
+
+        tempFile, tempPath = tempfile.mkstemp(prefix=os.path.basename(path), suffix=".tmp", dir=os.path.dirname(path))
+        try:
+            with os.fdopen(tempFile, "w") as prefFile:
+                prefFile.write(content)
+                prefFile.flush()
+                os.fsync(prefFile.fileno())
+            os.replace(tempPath, path)
+        except BaseException:
+            os.remove(tempPath)
+            raise
-- 
2.43.0


From 81c789f909dd85e0a18d1faec0d4e7b6cf162208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:29 +0000
Subject: [PATCH 08/28] fix: the package starts whatever the state of its
 preferences

---
 raytracing/__init__.py | 61 +++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 28 deletions(-)

diff --git a/raytracing/__init__.py b/raytracing/__init__.py
index fc450b2..823fa25 100644
--- a/raytracing/__init__.py
+++ b/raytracing/__init__.py
@@ -70,39 +70,44 @@ import time
 import tempfile
 
 def lastCheckMoreThanADay():
-    if "lastVersionCheck" in prefs:
-        isoFormat = "%Y-%m-%dT%H:%M:%S.%f"
-        then = datetime.strptime(prefs["lastVersionCheck"], isoFormat)
-        difference = datetime.now() - then
-        if difference.days > 1:
-            return True
-        else:
-            return False
-    else:
+    try:
+        lastCheck = prefs["lastVersionCheck"]
+    except OSError:
+        return False # We cannot know, nor remember it
+    except KeyError:
         return True
 
+    # isoformat() does not write the microseconds when there are none
+    for isoFormat in ("%Y-%m-%dT%H:%M:%S.%f", "%Y-%m-%dT%H:%M:%S"):
+        try:
+            then = datetime.strptime(lastCheck, isoFormat)
+            difference = datetime.now() - then
+            return difference.days > 1
+        except (TypeError, ValueError):
+            pass
+
+    return True # Unusable date
+
 
 prefs = Preferences()
 if lastCheckMoreThanADay():
     checkLatestVersion(currentVersion=__version__)
-    prefs["lastVersionCheck"] = datetime.now().isoformat()
-
-if "RAYTRACING_EXPERT" in os.environ:
-    prefs["mode"] = "expert"
-    
-try:
-    if "mode" in prefs:
-        if prefs["mode"] == "silent":
-            silentMode()
-        elif prefs["mode"] == "expert":
-            expertMode()
-        else:
-            beginnerMode(saveToPrefs=False)
+    try:
+        prefs["lastVersionCheck"] = datetime.now().isoformat()
+    except Exception as err:
+        pass # We will check again next time
+
+def useStartingMode():
+    try:
+        mode = "expert" if "RAYTRACING_EXPERT" in os.environ else prefs["mode"]
+    except Exception as err:
+        mode = "beginner"
+
+    if mode == "silent":
+        silentMode()
+    elif mode == "expert":
+        expertMode()
     else:
-        beginnerMode(saveToPrefs=True)
-
-except Exception as err:
-    beginnerMode(saveToPrefs=True)
-    pass
-
+        beginnerMode()
 
+useStartingMode()
-- 
2.43.0


From a7d8002050e1c8c7552053842619208fccd244b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:29 +0000
Subject: [PATCH 09/28] fix: the latest version is the newest one, and asking
 for it takes bounded time

---
 raytracing/utils.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/raytracing/utils.py b/raytracing/utils.py
index 869a918..5721e17 100644
--- a/raytracing/utils.py
+++ b/raytracing/utils.py
@@ -238,15 +238,26 @@ def checkLatestVersion(currentVersion):
     """
     try:
         import json
+        import time
         import urllib.request
         from packaging.version import Version
 
         url = "https://pypi.org/pypi/raytracing/json"
         req = urllib.request.Request(url)
         with urllib.request.urlopen(req, timeout=1) as response:
-            data = json.load(response)
-            versions = [ Version(version) for version in data["releases"].keys() ]
-            latestVersion = versions[-1]
+            # The timeout is for each network operation: we also limit the total time
+            deadline = time.monotonic() + 3
+            content = response.read1()
+            chunk = content
+            while chunk:
+                if time.monotonic() > deadline:
+                    raise TimeoutError("The answer takes too long")
+                chunk = response.read1()
+                content += chunk
+
+            data = json.loads(content)
+            # The order of the releases is arbitrary
+            latestVersion = max([ Version(version) for version in data["releases"].keys() ])
             if Version(currentVersion) < latestVersion:
                 print("Latest version {0} available on PyPi (you are using {1}).".format(latestVersion, currentVersion))
                 print("run `pip install --upgrade raytracing` to update.")
-- 
2.43.0


From 8958332bc3132e7bc3035fe4beccdfda119cafaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:36 +0000
Subject: [PATCH 10/28] fix: beginner hints are shown in beginner mode only,
 and every time

---
 raytracing/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/raytracing/utils.py b/raytracing/utils.py
index 5721e17..f813cfd 100644
--- a/raytracing/utils.py
+++ b/raytracing/utils.py
@@ -36,10 +36,11 @@ def beginnerMode(saveToPrefs=False):
     """
 
     warnings.formatwarning = warningLineFormat
+    # The last filters added come first, and all our warnings are UserWarnings
+    warnings.filterwarnings("default", category=UserWarning)
     warnings.filterwarnings("always", category=BeginnerHint)
     warnings.filterwarnings("default", category=ExpertNote)
     warnings.filterwarnings("default", category=DeprecationWarning)
-    warnings.filterwarnings("default", category=UserWarning)
     if saveToPrefs:
         prefs = Preferences()
         prefs["mode"] = "beginner"
@@ -55,10 +56,11 @@ def expertMode(saveToPrefs=False):
 
     """
     warnings.formatwarning = warningLineFormat
+    # The last filters added come first, and all our warnings are UserWarnings
+    warnings.filterwarnings("once", category=UserWarning)
     warnings.filterwarnings("ignore", category=BeginnerHint)
     warnings.filterwarnings("once", category=ExpertNote)
     warnings.filterwarnings("once", category=DeprecationWarning)
-    warnings.filterwarnings("once", category=UserWarning)
     if saveToPrefs:
         prefs = Preferences()
         prefs["mode"] = "expert"
@@ -74,10 +76,11 @@ def silentMode(saveToPrefs=False):
 
     """
     warnings.formatwarning = warningLineFormat
+    # The last filters added come first, and all our warnings are UserWarnings
+    warnings.filterwarnings("ignore", category=UserWarning)
     warnings.filterwarnings("ignore", category=BeginnerHint)
     warnings.filterwarnings("ignore", category=ExpertNote)
     warnings.filterwarnings("ignore", category=DeprecationWarning)
-    warnings.filterwarnings("ignore", category=UserWarning)
     if saveToPrefs:
         prefs = Preferences()
         prefs["mode"] = "silent"
-- 
2.43.0


From 3149b015fb9aca9a3c19fd7c7dc6dd5fb98df6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:19 +0000
Subject: [PATCH 11/28] fix: drawing a path does not modify its elements nor
 the rays drawn

---
 raytracing/figure.py      |  7 +++++--
 raytracing/graphics.py    | 10 ++++++----
 raytracing/imagingpath.py | 10 ++++++----
 raytracing/matrix.py      | 14 +-------------
 4 files changed, 18 insertions(+), 23 deletions(-)

diff --git a/raytracing/figure.py b/raytracing/figure.py
index 39f6d3b..fc31e87 100644
--- a/raytracing/figure.py
+++ b/raytracing/figure.py
@@ -2,6 +2,7 @@ from matplotlib.widgets import CheckButtons
 import matplotlib.pyplot as plt
 from .graphics import *
 from .ray import Ray
+import copy
 import itertools
 from .utils import *
 import sys
@@ -395,11 +396,13 @@ class Figure:
 
             forwardRayTraces = forwardPath.traceMany(rays)
             backwardRayTraces = backwardPath.traceMany(rays)
+            manyRayTraces = forwardRayTraces
             for rayTrace in backwardRayTraces:
+                # The traces start with the rays we were given, not to be modified
+                rayTrace = [copy.copy(ray) for ray in rayTrace]
                 for ray in rayTrace:
                     ray.z = -abs(ray.z)
-            manyRayTraces = forwardRayTraces
-            manyRayTraces.extend(backwardRayTraces)
+                manyRayTraces.append(rayTrace)
         else:
             manyRayTraces = self.path.traceMany(rays)
 
diff --git a/raytracing/graphics.py b/raytracing/graphics.py
index 0e453ea..5ba8052 100644
--- a/raytracing/graphics.py
+++ b/raytracing/graphics.py
@@ -282,14 +282,16 @@ class MatrixGraphic(Graphic):
 
 class LensGraphic(MatrixGraphic):
     def __init__(self, matrix, x=0.0, fixedWidth=False, minSize=0):
-        if matrix.apertureDiameter == float('+Inf') and minSize > matrix._physicalHalfHeight:
-            matrix._physicalHalfHeight = minSize
-
+        self.minSize = minSize
         super(LensGraphic, self).__init__(matrix, x=x, fixedWidth=fixedWidth)
 
     @property
     def mainComponents(self):
-        return [DoubleThinArrow(self.matrix.displayHalfHeight()*2)]
+        halfHeight = self.matrix.displayHalfHeight()
+        if self.matrix.apertureDiameter == float('+Inf') and self.minSize > halfHeight:
+            halfHeight = self.minSize
+
+        return [DoubleThinArrow(halfHeight*2)]
 
 
 class ApertureGraphic(MatrixGraphic):
diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 7d1f25a..d5f1c18 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -2,6 +2,7 @@ from typing import Any, Union, List
 from .figure import Figure
 from .matrixgroup import *
 from .ray import *
+import copy
 import numpy as np
 
 """ We start with general, useful namedtuples to simplify management of values """
@@ -935,14 +936,15 @@ class ImagingPath(MatrixGroup):
             if z < zStart < z + element.L:
                 assert type(element).__name__ == 'Space', 'The position of the rays cannot be in the same ' \
                                                           'position of another element.'
+                # We use copies: the elements of this path must not be modified
                 if backwards:
-                    newElements = [Space(zStart - z)]
+                    newElements = [Space(zStart - z, n=element.frontIndex)]
                     if i != 0:
-                        newElements.extend(self.elements[i-1::-1])
+                        newElements.extend(copy.deepcopy(previous).flipOrientation() for previous in self.elements[i-1::-1])
                     return ImagingPath(elements=newElements)
                 else:
-                    newElements = [Space(z + element.L - zStart)]
-                    newElements.extend(self.elements[i+1:])
+                    newElements = [Space(z + element.L - zStart, n=element.frontIndex)]
+                    newElements.extend(copy.copy(following) for following in self.elements[i+1:])
                     return ImagingPath(elements=newElements)
 
             z += element.L
diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 6d5f3fe..f001297 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1532,19 +1532,7 @@ class Lens(Matrix):
             The half height of the optical element
         """
         if self.apertureDiameter != float('+Inf'):
-            self._physicalHalfHeight = self.apertureDiameter/2  # real half height
-        return self._physicalHalfHeight
-
-    @property
-    def largestDiameter(self):
-        """ Largest diameter for a group of elements
-
-        Returns
-        -------
-        LargestDiameter : float
-            Largest diameter of the element or group of elements. For a `Matrix`
-            this will simply be the aperture diameter of this element.
-        """
+            return self.apertureDiameter/2  # real half height
         return self._physicalHalfHeight
 
 
-- 
2.43.0


From 85c9e2b9912f3f7c36d511335e8e8160caba8af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:32 +0000
Subject: [PATCH 12/28] fix: a drawing leaves the design and the next drawings
 of a path as they were

---
 raytracing/figure.py      |  4 +-
 raytracing/imagingpath.py | 81 ++++++++++++++++++++-------------------
 raytracing/laserpath.py   | 11 +++++-
 3 files changed, 53 insertions(+), 43 deletions(-)

diff --git a/raytracing/figure.py b/raytracing/figure.py
index fc31e87..2e4d508 100644
--- a/raytracing/figure.py
+++ b/raytracing/figure.py
@@ -41,7 +41,7 @@ class Figure:
         self.styles['publication'].update({'rayColors': ['0.4', '0.2', '0.6'],
                                            'imageColor': '0.3', 'objectColor': '0.1'})
 
-        self.designParams = self.styles['default']
+        self.designParams = self.styles['default'].copy()
 
     @property
     def lines(self):
@@ -94,7 +94,7 @@ class Figure:
         """
         if style is not None:
             if style in self.styles.keys():
-                self.designParams = self.styles[style]
+                self.designParams = self.styles[style].copy()
             else:
                 raise ValueError("Available styles are : {0}".format(self.styles.keys()))
 
diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index d5f1c18..2e001a2 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -968,46 +968,49 @@ class ImagingPath(MatrixGroup):
             If comments are included they will be displayed on a graph in the bottom half of the plot. (default=None)
         """
 
-        if limitObjectToFieldOfView is not None:
-            self.figure.designParams['limitObjectToFieldOfView'] = limitObjectToFieldOfView
-        if onlyPrincipalAndAxialRays is not None:
-            self.figure.designParams['onlyPrincipalAndAxialRays'] = onlyPrincipalAndAxialRays
-        self.figure.designParams['removeBlockedRaysCompletely'] = removeBlocked
-
-        if raysList is None:
-            raysList = []
-        if rays is not None:
-            raysList.append(rays)
-
-        self.figure.applyDesign()
-
-        if len(raysList) == 0:
-            self.figure.designParams['showFOV'] = True
-            if not self.figure.designParams['onlyPrincipalAndAxialRays']:
-                self.figure.designParams['showFOV'] = False
+        # The design is that of the user: whatever we change here is for this display only
+        userDesign = copy.deepcopy(self.figure.designParams)
+        try:
+            if limitObjectToFieldOfView is not None:
+                self.figure.designParams['limitObjectToFieldOfView'] = limitObjectToFieldOfView
+            if onlyPrincipalAndAxialRays is not None:
+                self.figure.designParams['onlyPrincipalAndAxialRays'] = onlyPrincipalAndAxialRays
+            self.figure.designParams['removeBlockedRaysCompletely'] = removeBlocked
+
+            # We work on a copy: the list belongs to the caller
+            raysList = [] if raysList is None else list(raysList)
+            if rays is not None:
+                raysList.append(rays)
+
+            self.figure.applyDesign()
+
+            if len(raysList) == 0:
+                self.figure.designParams['showFOV'] = True
+                if not self.figure.designParams['onlyPrincipalAndAxialRays']:
+                    self.figure.designParams['showFOV'] = False
+                else:
+                    warnings.warn('No rays were provided for the display. '
+                                  'Using principal and axial rays.', category=BeginnerHint)
+                    if self.principalRay() is None and self.axialRay() is None:
+                        warnings.warn('Principal and axial rays are not defined for this system. '
+                                      'Using default ObjectRays.', category=BeginnerHint)
+
+            if 'ObjectRays' not in [type(rays).__name__ for rays in raysList]:
+                fanAngle = self.fanAngle
+                if fanAngle is None:
+                    fanAngle = np.tan(self.figure.displayRange / 2 / self.L / 5)
+                defaultObject = ObjectRays(self.objectHeight, z=self.objectPosition,
+                                           halfAngle=fanAngle, T=self.rayNumber, H=self.fanNumber)
+                raysList.append(defaultObject)
             else:
-                warnings.warn('No rays were provided for the display. '
-                              'Using principal and axial rays.', category=BeginnerHint)
-                if self.principalRay() is None and self.axialRay() is None:
-                    warnings.warn('Principal and axial rays are not defined for this system. '
-                                  'Using default ObjectRays.', category=BeginnerHint)
-
-        if 'ObjectRays' not in [type(rays).__name__ for rays in raysList]:
-            fanAngle = self.fanAngle
-            if fanAngle is None:
-                fanAngle = np.tan(self.figure.displayRange / 2 / self.L / 5)
-            defaultObject = ObjectRays(self.objectHeight, z=self.objectPosition,
-                                       halfAngle=fanAngle, T=self.rayNumber, H=self.fanNumber)
-            raysList.append(defaultObject)
-        else:
-            self.figure.designParams['showObjectImage'] = True
-
-        self.figure.display(raysList=raysList, comments=comments, title=self.label,
-                            backend='matplotlib', display3D=False, interactive=interactive, filepath=filePath)
-
-        savedDesignParams = self.figure.designParams
-        self.figure = Figure(opticalPath=self)
-        self.design = savedDesignParams
+                self.figure.designParams['showObjectImage'] = True
+
+            self.figure.display(raysList=raysList, comments=comments, title=self.label,
+                                backend='matplotlib', display3D=False, interactive=interactive, filepath=filePath)
+        finally:
+            self.figure = Figure(opticalPath=self)
+            self.figure.designParams = userDesign
+            self.design = self.figure.design
 
     def saveFigure(self, filePath, rays=None, raysList=None, removeBlocked=True, comments=None,
                    onlyPrincipalAndAxialRays=None, limitObjectToFieldOfView=None):
diff --git a/raytracing/laserpath.py b/raytracing/laserpath.py
index dfaaed5..8cde826 100644
--- a/raytracing/laserpath.py
+++ b/raytracing/laserpath.py
@@ -1,3 +1,4 @@
+import copy
 from .matrixgroup import MatrixGroup
 from .figure import Figure
 
@@ -73,5 +74,11 @@ class LaserPath(MatrixGroup):
         if beams is None:
             beams = [self.inputBeam]
 
-        self.figure.displayGaussianBeam(beams=beams,
-                                        comments=comments, title=self.label, backend='matplotlib', display3D=False)
+        userDesign = copy.deepcopy(self.figure.designParams)
+        try:
+            self.figure.displayGaussianBeam(beams=beams,
+                                            comments=comments, title=self.label, backend='matplotlib', display3D=False)
+        finally:
+            self.figure = Figure(opticalPath=self)
+            self.figure.designParams = userDesign
+            self.design = self.figure.design
-- 
2.43.0


From a327de76c7d37e1b82c3ba88aa16fb0c50a4ef44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 13/28] fix: the same Space at two places of a group cannot
 take two indices of refraction

---
 raytracing/matrixgroup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index c618d15..2ef0dc2 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -79,8 +79,8 @@ class MatrixGroup(Matrix):
             for i in range(max(firstNewElement, 1), len(elements)):
                 lastElement, element = elements[i - 1], elements[i]
                 if lastElement.backIndex != element.frontIndex:
-                    if isinstance(element, Space):
-                        # For Space(), we fix it
+                    # For Space(), we fix it, unless it is also earlier in the group, in another medium
+                    if isinstance(element, Space) and not any(element is other for other in elements[:i]):
                         element.frontIndex = lastElement.backIndex
                         element.backIndex = element.frontIndex
                     else:
-- 
2.43.0


From 31ffa8e119ec40d213b2b8d75cae7ba9403544aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:41 +0000
Subject: [PATCH 14/28] fix: a load that fails when the file is closed changes
 nothing

---
 raytracing/matrixgroup.py | 12 +++++++-----
 raytracing/rays.py        | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 2ef0dc2..ae88958 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -559,10 +559,12 @@ class MatrixGroup(Matrix):
             loadedMatrices = pickle.Unpickler(infile).load()
             if not isinstance(loadedMatrices, collections.Iterable):
                 raise IOError(f"{filePath} does not contain an iterable of Matrix objects.")
+            loadedMatrices = list(loadedMatrices)
             if not all([isinstance(matrix, Matrix) for matrix in loadedMatrices]):
                 raise IOError(f"{filePath} must contain only Matrix objects.")
-            loadedMatrices = list(loadedMatrices)
-            if append:
-                self._replaceElements(self.elements + loadedMatrices, firstNewElement=len(self.elements))
-            else:
-                self._replaceElements(loadedMatrices)
+
+        # Nothing is modified before the file is read completely and closed
+        if append:
+            self._replaceElements(self.elements + loadedMatrices, firstNewElement=len(self.elements))
+        else:
+            self._replaceElements(loadedMatrices)
diff --git a/raytracing/rays.py b/raytracing/rays.py
index 7b6df28..02e8323 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -419,12 +419,14 @@ class Rays:
             loadedRays = list(loadedRays)
             if not all([isinstance(ray, Ray) for ray in loadedRays]):
                 raise IOError(f"{filePath} must contain only Ray objects.")
-            if append and self._rays is not None:
-                self._rays.extend(loadedRays)
-            else:
-                self._rays = loadedRays
 
-            self._invalidateCachedValues()
+        # Nothing is modified before the file is read completely and closed
+        if append and self._rays is not None:
+            self._rays.extend(loadedRays)
+        else:
+            self._rays = loadedRays
+
+        self._invalidateCachedValues()
 
     def save(self, filePath):
 
-- 
2.43.0


From 10623727e6dc1494531d884aad1adc062a5eaf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:09 +0000
Subject: [PATCH 15/28] fix: lenses prescribed in centimeters or meters in
 Zemax files have their right size

---
 raytracing/zemax.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/raytracing/zemax.py b/raytracing/zemax.py
index 1c7c4cf..5e3d51d 100644
--- a/raytracing/zemax.py
+++ b/raytracing/zemax.py
@@ -46,6 +46,10 @@ class ZMXReader:
             self.factor = 1
         elif areTheSame("IN", units):
             self.factor = 25.4
+        elif areTheSame("CM", units):
+            self.factor = 10
+        elif areTheSame("M", units) or areTheSame("METER", units):
+            self.factor = 1000
 
         wavelengths = self.designWavelengths()
         self.designWavelength = wavelengths[len(wavelengths)//2]
-- 
2.43.0


From bc2dd0d288f7ebb0d104ed8305122516d7f8e547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:29 +0000
Subject: [PATCH 16/28] fix: Zemax files that do not state their units can be
 read

---
 raytracing/zemax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/zemax.py b/raytracing/zemax.py
index 5e3d51d..1fa49be 100644
--- a/raytracing/zemax.py
+++ b/raytracing/zemax.py
@@ -42,7 +42,7 @@ class ZMXReader:
 
         units = self.value("UNIT")
         self.factor = 1
-        if units is None:
+        if not units:
             self.factor = 1
         elif areTheSame("IN", units):
             self.factor = 25.4
-- 
2.43.0


From 44e583af48b9a50cdb5f66dbce7831944354410b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:50 +0000
Subject: [PATCH 17/28] fix: a byte order mark does not hide the first line of
 a Zemax file

---
 raytracing/zemax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/zemax.py b/raytracing/zemax.py
index 1fa49be..9688dac 100644
--- a/raytracing/zemax.py
+++ b/raytracing/zemax.py
@@ -76,7 +76,7 @@ class ZMXReader:
                 line = reader.readline()
                 return "utf-16"
             except:
-                return "utf-8"
+                return "utf-8-sig" # With or without a byte order mark
 
     def matrixGroup(self):
         """ Build and return a raytracing MatrixGroup with the interfaces and
-- 
2.43.0


From 77140b8e50360a07339c78581e3f7bab271ebfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 18/28] fix: every drawing of a path is done on a figure of its
 own

An interrupted drawing, or a drawing of the path while another one is shown,
could leave graphics and design parameters behind in the figure of the path.
---
 raytracing/figure.py      |  3 +-
 raytracing/imagingpath.py | 81 +++++++++++++++++++--------------------
 raytracing/laserpath.py   | 13 +++----
 3 files changed, 46 insertions(+), 51 deletions(-)

diff --git a/raytracing/figure.py b/raytracing/figure.py
index 2e4d508..2e723f3 100644
--- a/raytracing/figure.py
+++ b/raytracing/figure.py
@@ -118,7 +118,8 @@ class Figure:
         if self.designParams['limitObjectToFieldOfView']:
             fieldOfView = self.path.fieldOfView()
             if fieldOfView != float('+Inf'):
-                self.path.objectHeight = fieldOfView
+                self.path._objectHeight = fieldOfView
+                self.designParams['limitObjectToFieldOfView'] = False
                 note1 = "FOV: {0:.2f}".format(self.path.objectHeight)
             else:
                 warnings.warn("Infinite field of view: cannot use limitObjectToFieldOfView=True. The object height is "
diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 2e001a2..170167d 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -968,49 +968,46 @@ class ImagingPath(MatrixGroup):
             If comments are included they will be displayed on a graph in the bottom half of the plot. (default=None)
         """
 
-        # The design is that of the user: whatever we change here is for this display only
-        userDesign = copy.deepcopy(self.figure.designParams)
-        try:
-            if limitObjectToFieldOfView is not None:
-                self.figure.designParams['limitObjectToFieldOfView'] = limitObjectToFieldOfView
-            if onlyPrincipalAndAxialRays is not None:
-                self.figure.designParams['onlyPrincipalAndAxialRays'] = onlyPrincipalAndAxialRays
-            self.figure.designParams['removeBlockedRaysCompletely'] = removeBlocked
-
-            # We work on a copy: the list belongs to the caller
-            raysList = [] if raysList is None else list(raysList)
-            if rays is not None:
-                raysList.append(rays)
-
-            self.figure.applyDesign()
-
-            if len(raysList) == 0:
-                self.figure.designParams['showFOV'] = True
-                if not self.figure.designParams['onlyPrincipalAndAxialRays']:
-                    self.figure.designParams['showFOV'] = False
-                else:
-                    warnings.warn('No rays were provided for the display. '
-                                  'Using principal and axial rays.', category=BeginnerHint)
-                    if self.principalRay() is None and self.axialRay() is None:
-                        warnings.warn('Principal and axial rays are not defined for this system. '
-                                      'Using default ObjectRays.', category=BeginnerHint)
-
-            if 'ObjectRays' not in [type(rays).__name__ for rays in raysList]:
-                fanAngle = self.fanAngle
-                if fanAngle is None:
-                    fanAngle = np.tan(self.figure.displayRange / 2 / self.L / 5)
-                defaultObject = ObjectRays(self.objectHeight, z=self.objectPosition,
-                                           halfAngle=fanAngle, T=self.rayNumber, H=self.fanNumber)
-                raysList.append(defaultObject)
+        # The design is that of the user: whatever we change for this display is done on a figure of its own
+        figure = Figure(opticalPath=self)
+        figure.designParams = copy.deepcopy(self.figure.designParams)
+
+        if limitObjectToFieldOfView is not None:
+            figure.designParams['limitObjectToFieldOfView'] = limitObjectToFieldOfView
+        if onlyPrincipalAndAxialRays is not None:
+            figure.designParams['onlyPrincipalAndAxialRays'] = onlyPrincipalAndAxialRays
+        figure.designParams['removeBlockedRaysCompletely'] = removeBlocked
+
+        # We work on a copy: the list belongs to the caller
+        raysList = [] if raysList is None else list(raysList)
+        if rays is not None:
+            raysList.append(rays)
+
+        figure.applyDesign()
+
+        if len(raysList) == 0:
+            figure.designParams['showFOV'] = True
+            if not figure.designParams['onlyPrincipalAndAxialRays']:
+                figure.designParams['showFOV'] = False
             else:
-                self.figure.designParams['showObjectImage'] = True
-
-            self.figure.display(raysList=raysList, comments=comments, title=self.label,
-                                backend='matplotlib', display3D=False, interactive=interactive, filepath=filePath)
-        finally:
-            self.figure = Figure(opticalPath=self)
-            self.figure.designParams = userDesign
-            self.design = self.figure.design
+                warnings.warn('No rays were provided for the display. '
+                              'Using principal and axial rays.', category=BeginnerHint)
+                if self.principalRay() is None and self.axialRay() is None:
+                    warnings.warn('Principal and axial rays are not defined for this system. '
+                                  'Using default ObjectRays.', category=BeginnerHint)
+
+        if 'ObjectRays' not in [type(rays).__name__ for rays in raysList]:
+            fanAngle = self.fanAngle
+            if fanAngle is None:
+                fanAngle = np.tan(figure.displayRange / 2 / self.L / 5)
+            defaultObject = ObjectRays(self.objectHeight, z=self.objectPosition,
+                                       halfAngle=fanAngle, T=self.rayNumber, H=self.fanNumber)
+            raysList.append(defaultObject)
+        else:
+            figure.designParams['showObjectImage'] = True
+
+        figure.display(raysList=raysList, comments=comments, title=self.label,
+                       backend='matplotlib', display3D=False, interactive=interactive, filepath=filePath)
 
     def saveFigure(self, filePath, rays=None, raysList=None, removeBlocked=True, comments=None,
                    onlyPrincipalAndAxialRays=None, limitObjectToFieldOfView=None):
diff --git a/raytracing/laserpath.py b/raytracing/laserpath.py
index 8cde826..832cc14 100644
--- a/raytracing/laserpath.py
+++ b/raytracing/laserpath.py
@@ -74,11 +74,8 @@ class LaserPath(MatrixGroup):
         if beams is None:
             beams = [self.inputBeam]
 
-        userDesign = copy.deepcopy(self.figure.designParams)
-        try:
-            self.figure.displayGaussianBeam(beams=beams,
-                                            comments=comments, title=self.label, backend='matplotlib', display3D=False)
-        finally:
-            self.figure = Figure(opticalPath=self)
-            self.figure.designParams = userDesign
-            self.design = self.figure.design
+        # Every display is done on a figure of its own
+        figure = Figure(opticalPath=self)
+        figure.designParams = copy.deepcopy(self.figure.designParams)
+        figure.displayGaussianBeam(beams=beams,
+                                   comments=comments, title=self.label, backend='matplotlib', display3D=False)
-- 
2.43.0


From 395cbb3e93f74134f969c09e275943dd1df43781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 19/28] fix: zooming and resizing survive labels that leave the
 display

---
 raytracing/figure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytracing/figure.py b/raytracing/figure.py
index 2e723f3..31212bd 100644
--- a/raytracing/figure.py
+++ b/raytracing/figure.py
@@ -778,6 +778,8 @@ class MplFigure(Figure):
         i = 0
         while i < maxIteration:
             noOverlap = True
+            # A label that was moved may have left the display: it no longer has a bounding box
+            labels = [label for label in labels if label.isRenderedOn(self.figure)]
             boxes = [label.boundingBox(self.axes, self.figure) for label in labels]
             for (a, b) in itertools.combinations(range(len(labels)), 2):
                 boxA, boxB = boxes[a], boxes[b]
-- 
2.43.0


From 9a736846bf83ac396b936784fdf35b71c9722981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:49 +0000
Subject: [PATCH 20/28] fix: a group that cannot be made leaves the elements it
 was given as they were

---
 raytracing/matrixgroup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index ae88958..17d0940 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -26,8 +26,8 @@ class MatrixGroup(Matrix):
             if not isinstance(elements, collections.Iterable):
                 raise TypeError("'elements' must be iterable (i.e. a list or a tuple of Matrix objects).")
 
-            for element in elements:
-                self.append(element)
+            # In a single step: if they do not fit, they are all left as they were
+            self._replaceElements(self._listOfElements(elements))
 
         # For information only: the last ray traced and its trace
         self._lastRayToBeTraced = None
-- 
2.43.0


From 7d9ce227062d358fc9b24fb3c635affd96ba06ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 21/28] fix: groups are compared by what they are made of, not
 by the last ray traced through them

---
 raytracing/matrixgroup.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 17d0940..5ecffed 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -515,6 +515,16 @@ class MatrixGroup(Matrix):
                 state.append((element, dict(element.__dict__), None))
         return state
 
+    def __eq__(self, other):
+        """ Two groups are equal when they describe the same system: what has been
+        done with them (last ray traced, current iteration) is not compared. """
+        if isinstance(other, MatrixGroup):
+            history = ("iteration", "_lastRayToBeTraced", "_lastRayTrace")
+            state, otherState = ({name: value for name, value in group.__dict__.items() if name not in history}
+                                 for group in (self, other))
+            return state == otherState
+        return super(MatrixGroup, self).__eq__(other)
+
     def __iter__(self):
         # Each iteration keeps its own position, so several can be under way at once.
         self.iteration = 0
-- 
2.43.0


From 9faaf89c991ab7da63fb39e1550598f9c1988e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:48 +0000
Subject: [PATCH 22/28] fix: the search of the field stop never ended, or gave
 a negative field of view, with a precision coarse for the field

---
 raytracing/imagingpath.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 170167d..68b4e2b 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -624,6 +624,8 @@ class ImagingPath(MatrixGroup):
                     dy = dy * 1.5  # Keep going, go faster (different factor)
 
                 y += dy
+                if y < 0:
+                    y = 0.0  # Went back farther than the axis: the smaller increments restart from there
                 wasBlocked = outputChiefRay.isBlocked
                 if abs(y) > self.maxHeight and not wasBlocked:
                     return Stop(z=fieldStopPosition, diameter=fieldStopDiameter)
@@ -742,6 +744,8 @@ class ImagingPath(MatrixGroup):
                 dy = dy * 1.5  # Don't use 2.0: could bounce forever
 
             y += dy
+            if y < 0:
+                y = 0.0  # Went back farther than the axis: the smaller increments restart from there
             wasBlocked = outputChiefRay.isBlocked
             if abs(y) > self.maxHeight and not wasBlocked:
                 return float("+Inf")
-- 
2.43.0


From a119bdeccbe56daebbed8e952dc38e0fae791b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:49 +0000
Subject: [PATCH 23/28] fix: an efficiency report failed or left out rays when
 a class had fewer than two rays or the source no extent

---
 raytracing/imagingpath.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 68b4e2b..5084025 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -894,14 +894,18 @@ class ImagingPath(MatrixGroup):
         print("\nEfficiency")
         print("----------")
         print(" Collection efficiency from Monte Carlo: {0:.1f}% of ±{2:.2f} radian, over field diameter of {1:.1f} mm".format(100*len(notBlocked)/sourceRays.maxCount, 2*maxHeight, maxAngle))
-        print(" Collection efficiency from ratio of system to source invariants: {0:.1f}%".format(Iap/Is*100))
+        if Is != 0:
+            print(" Collection efficiency from ratio of system to source invariants: {0:.1f}%".format(Iap/Is*100))
         stopPosition, stopDiameter = self.apertureStop()
         print(" Efficiency limited by {0:.1f} mm diameter of AS at z={1:.1f}".format(stopDiameter, stopPosition))
         #print(" For 100% efficiency, the system would require an increase of {0:.2f}⨉ in detection NA with same FOV".format(Is/Iap))
         print("\nVignetting")
         print("----------")
-        print("Relative efficiency: {0:.1f}% of maximum for this system".format(100*len(notBlocked)/(len(vignettedBlocked)+len(notBlocked))))
-        if len(vignettedBlocked) >= 2:
+        if len(vignettedBlocked)+len(notBlocked) != 0:
+            print("Relative efficiency: {0:.1f}% of maximum for this system".format(100*len(notBlocked)/(len(vignettedBlocked)+len(notBlocked))))
+        else:
+            print("Relative efficiency: undefined, no ray of the source is within the limits of this system")
+        if len(vignettedBlocked) >= 1:
             print("  Loss to vignetting: {0:.1f}%".format(100*len(vignettedBlocked)/(len(vignettedBlocked)+len(notBlocked))))
             print("  Vignetting is due to blockers at positions: {0}".format(set(vignettePositions)))
         else:
@@ -913,12 +917,13 @@ class ImagingPath(MatrixGroup):
         axis1.add_patch(p.Rectangle((-1,-1),2, 2, color=(0, 1.0, 0, 0.5), lw=3, fill=False,
                               transform=axis1.transData, clip_on=True))
 
-        (x,y) = list(zip(*notBlocked))
-        plt.scatter(x,y, color=(0,1,0), marker='.',label="Transmitted")
-        if len(vignettedBlocked) >= 2:
+        if len(notBlocked) >= 1:
+            (x,y) = list(zip(*notBlocked))
+            plt.scatter(x,y, color=(0,1,0), marker='.',label="Transmitted")
+        if len(vignettedBlocked) >= 1:
             (x,y) = list(zip(*vignettedBlocked))
             plt.scatter(x,y, color=(1,0,0), marker='.',label="Vignetted")
-        if len(expectedBlocked) >= 2:
+        if len(expectedBlocked) >= 1:
             (x,y) = list(zip(*expectedBlocked))
             plt.scatter(x,y, color=(0.5,0.5,0.5), marker='.',label="Blocked")
         axis1.set_xlabel("$B$\n\nFigure: Each point is a ray emitted from the source.", fontsize=13*fontScale)
-- 
2.43.0


From ee8a26d4b1eac042e48db476626870ef8eb1f98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:28 +0000
Subject: [PATCH 24/28] fix: a Zemax file whose wavelengths are all 0.55 can be
 read

---
 raytracing/zemax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/zemax.py b/raytracing/zemax.py
index 9688dac..2462370 100644
--- a/raytracing/zemax.py
+++ b/raytracing/zemax.py
@@ -61,7 +61,7 @@ class ZMXReader:
 
         wavelengths = self.value("WAVM", index=1)
         if isinstance(wavelengths, list):
-            while float(wavelengths[-1]) == 0.55:
+            while len(wavelengths) > 1 and float(wavelengths[-1]) == 0.55:
                 wavelengths.pop()
             return [ float(x) for x in wavelengths]
         else:
-- 
2.43.0


From 6606b43488da064e764612cb4170e78e763e674a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:28 +0000
Subject: [PATCH 25/28] fix: removing, defaulting, copying and printing
 preferences use the stored file, as assigning and reading them do

---
 raytracing/preferences.py | 54 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 52 insertions(+), 2 deletions(-)

diff --git a/raytracing/preferences.py b/raytracing/preferences.py
index 0258c52..f520767 100644
--- a/raytracing/preferences.py
+++ b/raytracing/preferences.py
@@ -48,6 +48,42 @@ class Preferences(dict):
         self._replaceOnDisk({**dict(super().items()), key: value})
         super().__setitem__(key, value)
 
+    def __delitem__(self, key):
+        self.readFromDisk()
+        remaining = dict(super().items())
+        del remaining[key]
+        self._replaceOnDisk(remaining)
+        super().__delitem__(key)
+
+    def __ior__(self, other):
+        self.update(other)
+        return self
+
+    def setdefault(self, key, default=None):
+        self.readFromDisk()
+        if not super().__contains__(key):
+            self[key] = default
+        return super().__getitem__(key)
+
+    def pop(self, key, *default):
+        self.readFromDisk()
+        if default and not super().__contains__(key):
+            return default[0]
+        value = super().__getitem__(key)
+        del self[key]
+        return value
+
+    def popitem(self):
+        self.readFromDisk()
+        if not super().__len__():
+            raise KeyError("there are no preferences")
+        key = list(super().keys())[-1]
+        return key, self.pop(key)
+
+    def clear(self):
+        self._replaceOnDisk({})
+        super().clear()
+
     def __contains__(self, key):
         self.readFromDisk()
         return super().__contains__(key)
@@ -76,8 +112,22 @@ class Preferences(dict):
         self.readFromDisk()
         return super().items()
 
+    def copy(self):
+        self.readFromDisk()
+        return dict(super().items())
+
+    def __repr__(self):
+        self.readFromDisk()
+        return super().__repr__()
+
+    def __eq__(self, other):
+        self.readFromDisk()
+        return super().__eq__(other)
+
+    def __ne__(self, other):
+        return not self == other
+
     def resetPreferences(self):
-        self._replaceOnDisk({})
         self.clear()
 
     def readFromDisk(self):
@@ -91,7 +141,7 @@ class Preferences(dict):
         except (ValueError, RecursionError):  # Damaged
             data = dict()
 
-        self.clear()
+        super().clear()
         super().update(data)
 
     def writeToDisk(self):
-- 
2.43.0


From 4b8dab1e01be103a4f28433fc139528a577bdda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:28 +0000
Subject: [PATCH 26/28] fix: a number that is not in the list of examples is
 refused instead of running another example

---
 raytracing/__main__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raytracing/__main__.py b/raytracing/__main__.py
index 85d1e00..1aa8b4a 100644
--- a/raytracing/__main__.py
+++ b/raytracing/__main__.py
@@ -43,6 +43,9 @@ elif runExamples == '':
     runExamples = []
 else:
     runExamples = [int(y) for y in runExamples.split(',')]
+    for i in runExamples:
+        if not 1 <= i <= len(examples.short):
+            ap.error("there is no example {0} (see --list)".format(i))
 
 if printClasses:
     printClassHierarchy(Rays)
-- 
2.43.0


From 0e2691ef65782f31170f62e3af381a6cf0fc4260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:28 +0000
Subject: [PATCH 27/28] fix: the lists of glasses and lenses do not depend on
 when the garbage collector ran

---
 raytracing/materials.py | 4 +++-
 raytracing/utils.py     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/raytracing/materials.py b/raytracing/materials.py
index 2c3440f..0ea7810 100644
--- a/raytracing/materials.py
+++ b/raytracing/materials.py
@@ -82,7 +82,9 @@ class Material:
             matchObj = re.match(r".+\.(\S+)'", "{0}".format(materialClass))
             if matchObj is not None:
                 materials.extend(matchObj.groups(1))
-        return materials
+
+        # A class that was defined again is there until it is garbage collected: only the last one counts
+        return list(dict.fromkeys(reversed(materials)))[::-1]
 
     def __str__(self):
         """ Print the name of the class as a string """
diff --git a/raytracing/utils.py b/raytracing/utils.py
index f813cfd..e3d918c 100644
--- a/raytracing/utils.py
+++ b/raytracing/utils.py
@@ -208,7 +208,9 @@ def allSubclasses(aClass):
             subc.append(child.__name__)
         else:
             subc.extend(allSubclasses(child))
-    return subc
+
+    # A class that was defined again is there until it is garbage collected: only the last one counts
+    return list(dict.fromkeys(reversed(subc)))[::-1]
 
 def printClassHierarchy(aClass):
     def printAllChilds(aClass):
-- 
2.43.0


From 75de438b1beaea266145864965c42b7513810af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:24 +0000
Subject: [PATCH 28/28] fix: iterating over the preferences is not disturbed by
 an assignment meanwhile

Reading a preference while iterating over them, after another session
assigned one, raised RuntimeError: dictionary changed size during iteration.
---
 raytracing/preferences.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/raytracing/preferences.py b/raytracing/preferences.py
index f520767..be36994 100644
--- a/raytracing/preferences.py
+++ b/raytracing/preferences.py
@@ -89,8 +89,7 @@ class Preferences(dict):
         return super().__contains__(key)
 
     def __iter__(self):
-        self.readFromDisk()
-        return super().__iter__()
+        return iter(self.copy())  # Reading again while iterating does not disturb it
 
     def __len__(self):
         self.readFromDisk()
@@ -101,16 +100,13 @@ class Preferences(dict):
         return super().get(key, default)
 
     def keys(self):
-        self.readFromDisk()
-        return super().keys()
+        return self.copy().keys()
 
     def values(self):
-        self.readFromDisk()
-        return super().values()
+        return self.copy().values()
 
     def items(self):
-        self.readFromDisk()
-        return super().items()
+        return self.copy().items()
 
     def copy(self):
         self.readFromDisk()
-- 
2.43.0

