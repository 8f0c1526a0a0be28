From 1e94adb988392c501c6cb30795c7da5a85ad456f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:51 +0000
Subject: [PATCH 01/65] fix: do not add the default for an absent side of a
 union/xor to the operand's tensor

---
 fibertree/core/iterators.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 4bbf87a..060d1ab 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -910,7 +910,7 @@ def __or__(self, other):
                         Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
                         a_pos += 1
 
-                    b_default = self.b_fiber._createDefault()
+                    b_default = self.b_fiber._createDefault(addtorank=False)
                     yield a_coord, ("A", a_payload, b_default)
                     a_coord, a_payload = _get_next(a)
 
@@ -920,7 +920,7 @@ def __or__(self, other):
                         Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
                         b_pos += 1
 
-                    a_default = self.a_fiber._createDefault()
+                    a_default = self.a_fiber._createDefault(addtorank=False)
                     yield b_coord, ("B", a_default, b_payload)
                     b_coord, b_payload = _get_next(b)
 
@@ -929,7 +929,7 @@ def __or__(self, other):
                     Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
                     a_pos += 1
 
-                b_default = self.b_fiber._createDefault()
+                b_default = self.b_fiber._createDefault(addtorank=False)
                 yield a_coord, ("A", a_payload, b_default)
                 a_coord, a_payload = _get_next(a)
 
@@ -938,7 +938,7 @@ def __or__(self, other):
                         Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
                         b_pos += 1
 
-                    a_default = self.a_fiber._createDefault()
+                    a_default = self.a_fiber._createDefault(addtorank=False)
                     yield b_coord, ("B", a_default, b_payload)
                     b_coord, b_payload = _get_next(b)
 
@@ -1013,23 +1013,23 @@ def __xor__(self, other):
                     b_coord, b_payload = _get_next(b)
 
                 elif a_coord < b_coord:
-                    b_default = self.b_fiber._createDefault()
+                    b_default = self.b_fiber._createDefault(addtorank=False)
                     yield a_coord, ("A", a_payload, b_default)
                     a_coord, a_payload = _get_next(a)
 
                 # a_coord > b_coord
                 else:
-                    a_default = self.a_fiber._createDefault()
+                    a_default = self.a_fiber._createDefault(addtorank=False)
                     yield b_coord, ("B", a_default, b_payload)
                     b_coord, b_payload = _get_next(b)
 
             while a_coord is not None:
-                b_default = self.b_fiber._createDefault()
+                b_default = self.b_fiber._createDefault(addtorank=False)
                 yield a_coord, ("A", a_payload, b_default)
                 a_coord, a_payload = _get_next(a)
 
             while b_coord is not None:
-                a_default = self.a_fiber._createDefault()
+                a_default = self.a_fiber._createDefault(addtorank=False)
                 yield b_coord, ("B", a_default, b_payload)
                 b_coord, b_payload = _get_next(b)
 
-- 
2.43.0


From 883b9c714de3083ad98c952f53b329003a0e5236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:53 +0000
Subject: [PATCH 02/65] fix: allow an empty operand when intersecting with
 tuple coordinates

---
 fibertree/core/iterators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 060d1ab..20b3160 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -715,7 +715,8 @@ def __and__(self, other):
             len_a = len(a_coord) if isinstance(a_coord, tuple) else 1
             len_b = len(b_coord) if isinstance(b_coord, tuple) else 1
 
-            if len_a == len_b:
+            # There is nothing to match if either operand presents no elements
+            if a_coord is None or b_coord is None or len_a == len_b:
                 def succ_next(a, a_coord, a_payload, b, b_coord, b_payload):
                     return *_get_next(a), *_get_next(b)
 
-- 
2.43.0


From 96ff12714acad24347eed5cf368a7ea56bfb3d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:01 +0000
Subject: [PATCH 03/65] fix: deliver usable default fibers for the absent
 operands of an n-ary union

---
 fibertree/core/iterators.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 20b3160..a334dcf 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -588,6 +588,7 @@ def union(*args):
     # Lazy implementation
     class union_iterator:
         nested = nested_result
+        fibers = args
         num_args = len(args)
 
         def __iter__(self):
@@ -611,6 +612,13 @@ def union(*args):
                     p[0] = "A" + p[0]
 
                 p[1] = np
+
+                # Absent operands deliver a default of their own (the default
+                # of a nested union does not know what is below its fibers)
+                for i, arg in enumerate(self.fibers):
+                    if chr(ord("A") + i) not in p[0]:
+                        p[i + 1] = arg._createDefault(addtorank=False)
+
                 yield CoordPayload(c, tuple(p))
 
     fiber = args[0].fromIterator(union_iterator, active_range=args[0].getActive())
-- 
2.43.0


From 08410a4a5d6017d11a9dc77b36b3656947e91055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:11 +0000
Subject: [PATCH 04/65] fix: keep the explicit elements of uncompressed ranks
 in lazy differences, projections and prunings

---
 fibertree/core/fiber.py     |  7 ++++++-
 fibertree/core/iterators.py | 12 ++++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index b85828c..a8ee999 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -1073,6 +1073,7 @@ class Fiber:
 
         result = Fiber.fromIterator(prune_iterator, active_range=self.getActive())
         result._setDefault(self.getDefault())
+        result.getRankAttrs().setFormat(self.getRankAttrs().getFormat())
         result.getRankAttrs().setId(self.getRankAttrs().getId())
 
         return result
@@ -1250,12 +1251,15 @@ class Fiber:
 
             # Build an iterator over the reversed fiber
             class reversed_iterator:
-                cps = list(zip(self.coords, self.payloads))
+                cps = list(self.__iter__(tick=False))
 
                 def __iter__(self):
                     return reversed(self.cps)
 
             fiber = Fiber.fromIterator(reversed_iterator)
+            fiber._setDefault(self.getDefault())
+            fiber.getRankAttrs().setId(self.getRankAttrs().getId())
+            fiber.getRankAttrs().setFormat(self.getRankAttrs().getFormat())
 
         else:
             fiber = self
@@ -1335,6 +1339,7 @@ class Fiber:
 
         result = Fiber.fromIterator(project_iterator, active_range=(min_, max_))
         result._setDefault(self.getDefault())
+        result.getRankAttrs().setFormat(self.getRankAttrs().getFormat())
         if rank_id is not None:
             result.getRankAttrs().setId(rank_id)
 
diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index a334dcf..a97ffec 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -24,6 +24,9 @@ def __iter__(self, tick=True, start_pos=None):
 
     if fmt == "C":
         return self.iterOccupancy(tick, start_pos=start_pos)
+    elif fmt == "U" and self.isLazy():
+        # The iterator already presents every element of the uncompressed rank
+        return self.iterRange(None, None, tick=tick, skip_empty=False)
     elif fmt == "U":
         # Warning: Because this covers only the active range, it will not work
         # for fibers with halos
@@ -119,7 +122,7 @@ def iterActiveShapeRef(self, tick=True):
     """
     return self.iterRangeShapeRef(*self.getActive(), tick=tick)
 
-def iterRange(self, start, end, tick=True, start_pos=None):
+def iterRange(self, start, end, tick=True, start_pos=None, skip_empty=True):
     """
     Iterate over the non-default elements within the given range
 
@@ -137,6 +140,9 @@ def iterRange(self, start, end, tick=True, start_pos=None):
     start_pos: Optional[int]
         Saved position to start iteration
 
+    skip_empty: bool
+        False if the default elements should be emitted, too
+
     """
     # Cannot save a position of a lazy fiber
     assert not self.isLazy() or start_pos is None
@@ -169,7 +175,8 @@ def iterRange(self, start, end, tick=True, start_pos=None):
 
         # If we are within the range, emit the non-default elements
         elif start is None or coord >= start:
-            if not Payload.isEmpty(payload, default=self.getDefault()):
+            if not skip_empty \
+                    or not Payload.isEmpty(payload, default=self.getDefault()):
                 if start_pos is not None:
                     self.setSavedPos(i + j, distance=j)
 
@@ -1375,6 +1382,7 @@ def __sub__(self, other):
     result = self.fromIterator(sub_iterator, active_range=self.getActive())
     result._setDefault(self.getDefault())
     result.getRankAttrs().setId(self.getRankAttrs().getId())
+    result.getRankAttrs().setFormat(self.getRankAttrs().getFormat())
 
     return result
 
-- 
2.43.0


From 30b4dda80a47eba10c04c8741dcccb651faee3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:17 +0000
Subject: [PATCH 05/65] fix: project a fiber holding only explicit default
 payloads

---
 fibertree/core/fiber.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index a8ee999..5dd4215 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -1236,10 +1236,9 @@ class Fiber:
 
         # Get an example of a coordinate if one was not provided
         if coord_ex is None:
-            if len(self) > 0:
-                coord_ex, _ = next(self.iterOccupancy(tick=False))
-            else:
-                coord_ex = 0
+            coord_ex, _ = next(self.iterOccupancy(tick=False), (0, None))
+            if not self.isLazy() and len(self.coords) > 0:
+                coord_ex = self.coords[0]
 
         c0 = Fiber._transCoord(coord_ex, lambda c: 0)
         c1 = Fiber._transCoord(coord_ex, lambda c: 1)
-- 
2.43.0


From a35a2573bdc756de25b862071aaf339dfb4828ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:43 +0000
Subject: [PATCH 06/65] fix: remove fibers from their ranks when clear, <<= or
 populate drops them

---
 fibertree/core/fiber.py     | 62 ++++++++++++++++++++++++++++++++-----
 fibertree/core/iterators.py | 34 +++++++++-----------
 fibertree/core/rank.py      | 21 +++++++++++++
 3 files changed, 90 insertions(+), 27 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 5dd4215..1b2f2cf 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -964,6 +964,50 @@ class Fiber:
     def _deletePayload(self, coord):
         """Remove a payload """
 
+    def _addToRanks(self, payload):
+        """Add a newly stored payload (and all below it) to the owner's ranks
+
+        A fiber that already belongs to a tensor is copied, so the payload to
+        actually store is returned.
+
+        """
+        owner = self.getOwner()
+
+        if owner is None or owner.getNextRank() is None \
+                or not Payload.contains(payload, Fiber):
+            return payload
+
+        fiber = Payload.get(payload)
+
+        if fiber._hasOwner():
+            fiber = fiber.copy(preserve_owner=False)
+
+        owner.getNextRank().append(fiber)
+
+        for i, p in enumerate(fiber.payloads):
+            fiber.payloads[i] = fiber._addToRanks(p)
+
+        return fiber
+
+    def _removeFromRanks(self, payload):
+        """Remove a payload (and all below it) from the ranks it belongs to"""
+        if not Payload.contains(payload, Fiber):
+            return
+
+        fiber = Payload.get(payload)
+
+        if fiber.getOwner() is not None:
+            fiber.getOwner().remove(fiber)
+
+        for p in fiber.payloads:
+            fiber._removeFromRanks(p)
+
+    def _hasOwner(self):
+        """Check if this fiber or any fiber below it belongs to a rank"""
+        return self.getOwner() is not None \
+            or any(Payload.get(p)._hasOwner() for p in self.payloads
+                   if Payload.contains(p, Fiber))
+
 
     def getRange(self,
                  start_coord,
@@ -2306,6 +2350,9 @@ class Fiber:
 
         """
 
+        for p in self.payloads:
+            self._removeFromRanks(p)
+
         self.coords.clear()
         self.payloads.clear()
 
@@ -3007,8 +3054,7 @@ class Fiber:
             #
             # Clear out any existing data
             #
-            self.coords = []
-            self.payloads = []
+            self.clear()
 
         self._setDefault(other.getDefault())
         for c, p in other:
@@ -4609,9 +4655,9 @@ class Fiber:
         owners[None] = self.getOwner()
         self.setOwner(None)
 
-        for c, p in self.iterOccupancy(tick=False):
+        for i, p in enumerate(self.payloads):
             if isinstance(p, Fiber):
-                owners[c] = p._detach_owner()
+                owners[i] = p._detach_owner()
 
         return owners
 
@@ -4620,18 +4666,18 @@ class Fiber:
         if owner is not None:
             self.setRankAttrs(copy.deepcopy(owner.getAttrs()))
 
-        for c, p in self.iterOccupancy(tick=False):
+        for i, p in enumerate(self.payloads):
             if isinstance(p, Fiber):
-                p._attach_attrs(owners[c])
+                p._attach_attrs(owners[i])
 
 
     def _attach_owner(self, owners):
         """Reattach the owners to this fiber"""
         self.setOwner(owners[None])
 
-        for c, p in self.iterOccupancy(tick=False):
+        for i, p in enumerate(self.payloads):
             if isinstance(p, Fiber):
-                p._attach_owner(owners[c])
+                p._attach_owner(owners[i])
 
 
 #
diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index a97ffec..ab31e09 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -1137,7 +1137,6 @@ def __lshift__(self, other, start_pos=None):
                 b_traced = Metrics.isTraced(rank, b_trace)
 
             # Add coordinates/payloads to a_fiber where necessary
-            maybe_remove = False
             b = self.b_fiber.__iter__(tick=False)
 
             # Track the fiber position
@@ -1206,37 +1205,34 @@ def __lshift__(self, other, start_pos=None):
                 if new_a_payload:
                     # Do not actually insert the payload into the tensor
                     a_payload = self.a_fiber._create_payload(b_coord, pos=a_pos)
-                    maybe_remove = True
                     self.a_fiber.setSavedPos(a_pos)
 
                 # Read the a coordinate
                 elif a_read_traced:
                     Metrics.addUse(rank, b_coord, a_pos - len(to_insert), type_=a_read_trace)
-                    maybe_remove = False
-
-                else:
-                    maybe_remove = False
 
                 yield b_coord, (a_payload, b_payload)
 
-                # If this was never updated, remove it
-                if maybe_remove and (isinstance(a_payload, type(self.a_fiber)) and \
-                        len(a_payload) == 0) or \
-                        (not isinstance(a_payload, type(self.a_fiber)) and \
-                        a_payload == self.a_fiber.getDefault()):
+                # If this was left at the default, remove it
+                index = bisect.bisect_left(self.a_fiber.coords, b_coord)
+                if index < len(self.a_fiber.coords) \
+                        and self.a_fiber.payloads[index] is a_payload \
+                        and Payload.isEmpty(a_payload, default=self.a_fiber.getDefault()):
                     # Clear the fiber
-                    index = bisect.bisect_left(self.a_fiber.coords, b_coord)
                     del self.a_fiber.coords[index]
                     del self.a_fiber.payloads[index]
 
                     # Remove the payload from its owning rank (if relevant)
-                    if self.a_fiber.getOwner() is not None and \
-                            self.a_fiber.getOwner().getNextRank() is not None:
-                        popped = self.a_fiber.getOwner().getNextRank().pop()
-
-                        # Make sure that the rank was not modified in the
-                        # middle and we actually popped off the correct fiber
-                        assert id(a_payload) == id(popped)
+                    self.a_fiber._removeFromRanks(a_payload)
+
+                    # Make sure that the rank was not modified in the middle,
+                    # i.e., its last fiber is actually in the fibertree
+                    owner = self.a_fiber.getOwner()
+                    if owner is not None and owner.getNextRank() is not None \
+                            and owner.getNextRank().getFibers():
+                        last = owner.getNextRank().getFibers()[-1]
+                        assert any(p is last for f in reversed(owner.getFibers())
+                                   for p in reversed(f.payloads))
 
                     # We did not actually insert anything, we need to undo the
                     # += 1 from later
diff --git a/fibertree/core/rank.py b/fibertree/core/rank.py
index d1f2c64..96ded99 100644
--- a/fibertree/core/rank.py
+++ b/fibertree/core/rank.py
@@ -503,6 +503,27 @@ class Rank:
         fiber.setOwner(None)
         return fiber
 
+    def remove(self, fiber):
+        """
+        Remove the given fiber, which need not be the most-recently added one
+
+        Parameters
+        ----------
+
+        fiber: Fiber
+            The fiber to remove from the rank
+
+        Returns
+        -------
+        Nothing
+        """
+        for i in range(len(self.fibers) - 1, -1, -1):
+            if self.fibers[i] is fiber:
+                del self.fibers[i]
+                break
+
+        fiber.setOwner(None)
+
 #
 # Linked list methods
 #
-- 
2.43.0


From 5dfa63533b5dcbf39c5713a0efdbe396f49e3f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:18 +0000
Subject: [PATCH 07/65] fix: keep insert() and insertOrLookup() consistent with
 the rank lists and unique coordinates

---
 fibertree/core/fiber.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 1b2f2cf..5e2da1b 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -1398,23 +1398,18 @@ class Fiber:
 
         Fiber._deprecated("Fiber.insertOrLookup() is deprecated use getPayloadRef()")
 
-        if value is None:
-            value = self._createDefault()
+        index = self._coord2pos(coord)
+        if self._coordExists(coord, index):
+            return self.payloads[index]
 
-        payload = Payload.maybe_box(value)
+        if value is None:
+            payload = self._createDefault()
+        else:
+            payload = self._addToRanks(Payload.maybe_box(value))
 
-        index = 0
-        try:
-            index = next(x for x, val in enumerate(self.coords) if val >= coord)
-            if self.coords[index] == coord:
-                return self.payloads[index]
-            self.coords.insert(index, coord)
-            self.payloads.insert(index, payload)
-            return self.payloads[index]
-        except StopIteration:
-            self.coords.append(coord)
-            self.payloads.append(payload)
-            return self.payloads[-1]
+        self.coords.insert(index, coord)
+        self.payloads.insert(index, payload)
+        return self.payloads[index]
 
 
     def insert(self, coord, value):
@@ -1422,7 +1417,10 @@ class Fiber:
 
         Fiber._deprecated("Fiber.insert() is deprecated use getPayloadRef()")
 
-        payload = Payload.maybe_box(value)
+        if self._unique and coord in self.coords:
+            raise CoordinateError
+
+        payload = self._addToRanks(Payload.maybe_box(value))
 
         try:
             index = next(x for x, val in enumerate(self.coords) if val > coord)
-- 
2.43.0


From c96a02c11e3338c2ff8f70e5278681c2708de076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:19 +0000
Subject: [PATCH 08/65] fix: check position assignment, append and extend, and
 keep the ranks in step

---
 fibertree/core/fiber.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 5e2da1b..c2032e3 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2133,6 +2133,13 @@ class Fiber:
 
         position = key
 
+        if position < 0:
+            # Handle negative indices
+            position += len(self.coords)
+
+        if position < 0 or position >= len(self.coords):
+            raise IndexError(f"The index ({key}) is out of range")
+
         #
         # TBD: Get isinstance of CoordPayload to work...
         #
@@ -2159,8 +2166,9 @@ class Fiber:
         #
         # A payload of None just updates the coordinate
         #
-        if payload is not None:
-            self.payloads[position] = Payload.maybe_box(payload)
+        if payload is not None and payload is not self.payloads[position]:
+            self._removeFromRanks(self.payloads[position])
+            self.payloads[position] = self._addToRanks(Payload.maybe_box(payload))
 
 
     def __len__(self):
@@ -2396,7 +2404,7 @@ class Fiber:
             assert self.maxCoord() is None or self.maxCoord() < coord, \
                    "Fiber coordinates in 'ordered' fibers must be monotonically increasing"
 
-        payload = Payload.maybe_box(value)
+        payload = self._addToRanks(Payload.maybe_box(value))
 
         self.coords.append(coord)
         self.payloads.append(payload)
@@ -2441,8 +2449,11 @@ class Fiber:
             assert self.maxCoord() is None or self.maxCoord() < other.coords[0], \
                 "Fiber coordinates in 'ordered' fibers must be monotonically increasing"
 
+            assert all(c0 < c1 for c0, c1 in zip(other.coords, other.coords[1:])), \
+                "Fiber coordinates in 'ordered' fibers must be monotonically increasing"
+
         self.coords.extend(other.coords)
-        self.payloads.extend(other.payloads)
+        self.payloads.extend([self._addToRanks(p) for p in other.payloads])
 
         return None
 
-- 
2.43.0


From dcc90c448eea84aa02ad099c110d377ea97d8a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:19 +0000
Subject: [PATCH 09/65] fix: make updateCoords() update every fiber at the
 depth, or none

---
 fibertree/core/fiber.py | 68 ++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 35 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index c2032e3..656fca9 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2520,55 +2520,53 @@ class Fiber:
 
         assert not self.isLazy()
 
-        if len(self.coords) == 0:
-            # Nothing to do
-            return None
-
         if rankid is not None:
             depth = self._rankid2depth(rankid)
 
-        if depth > 0:
-            # Recurse down to depth...
-            for p in self.payloads:
-                p.updateCoords(func, depth=depth - 1, new_shape=new_shape)
-                return None
+        # Find the fibers to update
+        fibers = [self]
 
-        # Update my coordinates
+        for _ in range(depth):
+            fibers = [Payload.get(p) for f in fibers for p in f.payloads]
 
-        no_sort_needed = True
+        # Compute all the new coordinates before changing anything
+        updates = []
 
-        last_coord = None
+        for f in fibers:
+            new_coords = [func(i, c, p)
+                          for i, (c, p) in enumerate(zip(f.coords, f.payloads))]
+            new_payloads = f.payloads
 
-        for i in range(len(self.coords)):
-            new_coord = func(i, self.coords[i], self.payloads[i])
-            self.coords[i] = new_coord
+            if f._ordered and any(c0 > c1 for c0, c1 in zip(new_coords, new_coords[1:])):
+                #
+                # Resort the coords/payloads
+                #
+                # self.logger.debug("Fiber.updateCoords() - sort needed")
 
-            no_sort_needed = no_sort_needed and ((last_coord is None) or (last_coord <= new_coord))
-            last_coord = new_coord
+                sorted_cp = sorted(zip(new_coords, new_payloads), key=lambda cp: cp[0])
+                new_coords, new_payloads = [list(tuple) for tuple in zip(*sorted_cp)]
 
-        if self._ordered and not no_sort_needed:
-            #
-            # Resort the coords/payloads
-            #
-            # self.logger.debug("Fiber.updateCoords() - sort needed")
+            if f._ordered and f._unique \
+                    and any(c0 == c1 for c0, c1 in zip(new_coords, new_coords[1:])):
+                raise CoordinateError
 
-            zipped_cp = zip(self.coords, self.payloads)
-            sorted_cp = sorted(zipped_cp)
-            self.coords, self.payloads = [list(tuple) for tuple in zip(*sorted_cp)]
+            updates.append((f, new_coords, new_payloads))
 
-        #
-        # Update the fiber's rank_id and/or shape
-        #
-        if new_rank_id is not None:
-            self.getRankAttrs().setId(new_rank_id)
+        # Update the coordinates and each fiber's rank_id and/or shape
+        for f, new_coords, new_payloads in updates:
+            f.coords, f.payloads = new_coords, new_payloads
+
+            if new_rank_id is not None:
+                f.getRankAttrs().setId(new_rank_id)
 
-        if new_shape is not None:
-            self.getRankAttrs().setShape(new_shape)
+            if new_shape is not None:
+                f.getRankAttrs().setShape(new_shape)
 
-        new_shape = self.getRankAttrs().getShape()
+            shape = f.getRankAttrs().getShape()
 
-        assert isinstance(new_shape, type(self.coords[0])), \
-            "Type of shape must match shape of coordinates"
+            assert shape is None or len(f.coords) == 0 \
+                or isinstance(shape, type(f.coords[0])), \
+                "Type of shape must match shape of coordinates"
 
         return None
 
-- 
2.43.0


From 8b5dae5db249d8557f2702ab445cc2e87527c78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:19 +0000
Subject: [PATCH 10/65] fix: write updatePayloads() results to the right
 positions, boxed

---
 fibertree/core/fiber.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 656fca9..5250956 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2610,14 +2610,33 @@ class Fiber:
         if rankid is not None:
             depth = self._rankid2depth(rankid)
 
+        return self._updatePayloads(func, depth)
+
+    def _updatePayloads(self, func, depth, update_ranks=True):
+        """Update the payloads of the fibers at `depth`
+
+        The transforms that change the depth of the tree, and thus do not fit
+        the ranks of the owner, do not update those ranks.
+
+        """
         if depth > 0:
             # Recurse down to depth...
             for p in self.payloads:
-                p.updatePayloads(func, depth=depth - 1)
+                p._updatePayloads(func, depth - 1, update_ranks)
         else:
             # Update my payloads
-            for i, (c, p) in enumerate(self.iterOccupancy(tick=False)):
-                self.payloads[i] = func(i, c, p)
+            default = self.getDefault()
+            for i, (c, p) in enumerate(zip(self.coords, self.payloads)):
+                if Payload.isEmpty(p, default=default):
+                    continue
+
+                new_payload = Payload.maybe_box(func(i, c, p))
+
+                if new_payload is not p and update_ranks:
+                    self._removeFromRanks(p)
+                    new_payload = self._addToRanks(new_payload)
+
+                self.payloads[i] = new_payload
 
         return None
 
@@ -4604,7 +4623,7 @@ class Fiber:
         """
 
         update_lambda = lambda i, c, p: func(p, *args, **kwargs)
-        return self.updatePayloads(update_lambda, depth=depth)
+        return self._updatePayloads(update_lambda, depth, update_ranks=False)
 
 
     splitUniformBelow = partialmethod(updatePayloadsBelow,
-- 
2.43.0


From 7f96a9c3af3dcc4d2099e238743bcad1dcd7d158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:32 +0000
Subject: [PATCH 11/65] fix: do not overwrite an owned rank's default in fiber
 assignment

---
 fibertree/core/fiber.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 5250956..40c7d90 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -3076,14 +3076,24 @@ class Fiber:
         assert Payload.contains(other, Fiber)
         assert self._unique
 
+        #
+        # Get the new elements first, because `other` may be (part of) `self`
+        #
+        elements = list(other)
+
         if len(self.coords) != 0:
             #
             # Clear out any existing data
             #
             self.clear()
 
-        self._setDefault(other.getDefault())
-        for c, p in other:
+        if self.getOwner() is None:
+            #
+            # The default of an owned fiber is that of its rank
+            #
+            self._setDefault(other.getDefault())
+
+        for c, p in elements:
             ref = self.getPayloadRef(c)
             ref <<= p
 
-- 
2.43.0


From d35362affb9a32f28ecb8b8f5ee9d523a326bcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:40 +0000
Subject: [PATCH 12/65] fix: splits of partitions outside every boundary,
 shared halo payloads, relative active ranges, uncompressed ranks

---
 fibertree/core/fiber.py | 42 +++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 40c7d90..f0e3e61 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -3544,7 +3544,7 @@ class Fiber:
 
                 search_start = 0
 
-                for c, p in self.fiber.__iter__(tick=False):
+                for c, p in self.fiber.iterOccupancy(tick=False):
                     # If the coordinate will not be in any partition, skip it
                     if c < active_start - self.pre_halo:
                         continue
@@ -3577,23 +3577,32 @@ class Fiber:
                             lower_coords.append([])
                             lower_payloads.append([])
 
+                        # Only the first partition can have the original payload
+                        if inds:
+                            p = Fiber._copyPayload(p)
+
                         inds.append(i)
                         lower_coords[i].append(c)
                         lower_payloads[i].append(p)
 
                         part += self.step
 
-                    search_start = min(inds)
+                    # The coordinate may not be in any of the partitions
+                    if inds:
+                        search_start = min(inds)
 
                 for uc, lc, lp in zip(upper_coords, lower_coords, lower_payloads):
                     yield self.build_elem(uc, lc, lp)
 
             def build_elem(self, part, coords, payloads):
+                range_start = max(part, self.fiber.getActive()[0])
+                range_end = min(part + self.step, self.fiber.getActive()[1])
+
                 if relativeCoords:
                     coords = [c - part for c in coords]
+                    range_start -= part
+                    range_end -= part
 
-                range_start = max(part, self.fiber.getActive()[0])
-                range_end = min(part + self.step, self.fiber.getActive()[1])
                 active_range = (range_start, range_end)
 
                 return part, coords, payloads, active_range
@@ -3727,7 +3736,7 @@ class Fiber:
 
                 search_start = 0
 
-                for c, p in self.fiber.__iter__(tick=False):
+                for c, p in self.fiber.iterOccupancy(tick=False):
                     if c < halo_start:
                         continue
 
@@ -3755,13 +3764,19 @@ class Fiber:
                         elif c < self.sub_pre_halo(self.splits[i]):
                             break
 
+                        # Only the first partition can have the original payload
+                        if inds:
+                            p = Fiber._copyPayload(p)
+
                         inds.append(i)
                         lower_coords[i].append(c)
                         lower_payloads[i].append(p)
 
                         i += 1
 
-                    search_start = min(inds)
+                    # The coordinate may not be in any of the partitions
+                    if inds:
+                        search_start = min(inds)
 
                 for i, (lc, lp) in enumerate(zip(lower_coords, lower_payloads)):
                     if lc:
@@ -3773,11 +3788,14 @@ class Fiber:
                 return coord
 
             def build_elem(self, ind, coords, payloads):
+                range_start = max(self.splits[ind], self.fiber.getActive()[0])
+                range_end = min(self.splits[ind + 1], self.fiber.getActive()[1])
+
                 if relative:
                     coords = [c - self.splits[ind] for c in coords]
+                    range_start -= self.splits[ind]
+                    range_end -= self.splits[ind]
 
-                range_start = max(self.splits[ind], self.fiber.getActive()[0])
-                range_end = min(self.splits[ind + 1], self.fiber.getActive()[1])
                 active_range = (range_start, range_end)
 
                 return self.splits[ind], coords, payloads, active_range
@@ -4685,6 +4703,14 @@ class Fiber:
         """
         return pickle.loads(pickle.dumps(self))
 
+    @staticmethod
+    def _copyPayload(payload):
+        """A copy of a payload (not owned by any rank, if it is a fiber)"""
+        if isinstance(payload, Fiber):
+            return payload.copy(preserve_owner=False)
+
+        return copy.deepcopy(payload)
+
     def _detach_owner(self):
         """Detatch the owner from this fiber and its children"""
         owners = {}
-- 
2.43.0


From 1f6a46d057964cd921bf5c6fabc7f38fdae70c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:12 +0000
Subject: [PATCH 13/65] fix: rank transforms of trees with empty sub-fibers,
 flattened rank ids and partial collisions

---
 fibertree/core/fiber.py  | 54 +++++++++++++++++++++++++++-------------
 fibertree/core/tensor.py | 51 ++++++++++++++++++-------------------
 2 files changed, 61 insertions(+), 44 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index f0e3e61..9f7c836 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2616,7 +2616,8 @@ class Fiber:
         """Update the payloads of the fibers at `depth`
 
         The transforms that change the depth of the tree, and thus do not fit
-        the ranks of the owner, do not update those ranks.
+        the ranks of the owner, do not update those ranks and apply to the
+        empty payloads as well.
 
         """
         if depth > 0:
@@ -2627,7 +2628,7 @@ class Fiber:
             # Update my payloads
             default = self.getDefault()
             for i, (c, p) in enumerate(zip(self.coords, self.payloads)):
-                if Payload.isEmpty(p, default=default):
+                if update_ranks and Payload.isEmpty(p, default=default):
                     continue
 
                 new_payload = Payload.maybe_box(func(i, c, p))
@@ -4130,6 +4131,13 @@ class Fiber:
         assert not self.isLazy()
         assert self._ordered and self._unique
 
+        # Make sure that the fiber has at least one coordinate
+        assert(len(self.coords) > 0)
+
+        return self._swapRanks()
+
+    def _swapRanks(self):
+        """Swap the (highest) two ranks of a fiber that may be empty"""
         #
         # Flatten the (highest) two ranks
         #
@@ -4137,8 +4145,9 @@ class Fiber:
         # does the deepcopy for us
         flattened = self.flattenRanks(style="pair")
 
-        # Make sure that the flattened fiber has at least one coordinate
-        assert(len(flattened.coords) > 0)
+        # Without any coordinate there is nothing to swap
+        if len(flattened.coords) == 0:
+            return Fiber(default=Fiber())
 
         # Make sure the coord is a >=2-element tuple
         assert(len(flattened.coords[0]) >= 2)
@@ -4375,7 +4384,7 @@ class Fiber:
             default = p1.getDefault()
 
             low_shape = p1.getShape(all_ranks=False, authoritative=True)
-            for c0, p0 in p1:
+            for c0, p0 in p1.iterOccupancy(tick=False):
                 new_coord = self._flattenCoords(c1,
                                                 c0,
                                                 style=style,
@@ -4441,17 +4450,23 @@ class Fiber:
         if not isinstance(to_merge[0], Fiber):
             return merge_fn(to_merge)
 
-        # Merge fibers together
-        coords = []
-        payloads = []
-        union_fiber = union(*to_merge)
-        for c, ps in union_fiber:
-            coords.append(c)
-            new_merge = Payload.get(ps)[1:]
-            payloads.append(Fiber._mergeToFibertree(new_merge, merge_fn))
+        # Merge fibers together, combining only the payloads that are there
+        to_combine = {}
+        for fiber in to_merge:
+            for c, p in fiber.iterOccupancy(tick=False):
+                to_combine.setdefault(c, []).append(p)
 
-        result = Fiber(coords, payloads, active_range=union_fiber.getActive())
-        return result
+        coords = sorted(to_combine)
+        payloads = [Fiber._mergeToFibertree(to_combine[c], merge_fn)
+                    for c in coords]
+
+        starts, ends = zip(*(fiber.getActive() for fiber in to_merge))
+
+        return Fiber(coords,
+                     payloads,
+                     default=to_merge[0].getDefault(),
+                     shape=to_merge[0].getShape(all_ranks=False, authoritative=True),
+                     active_range=(min(starts), max(ends)))
 
 
     def unflattenRanks(self, levels=1):
@@ -4488,9 +4503,14 @@ class Fiber:
         """
 
         assert not self.isLazy()
-        assert isinstance(self.coords[0], tuple)
         assert self._ordered and self._unique
 
+        # Without any coordinate there is nothing to unflatten
+        if len(self.coords) == 0:
+            return Fiber(default=Fiber())
+
+        assert isinstance(self.coords[0], tuple)
+
         #
         # Place to collect cordinates/payloads for new top rank
         #
@@ -4667,7 +4687,7 @@ class Fiber:
                                       splitUnEqual)
 
     swapRanksBelow = partialmethod(updatePayloadsBelow,
-                                   swapRanks)
+                                   _swapRanks)
 
     flattenRanksBelow = partialmethod(updatePayloadsBelow,
                                       flattenRanks)
diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index 2a3b92d..16f49b6 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -1395,7 +1395,7 @@ class Tensor:
         """
         # Ensure that these old and new rank_ids are permutations of each other
         old_rank_ids = self.getRankIds()
-        assert sorted(old_rank_ids) == sorted(rank_ids)
+        assert sorted(old_rank_ids, key=str) == sorted(rank_ids, key=str)
 
         old_name = self.getName()
         copied = copy.deepcopy(self)
@@ -1421,7 +1421,7 @@ class Tensor:
         frontier = [(copied.getRoot(), None, None, -1)]
         frontier_coords = [None] * swiz_len
 
-        ranges = {rank: set() for rank in old_rank_ids}
+        ranges = [set() for _ in old_rank_ids]
 
         # Depth-first search through the fibertree and extract the coordinate
         # payload pairs
@@ -1431,7 +1431,7 @@ class Tensor:
                 frontier_coords[depth] = coord
 
             if parent is not None:
-                ranges[parent.getRankAttrs().getId()].add(parent.getActive())
+                ranges[depth].add(parent.getActive())
 
             # If this is the last point we need to swizzle, save the payload
             if depth == swiz_len - 1:
@@ -1488,23 +1488,27 @@ class Tensor:
         swizzled = Tensor.fromFiber(**kwargs)
 
         # For each fiber, reset its active range
-        frontier = [swizzled.getRoot()]
+        frontier = [(swizzled.getRoot(), 0)]
         while frontier:
-            fiber = frontier.pop()
-            rank = fiber.getRankAttrs().getId()
-            rank_ranges = ranges[rank]
+            fiber, depth = frontier.pop()
+            if depth == swiz_len:
+                continue
 
-            if not fiber.isEmpty() and rank_ranges:
-                starts = [range_[0] for range_ in rank_ranges if range_[0] <= fiber.coords[0] and range_[1] > fiber.coords[0]]
-                start = min(starts)
+            rank_ranges = ranges[guide[depth]]
 
+            if len(fiber.coords) > 0 and rank_ranges:
+                starts = [range_[0] for range_ in rank_ranges if range_[0] <= fiber.coords[0] and range_[1] > fiber.coords[0]]
                 ends = [range_[1] for range_ in rank_ranges if range_[0] <= fiber.coords[-1] and range_[1] > fiber.coords[-1]]
-                end = max(ends)
+
+                # A coordinate may be outside all of the ranges (e.g., because
+                # it is in a halo), then none of the ranges is preferred
+                start = min(starts or [range_[0] for range_ in rank_ranges])
+                end = max(ends or [range_[1] for range_ in rank_ranges])
 
                 fiber.setActive((start, end))
 
                 if isinstance(fiber.payloads[0], Fiber):
-                    frontier.extend(fiber.payloads)
+                    frontier.extend((p, depth + 1) for p in fiber.payloads)
 
         return swizzled
 
@@ -1546,13 +1550,9 @@ class Tensor:
         #
         shape = None
 
-        # Only call Fiber.swapRanks if there are actually payloads to swap
-        if not all(fiber.isEmpty() for fiber in self.ranks[depth].fibers):
-            root = self._modifyRoot(Fiber.swapRanks,
-                                    Fiber.swapRanksBelow,
-                                    depth=depth)
-        else:
-            root = copy.deepcopy(self.getRoot())
+        root = self._modifyRoot(Fiber._swapRanks,
+                                Fiber.swapRanksBelow,
+                                depth=depth)
 
         #
         # Create Tensor from rank_ids and root fiber
@@ -1772,15 +1772,12 @@ class Tensor:
         rank_ids, shape = self._unflattenRankIdsShape(depth, levels, style)
 
         #
-        # Call Fiber.unflattenRanks if there are actually ranks to unflatten
+        # Create new root fiber
         #
-        if not all(fiber.isEmpty() for fiber in self.ranks[depth].fibers):
-            root = self._modifyRoot(Fiber.unflattenRanks,
-                                    Fiber.unflattenRanksBelow,
-                                    depth=depth,
-                                    levels=levels)
-        else:
-            root = Fiber()
+        root = self._modifyRoot(Fiber.unflattenRanks,
+                                Fiber.unflattenRanksBelow,
+                                depth=depth,
+                                levels=levels)
 
         #
         # Create Tensor from rank_ids and root fiber
-- 
2.43.0


From ddf2643278022a3007cc437ec2604428dc31ca0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:39 +0000
Subject: [PATCH 14/65] fix: random fibers with a non-zero default are
 well-formed and full at density 1

---
 fibertree/core/fiber.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 9f7c836..7a627cf 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -499,6 +499,11 @@ class Fiber:
             if random.random() < density[0]:
                 if len(shape) == 1:
                     payload = random.randint(1, interval)
+
+                    # The default would not be an element of the fiber
+                    while payload == default and interval > 1:
+                        payload = random.randint(1, interval)
+
                     if payload == default:
                         continue
                 else:
@@ -512,7 +517,14 @@ class Fiber:
                 if default == 0:
                     continue
 
-                payload = 0
+                if len(shape) == 1:
+                    payload = 0
+                else:
+                    # Everything below is zero, which is not the default
+                    payload = Fiber.fromRandom(shape[1:],
+                                               (len(shape) - 1) * [0.0],
+                                               interval,
+                                               default=default)
 
             coords.append(c)
             payloads.append(payload)
-- 
2.43.0


From f7f458ee5fa7452b8f6ec4b4cabb4aa08de81192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:22 +0000
Subject: [PATCH 15/65] fix: rank ids, shapes, defaults, formats and active
 ranges of transformed tensors

---
 fibertree/core/fiber.py  | 72 ++++++++++++++++++++++++++--------------
 fibertree/core/tensor.py | 43 +++++++++++++++---------
 2 files changed, 75 insertions(+), 40 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 7a627cf..2960c64 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2808,7 +2808,7 @@ class Fiber:
         if len(shape) < level + 1:
             shape.append(new_shape)
         else:
-            shape[level] = max(shape[level], Fiber._transCoord(max_coord))
+            shape[level] = max(shape[level], new_shape)
 
         #
         # Recursively process payloads that are Fibers
@@ -4173,7 +4173,14 @@ class Fiber:
         coords = [c for c, _ in sorted_cp]
         payloads = [p for _, p in sorted_cp]
 
-        flattened_sorted = Fiber(coords, payloads, default=flattened.getDefault())
+        shape = flattened.getRankAttrs().getShape()
+        if shape is not None:
+            shape = shape[::-1]
+
+        flattened_sorted = Fiber(coords,
+                                 payloads,
+                                 shape=shape,
+                                 default=flattened.getDefault())
 
         #
         # Unflatten to get original coordinates in swapped ranks
@@ -4387,11 +4394,13 @@ class Fiber:
             if not Payload.contains(p1, Fiber):
                 raise PayloadError
 
-            if i == 0:
-                range_start, range_end = p1.getActive()
-            else:
-                range_start = min(range_start, p1.getActive()[0])
-                range_end = max(range_end, p1.getActive()[1])
+            # Note: an empty fiber may not know the structure of its coordinates
+            if len(p1.coords) > 0:
+                if range_start is None:
+                    range_start, range_end = p1.getActive()
+                else:
+                    range_start = min(range_start, p1.getActive()[0])
+                    range_end = max(range_end, p1.getActive()[1])
 
             default = p1.getDefault()
 
@@ -4422,28 +4431,29 @@ class Fiber:
             elif style == "pair":
                 shape = (up_shape, low_shape)
             elif style == "tuple":
-                if isinstance(low_shape, tuple):
-                    shape = (up_shape,) + low_shape
-                else:
-                    shape = (up_shape, low_shape)
-
-
+                shape = self._flattenCoords(up_shape, low_shape, style=style)
 
         # Compute the active range
         active_range = None
-
-        if range_start is None:
-            range_start = 0
-            range_end = float("inf")
+        up_start, up_end = self.getActive()
 
         if style == "tuple" or style == "pair":
-            active_range = ((self.getActive()[0], range_start), (self.getActive()[1], range_end))
+            # Note: if there are no coordinates the active range is the shape
+            if range_start is not None:
+                active_range = (self._flattenCoords(up_start, range_start, style=style),
+                                self._flattenCoords(up_end, range_end, style=style))
         elif style == "relative":
-            active_range = self.getActive()
+            active_range = (up_start, up_end)
         elif style == "absolute":
-            active_range = self.getActive()
+            active_range = (up_start, up_end)
+
+            # Unless the ranks came from a split, the coordinates of the upper
+            # rank say nothing about the ones of the lower rank
+            if range_start is not None \
+                    and (range_start < up_start or range_end > up_end):
+                active_range = (range_start, range_end)
         elif style == "linear":
-            active_range = (0, float("inf"))
+            active_range = (0, shape if shape else float("inf"))
 
         return Fiber(coords, merged_payloads, default=default, active_range=active_range, shape=shape)
 
@@ -4523,6 +4533,17 @@ class Fiber:
 
         assert isinstance(self.coords[0], tuple)
 
+        #
+        # Separate the shape like the coordinates
+        #
+        shape1 = None
+        shape0 = None
+
+        shape = self.getRankAttrs().getShape()
+        if isinstance(shape, tuple):
+            shape1 = shape[0]
+            shape0 = shape[1:] if len(shape) > 2 else shape[1]
+
         #
         # Place to collect cordinates/payloads for new top rank
         #
@@ -4569,6 +4590,7 @@ class Fiber:
 
                     cur_fiber = Fiber(coords0,
                                       payloads0,
+                                      shape=shape0,
                                       default=self.getDefault())
 
                     if levels > 1:
@@ -4601,6 +4623,7 @@ class Fiber:
 
         fiber0 = Fiber(coords0,
                        payloads0,
+                       shape=shape0,
                        default=self.getDefault())
 
 
@@ -4615,9 +4638,10 @@ class Fiber:
         #
         # Create (and return) the new top (c1) rank
         #
-        fiber1 = self._newFiber(coords1,
-                                payloads1,
-                                default=Fiber())
+        fiber1 = Fiber(coords1,
+                       payloads1,
+                       shape=shape1,
+                       default=Fiber())
 
         return fiber1
 
diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index 16f49b6..461053a 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -1322,10 +1322,17 @@ class Tensor:
         #
         # Determine depth
         #
-        if "rankid" in kwargs:
-            depth = rank_ids.index(kwargs["rankid"])
+        # Note: the arguments are the ones of the Fiber.split*() methods, i.e.,
+        #       (partitioning, relativeCoords, depth, rankid, ...)
+        #
+        rankid = kwargs.get("rankid", args[3] if len(args) > 3 else None)
+
+        if rankid is not None:
+            depth = rank_ids.index(rankid)
         elif "depth" in kwargs:
             depth = kwargs["depth"]
+        elif len(args) > 2:
+            depth = args[2]
         else:
             depth = 0
 
@@ -1358,15 +1365,9 @@ class Tensor:
         tensor.setDefault(self.getDefault())
 
         # Maintain the formats
-        for rank_id in tensor.getRankIds():
-            if rank_id == id + ".1":
-                old_id = id
-            elif rank_id == id + ".0":
-                old_id = id
-            else:
-                old_id = rank_id
-            tensor.setFormat(rank_id, self.getFormat(old_id))
-
+        for i, rank in enumerate(tensor.ranks):
+            old_i = i if i <= depth else i - 1
+            rank.setFormat(self.ranks[old_i].getFormat())
 
         return tensor
 
@@ -1486,6 +1487,11 @@ class Tensor:
             kwargs["shape"] = new_shape
 
         swizzled = Tensor.fromFiber(**kwargs)
+        swizzled.setMutable(self.isMutable())
+
+        # Maintain the formats
+        for i, rank in enumerate(swizzled.ranks):
+            rank.setFormat(self.ranks[guide[i]].getFormat())
 
         # For each fiber, reset its active range
         frontier = [(swizzled.getRoot(), 0)]
@@ -1546,9 +1552,9 @@ class Tensor:
         #
         # Create new shape list
         #
-        # TBD: Create shape
-        #
-        shape = None
+        shape = copy.deepcopy(self.getShape(authoritative=True))
+        if shape:
+            shape[depth], shape[depth + 1] = shape[depth + 1], shape[depth]
 
         root = self._modifyRoot(Fiber._swapRanks,
                                 Fiber.swapRanksBelow,
@@ -1692,8 +1698,9 @@ class Tensor:
                     new_shape.append(shape)
 
                 # Shape: [S0, S1, ... SN] -> (S0, S1, ... SN)
+                # (like the coordinates, tuple shapes are concatenated)
                 elif coord_style == "tuple":
-                    curr_shape += (shape,)
+                    curr_shape += shape if isinstance(shape, tuple) else (shape,)
                     if i == depth + levels:
                         new_shape.append(curr_shape)
 
@@ -1786,6 +1793,7 @@ class Tensor:
         tensor.setName(self.getName() + "+unflattened")
         tensor.setColor(self.getColor())
         tensor.setMutable(self.isMutable())
+        tensor.setDefault(self.getDefault())
 
         # Maintain the formats for all untouched rank_ids
         # Compress everything else
@@ -1822,7 +1830,10 @@ class Tensor:
         #
         # Create new shape list
         #
-        shape = copy.deepcopy(self.getShape())
+        shape = copy.deepcopy(self.getShape(authoritative=True))
+
+        if shape is None:
+            return rank_ids, shape
 
         for d in range(levels):
             s = shape[depth + d]
-- 
2.43.0


From f22366d015699a465094adf2a8cbcbb80513ab25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:17 +0000
Subject: [PATCH 16/65] fix: copy fibers that belong to another tensor in
 setRoot()

---
 fibertree/core/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index 461053a..c7759f3 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -711,11 +711,11 @@ class Tensor:
         assert isinstance(root, Fiber)
 
         #
-        # Copy fiber if it already belongs to another tensor
+        # Copy fiber if any part of it already belongs to another tensor
         #
         # Note: shapes and owners will be overwritten in _addFiber()
         #
-        if root.getOwner() is not None:
+        if root._hasOwner():
             root = deepcopy(root.copy(preserve_owner=False))
 
         self._root = root
-- 
2.43.0


From 23fd29a78d8eee54df1926b884fe5a5ac0e36263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:02 +0000
Subject: [PATCH 17/65] fix: compare fibers by their non-empty elements in
 every format

---
 fibertree/core/fiber.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 2960c64..0bf8dd5 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -14,7 +14,7 @@ import bisect
 import copy
 import sys
 from functools import partialmethod
-from itertools import product
+from itertools import product, zip_longest
 
 import numbers
 import pickle
@@ -4810,14 +4810,14 @@ class Fiber:
         if not isinstance(other, Fiber):
             return False
 
-        for c, (mask, ps, po) in self | other:
-            if mask == "A":
+        # Note: only the non-empty elements matter, whatever the rank's format
+        # (or active range) is
+        for cp_s, cp_o in zip_longest(self.iterOccupancy(tick=False),
+                                      other.iterOccupancy(tick=False)):
+            if cp_s is None or cp_o is None:
                 return False
 
-            if mask == "B":
-                return False
-
-            if mask == "AB" and ps != po:
+            if cp_s.coord != cp_o.coord or cp_s.payload != cp_o.payload:
                 return False
 
         return True
-- 
2.43.0


From ada662e3315e55d88a6b9e9c49f5cf16512b231c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:53 +0000
Subject: [PATCH 18/65] fix: Fiber.unflattenRanks returns fibers with payloads
 of their own

---
 fibertree/core/fiber.py  | 13 +++++++++----
 fibertree/core/tensor.py |  2 +-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 0bf8dd5..1eeee2b 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4185,7 +4185,7 @@ class Fiber:
         #
         # Unflatten to get original coordinates in swapped ranks
         #
-        swapped = flattened_sorted.unflattenRanks()
+        swapped = flattened_sorted._unflattenRanks()
 
         return swapped
 
@@ -4527,6 +4527,11 @@ class Fiber:
         assert not self.isLazy()
         assert self._ordered and self._unique
 
+        # The payloads of the result should not be the ones of this fiber
+        return copy.deepcopy(self)._unflattenRanks(levels=levels)
+
+    def _unflattenRanks(self, levels=1):
+        """Unflatten a rank without copying the payloads"""
         # Without any coordinate there is nothing to unflatten
         if len(self.coords) == 0:
             return Fiber(default=Fiber())
@@ -4594,7 +4599,7 @@ class Fiber:
                                       default=self.getDefault())
 
                     if levels > 1:
-                        cur_fiber = cur_fiber.unflattenRanks(levels=levels - 1)
+                        cur_fiber = cur_fiber._unflattenRanks(levels=levels - 1)
 
                     payloads1.append(cur_fiber)
 
@@ -4631,7 +4636,7 @@ class Fiber:
         # Conditionally recurse
         #
         if levels > 1:
-            fiber0 = fiber0.unflattenRanks(levels=levels - 1)
+            fiber0 = fiber0._unflattenRanks(levels=levels - 1)
 
         payloads1.append(fiber0)
 
@@ -4729,7 +4734,7 @@ class Fiber:
                                       flattenRanks)
 
     unflattenRanksBelow = partialmethod(updatePayloadsBelow,
-                                        unflattenRanks)
+                                        _unflattenRanks)
 
 #
 # Copy operation
diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index c7759f3..12448cb 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -1781,7 +1781,7 @@ class Tensor:
         #
         # Create new root fiber
         #
-        root = self._modifyRoot(Fiber.unflattenRanks,
+        root = self._modifyRoot(Fiber._unflattenRanks,
                                 Fiber.unflattenRanksBelow,
                                 depth=depth,
                                 levels=levels)
-- 
2.43.0


From 58087baea311e3b34aafe223aa64a958ac59cb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:53 +0000
Subject: [PATCH 19/65] fix: Fiber.nonEmpty copies the leaf payloads

---
 fibertree/core/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 1eeee2b..e2d3070 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2274,7 +2274,7 @@ class Fiber:
                 if Payload.contains(p, Fiber):
                     payloads.append(p.nonEmpty())
                 else:
-                    payloads.append(p)
+                    payloads.append(copy.deepcopy(p))
 
         return self._newFiber(coords, payloads)
 
-- 
2.43.0


From 88f012b4faa41dfdedb00d97f0ebccdd418febc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:29 +0000
Subject: [PATCH 20/65] fix: bound tuple coordinates per component, and split
 and projected active ranges

---
 fibertree/core/fiber.py  | 49 ++++++++++++++++++++++++++++++++++++----
 fibertree/core/rank.py   | 19 ++++++++++++----
 fibertree/core/tensor.py |  2 +-
 3 files changed, 60 insertions(+), 10 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index e2d3070..74f18c4 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -1386,11 +1386,18 @@ class Fiber:
             min_, max_ = interval
 
         else:
-            start = trans_fn(self.getActive()[0])
-            end = trans_fn(Fiber._transCoord(self.getActive()[1], lambda c: c - 1))
+            active_start, active_end = self.getActive()
 
-            min_ = min(start, end)
-            max_ = Fiber._transCoord(max(start, end), lambda c: c + 1)
+            if active_start < active_end:
+                start = trans_fn(active_start)
+                end = trans_fn(Fiber._transCoord(active_end, lambda c: c - 1))
+
+                min_ = min(start, end)
+                max_ = Fiber._transCoord(max(start, end), lambda c: c + 1)
+
+            else:
+                # An empty active range stays empty
+                min_ = max_ = trans_fn(active_start)
 
         result = Fiber.fromIterator(project_iterator, active_range=(min_, max_))
         result._setDefault(self.getDefault())
@@ -2804,11 +2811,17 @@ class Fiber:
         #
         # Update shape for this Fiber at this level
         #
+        # Note: tuple coordinates have a bound in each of their components
+        #
+        if isinstance(max_coord, tuple):
+            for c in self.coords:
+                max_coord = Fiber._maxShape(max_coord, c)
+
         new_shape = Fiber._transCoord(max_coord, lambda c: c + 1)
         if len(shape) < level + 1:
             shape.append(new_shape)
         else:
-            shape[level] = max(shape[level], new_shape)
+            shape[level] = Fiber._maxShape(shape[level], new_shape)
 
         #
         # Recursively process payloads that are Fibers
@@ -2819,6 +2832,25 @@ class Fiber:
 
         return shape
 
+    @staticmethod
+    def _maxShape(a, b):
+        """Smallest shape covering two shapes of the same rank
+
+        Shapes of ranks with tuple coordinates are tuples, whose maximum is
+        taken component by component. An empty fiber has the shape 0.
+
+        """
+        if isinstance(a, tuple) and isinstance(b, tuple):
+            return tuple(Fiber._maxShape(x, y) for x, y in zip(a, b))
+
+        if isinstance(a, tuple):
+            return a
+
+        if isinstance(b, tuple):
+            return b
+
+        return max(a, b)
+
     @staticmethod
     def _transCoord(coord, trans_fn=lambda c: c):
         """Translate all integers of a coordinate according to the function,
@@ -4057,6 +4089,13 @@ class Fiber:
             upper.coords.append(part)
             upper.payloads.append(lower)
 
+        #
+        # The first partition may start before the active range
+        #
+        active_start, active_end = upper.getActive()
+        if upper.coords and upper.coords[0] < active_start:
+            upper.setActive((upper.coords[0], active_end))
+
         return upper
 
 #
diff --git a/fibertree/core/rank.py b/fibertree/core/rank.py
index 96ded99..948150d 100644
--- a/fibertree/core/rank.py
+++ b/fibertree/core/rank.py
@@ -221,7 +221,7 @@ class Rank:
                 #
                 # We do not actually know the shape, but we can estimate it
                 #
-                return max([f.estimateShape(all_ranks=False) for f in self.fibers])
+                return self._estimateShape()
 
             return self._attrs.getShape()
 
@@ -239,7 +239,7 @@ class Rank:
         elif len(self.fibers) == 0:
             shape = [0]
         else:
-            shape = [max([f.estimateShape(all_ranks=False) for f in self.fibers])]
+            shape = [self._estimateShape()]
 
         if self.next_rank is not None:
             rest_of_shape = self.next_rank.getShape(all_ranks=True, authoritative=authoritative)
@@ -257,6 +257,16 @@ class Rank:
         return shape
 
 
+    def _estimateShape(self):
+        """Estimate the shape from the fibers in the rank"""
+        shape = 0
+
+        for fiber in self.fibers:
+            shape = fiber._maxShape(shape, fiber.estimateShape(all_ranks=False))
+
+        return shape
+
+
     def getFibers(self):
         """Return list of fibers in the rank.
 
@@ -455,9 +465,10 @@ class Rank:
             old = self._attrs.getShape()
             new = fiber.getShape(all_ranks=False)
             if old is None and new != 0:
-                self._attrs.setShape(new)
+                # Note: cover the fibers already in the rank, too
+                self._attrs.setShape(type(fiber)._maxShape(self._estimateShape(), new))
             elif new != 0:
-                self._attrs.setShape(max(old, new))
+                self._attrs.setShape(type(fiber)._maxShape(old, new))
 
         #
         # Set this rank as owner of the fiber
diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index 12448cb..e2fd5a4 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -743,7 +743,7 @@ class Tensor:
 
             if rank_shape:
                 try:
-                    attrs.setShape(max(fiber_shape, rank_shape))
+                    attrs.setShape(Fiber._maxShape(fiber_shape, rank_shape))
                 except Exception:
                     attrs.setShape(rank_shape)
             else:
-- 
2.43.0


From 4525ae208c16cfd1f0342b0386d91c8b947c0720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:09 +0000
Subject: [PATCH 21/65] fix: create defaults for every level below a free
 fiber, and search from unusable shortcuts safely

---
 fibertree/core/fiber.py     | 38 +++++++++++++++++++++++++++++--------
 fibertree/core/iterators.py |  4 ++--
 2 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 74f18c4..059cdfc 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -280,6 +280,9 @@ class Fiber:
         #
         self.getRankAttrs().setDefault(Payload.maybe_box(default))
 
+        # Defaults of the levels below (only for fibers created as a default)
+        self._defaults_below = []
+
         #
         # Initialize "saved position"
         #
@@ -1654,13 +1657,30 @@ class Fiber:
 
         default = self.getDefault()
 
-        a_payload = (self.payloads or [None])[0]
-        if isinstance(a_payload, Fiber):
-            next_default = a_payload.getDefault()
-        else:
-            next_default = None
+        defaults_below = [] if owner is not None else self._getDefaultsBelow()
+        next_default = (defaults_below or [None])[0]
+
+        payload = Fiber._instantiateDefault(owner, default, next_default, addtorank)
+
+        if isinstance(payload, Fiber):
+            payload._defaults_below = defaults_below[1:]
+
+        return payload
+
+    def _getDefaultsBelow(self):
+        """Defaults of the levels below an unowned fiber, top to bottom
+
+        These are found in the fibers below, or, if there are none yet, were
+        recorded when this fiber was itself created as a default.
+
+        """
+        if len(self.payloads) == 0 or not isinstance(self.payloads[0], Fiber):
+            return self._defaults_below
+
+        # Prefer a fiber that itself shows what is below it
+        fiber = next((f for f in self.payloads if len(f.payloads) > 0), self.payloads[0])
 
-        return Fiber._instantiateDefault(owner, default, next_default, addtorank)
+        return [fiber.getDefault()] + fiber._getDefaultsBelow()
 
 
     @staticmethod
@@ -5217,9 +5237,11 @@ class Fiber:
             #
             # Find coordinate in an ordered fiber
             #
-            if start_pos is None:
+            if start_pos is None or not 0 <= start_pos <= len(coords) \
+                    or (start_pos > 0 and coords[start_pos - 1] >= coord):
                 #
-                # Do a bisection search
+                # Do a bisection search (also if `start_pos` is already past the
+                # coordinate)
                 #
                 index = bisect.bisect_left(coords, coord)
             else:
diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index ab31e09..1ee7a4a 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -1237,7 +1237,7 @@ def __lshift__(self, other, start_pos=None):
                     # We did not actually insert anything, we need to undo the
                     # += 1 from later
                     a_pos -= 1
-                    self.a_fiber.setSavedPos(a_pos)
+                    self.a_fiber.setSavedPos(max(a_pos, 0))
 
                 # If this is a new payload, we may have to track the
                 # insert/append
@@ -1290,7 +1290,7 @@ def __lshift__(self, other, start_pos=None):
 
                 # Reset the saved position since it just got messed up
                 if self.spec_pos is not None:
-                    self.a_fiber.setSavedPos(a_pos - 1)
+                    self.a_fiber.setSavedPos(max(a_pos - 1, 0))
 
             return
 
-- 
2.43.0


From 0b5e3a8e17f9aea467f2c85665fe7e581e7d50bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:47 +0000
Subject: [PATCH 22/65] fix: getPayloadRef without a trace name works while
 metrics are collected

---
 fibertree/core/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 059cdfc..2a948ce 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -928,7 +928,7 @@ class Fiber:
         else:
             payload = self._create_payload(coords[0])
 
-        if Metrics.isCollecting():
+        if Metrics.isCollecting() and trace is not None:
             Metrics.addUse(self.getRankAttrs().getId(), coords[0], index, type_=trace)
 
         if len(coords) > 1:
-- 
2.43.0


From ead73be503c580602bc069ce6966d1d70bd415e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:53 +0000
Subject: [PATCH 23/65] fix: prune stops the traversal when trans_fn returns
 None

---
 fibertree/core/fiber.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 2a948ce..4fcb958 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -1127,7 +1127,12 @@ class Fiber:
             def __iter__(self):
                 f_iter = self.fiber.__iter__(tick=False, start_pos=self.start)
                 for i, (c, p) in enumerate(f_iter):
-                    if self.trans(i, c, p):
+                    keep = self.trans(i, c, p)
+
+                    if keep is None:
+                        break
+
+                    if keep:
                         yield c, p
 
         result = Fiber.fromIterator(prune_iterator, active_range=self.getActive())
-- 
2.43.0


From e2429fc4e3376c311f8a1af025c93927af0b6df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:01 +0000
Subject: [PATCH 24/65] fix: project checks its start position in projected
 coordinates

---
 fibertree/core/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 4fcb958..54da5d0 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -1336,7 +1336,7 @@ class Fiber:
 
             if interval is not None:
                 assert start_pos == 0 \
-                    or fiber.coords[start_pos - 1] < interval[0]
+                    or trans_fn(fiber.coords[start_pos - 1]) < interval[0]
 
         # Build the iterator
         class project_iterator:
-- 
2.43.0


From 96a0c0de533a68f48587d4fab82d4cb3624a9bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:10 +0000
Subject: [PATCH 25/65] fix: Payload supports the rest of its operators

---
 fibertree/core/payload.py | 78 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 78 insertions(+)

diff --git a/fibertree/core/payload.py b/fibertree/core/payload.py
index 72b425e..df5bd41 100644
--- a/fibertree/core/payload.py
+++ b/fibertree/core/payload.py
@@ -534,6 +534,46 @@ class Payload:
 
         return Payload(ans)
 
+    def __rtruediv__(self, other):
+        """__rtruediv__"""
+
+        assert not isinstance(other, Payload)
+        return Payload(other / self.value)
+
+    def __itruediv__(self, other):
+        """__itruediv__"""
+
+        if isinstance(other, Payload):
+            self.value = self.value / other.value
+        else:
+            self.value = self.value / other
+        return self
+
+    def __floordiv__(self, other):
+        """__floordiv__"""
+
+        if isinstance(other, Payload):
+            ans = self.value // other.value
+        else:
+            ans = self.value // other
+
+        return Payload(ans)
+
+    def __rfloordiv__(self, other):
+        """__rfloordiv__"""
+
+        assert not isinstance(other, Payload)
+        return Payload(other // self.value)
+
+    def __ifloordiv__(self, other):
+        """__ifloordiv__"""
+
+        if isinstance(other, Payload):
+            self.value = self.value // other.value
+        else:
+            self.value = self.value // other
+        return self
+
     def __rmul__(self, other):
         """__rmul__"""
 
@@ -629,6 +669,22 @@ class Payload:
         return Payload(ans)
 
 
+    def __rand__(self, other):
+        """__rand__"""
+
+        assert not isinstance(other, Payload)
+        return Payload(other & self.value)
+
+    def __iand__(self, other):
+        """__iand__"""
+
+        if isinstance(other, Payload):
+            self.value = self.value & other.value
+        else:
+            self.value = self.value & other
+        return self
+
+
     def __or__(self, other):
         """__or__"""
 
@@ -640,6 +696,22 @@ class Payload:
         return Payload(ans)
 
 
+    def __ror__(self, other):
+        """__ror__"""
+
+        assert not isinstance(other, Payload)
+        return Payload(other | self.value)
+
+    def __ior__(self, other):
+        """__ior__"""
+
+        if isinstance(other, Payload):
+            self.value = self.value | other.value
+        else:
+            self.value = self.value | other
+        return self
+
+
     def __lshift__(self, other):
         """__lshift__"""
 
@@ -650,6 +722,12 @@ class Payload:
 
         return Payload(ans)
 
+    def __rlshift__(self, other):
+        """__rlshift__"""
+
+        assert not isinstance(other, Payload)
+        return Payload(other << self.value)
+
 #
 # Copy operation
 #
-- 
2.43.0


From 6bea6f3b0b520d7490a925d0e2660a5e698574d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:36 +0000
Subject: [PATCH 26/65] fix: element <<= value assigns the value

---
 fibertree/core/coord_payload.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fibertree/core/coord_payload.py b/fibertree/core/coord_payload.py
index eb81233..6810c7e 100644
--- a/fibertree/core/coord_payload.py
+++ b/fibertree/core/coord_payload.py
@@ -230,7 +230,9 @@ class CoordPayload():
         if isinstance(other, CoordPayload):
             self.payload <<= other.payload
         else:
-            self.payload <<= self.payload + other
+            self.payload <<= other
+
+        return self
 
 
     #
-- 
2.43.0


From cbebccc81a0052d9b210f7628f67312eec5b7791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:53 +0000
Subject: [PATCH 27/65] fix: elements support division and the logical
 operators

---
 fibertree/core/coord_payload.py | 106 ++++++++++++++++++++++++++++++--
 1 file changed, 100 insertions(+), 6 deletions(-)

diff --git a/fibertree/core/coord_payload.py b/fibertree/core/coord_payload.py
index 6810c7e..289c383 100644
--- a/fibertree/core/coord_payload.py
+++ b/fibertree/core/coord_payload.py
@@ -313,8 +313,8 @@ class CoordPayload():
 
         return self
 
-    def __div__(self, other):
-        """__div__"""
+    def __truediv__(self, other):
+        """__truediv__"""
 
         if isinstance(other, CoordPayload):
             ans = self.payload / other.payload
@@ -323,13 +323,13 @@ class CoordPayload():
 
         return ans
 
-    def __rdiv__(self, other):
-        """__rdiv__"""
+    def __rtruediv__(self, other):
+        """__rtruediv__"""
 
         return other / self.payload
 
-    def __idiv__(self, other):
-        """__idiv__"""
+    def __itruediv__(self, other):
+        """__itruediv__"""
 
         if isinstance(other, CoordPayload):
             self.payload /= other.payload
@@ -338,6 +338,31 @@ class CoordPayload():
 
         return self
 
+    def __floordiv__(self, other):
+        """__floordiv__"""
+
+        if isinstance(other, CoordPayload):
+            ans = self.payload // other.payload
+        else:
+            ans = self.payload // other
+
+        return ans
+
+    def __rfloordiv__(self, other):
+        """__rfloordiv__"""
+
+        return other // self.payload
+
+    def __ifloordiv__(self, other):
+        """__ifloordiv__"""
+
+        if isinstance(other, CoordPayload):
+            self.payload //= other.payload
+        else:
+            self.payload //= other
+
+        return self
+
 
 #
 # Comparison operations
@@ -391,6 +416,75 @@ class CoordPayload():
 
         return self.payload != other
 
+#
+# Logical operations
+#
+
+    def __and__(self, other):
+        """__and__"""
+
+        if isinstance(other, CoordPayload):
+            ans = self.payload & other.payload
+        else:
+            ans = self.payload & other
+
+        return ans
+
+    def __rand__(self, other):
+        """__rand__"""
+
+        return other & self.payload
+
+    def __iand__(self, other):
+        """__iand__"""
+
+        if isinstance(other, CoordPayload):
+            self.payload &= other.payload
+        else:
+            self.payload &= other
+
+        return self
+
+    def __or__(self, other):
+        """__or__"""
+
+        if isinstance(other, CoordPayload):
+            ans = self.payload | other.payload
+        else:
+            ans = self.payload | other
+
+        return ans
+
+    def __ror__(self, other):
+        """__ror__"""
+
+        return other | self.payload
+
+    def __ior__(self, other):
+        """__ior__"""
+
+        if isinstance(other, CoordPayload):
+            self.payload |= other.payload
+        else:
+            self.payload |= other
+
+        return self
+
+    def __lshift__(self, other):
+        """__lshift__"""
+
+        if isinstance(other, CoordPayload):
+            ans = self.payload << other.payload
+        else:
+            ans = self.payload << other
+
+        return ans
+
+    def __rlshift__(self, other):
+        """__rlshift__"""
+
+        return other << self.payload
+
     #
     # Copy operation
     #
-- 
2.43.0


From 6e2afe5d8529991c16ebae7b9f919dd897caec72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:22 +0000
Subject: [PATCH 28/65] fix: box <<= element assigns the element's value

---
 fibertree/core/payload.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fibertree/core/payload.py b/fibertree/core/payload.py
index df5bd41..d903f82 100644
--- a/fibertree/core/payload.py
+++ b/fibertree/core/payload.py
@@ -476,6 +476,11 @@ class Payload:
         if Metrics.isCollecting():
             Metrics.incCount("Compute", "payload_update", 1)
 
+        from .coord_payload import CoordPayload
+
+        if isinstance(other, CoordPayload):
+            other = other.payload
+
         if isinstance(other, Payload):
             self.value = other.value
         else:
-- 
2.43.0


From 00794979ddd0140dc6b5a4efd75367358187f649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:26 +0000
Subject: [PATCH 29/65] fix: fiber + and * with a scalar reach into sub-fibers

---
 fibertree/core/fiber.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 54da5d0..6131ba4 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -3233,7 +3233,7 @@ class Fiber:
         else:
             for c, p in self.iterShape():
                 coords.append(c)
-                payloads.append(other + p.value)
+                payloads.append(other + Payload.get(p))
 
         return self._newFiber(coords, payloads)
 
@@ -3372,7 +3372,7 @@ class Fiber:
         else:
             for c, p in self:
                 coords.append(c)
-                payloads.append(other * p.value)
+                payloads.append(other * Payload.get(p))
 
         result = self._newFiber(coords, payloads)
         return result
-- 
2.43.0


From c22327e9a55b2bc22fcca53feed3c47a8006a4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:43 +0000
Subject: [PATCH 30/65] fix: fiber *= fiber empties the coordinates outside the
 intersection

---
 fibertree/core/fiber.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 6131ba4..adb3471 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -3440,14 +3440,31 @@ class Fiber:
         # If `other` is a fiber, elementwise multiply `other` by `self`
         #
         if isinstance(other, Fiber):
-            for c, (self_val, other_val) in self & other:
+            products = [(c, self_val * other_val)
+                        for c, (self_val, other_val) in self & other]
+
+            #
+            # Elements that are not in the intersection become empty
+            #
+            common = {c for c, _ in products}
+
+            for c, p in zip(self.coords, self.payloads):
+                if c in common:
+                    continue
+
+                if isinstance(p, Fiber):
+                    p.clear()
+                else:
+                    p <<= self.getDefault()
+
+            for c, product in products:
                 #
                 # Get a reference to the c coordinate in `self`.  Note
                 # that is may be a zero and therefore a hard zero will
                 # be included in the final fiber.
                 #
                 self_ref = self.getPayloadRef(c)
-                self_ref <<= self_val * other_val
+                self_ref <<= product
 
             return self
 
-- 
2.43.0


From e3aa59c0ef33c56a1c236f592f256259d45deabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:33 +0000
Subject: [PATCH 31/65] fix: fiber += fiber sums with a non-zero default as +
 does

---
 fibertree/core/fiber.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index adb3471..1836d7d 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -3307,8 +3307,24 @@ class Fiber:
         # If `other` is a fiber add each element of `other` to `self`
         #
         if isinstance(other, Fiber):
-            for _, (self_ref, other_val) in self << other:
+            matched = set()
+
+            for c, (self_ref, other_val) in self << other:
                 self_ref += other_val
+                matched.add(c)
+
+            default = other.getDefault()
+
+            if default is not Fiber and default == 0:
+                return self
+
+            #
+            # Elements only in `self` are summed with the default of `other`
+            #
+            for c, p in zip(self.coords, self.payloads):
+                if c not in matched and not Payload.isEmpty(p, self.getDefault()):
+                    p += other._createDefault(addtorank=False)
+
             return self
 
         #
-- 
2.43.0


From 9ac4a62f5277cff5b73f59efd99878e34a7417b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:34 +0000
Subject: [PATCH 32/65] fix: uncompress works on empty trees

---
 fibertree/core/fiber.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 1836d7d..a64c99f 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -1687,6 +1687,19 @@ class Fiber:
 
         return [fiber.getDefault()] + fiber._getDefaultsBelow()
 
+    def _getLeafDefault(self):
+        """Default of the leaf level of the tree rooted at this fiber"""
+
+        rank = self.getOwner()
+
+        if rank is None:
+            return ([self.getDefault()] + self._getDefaultsBelow())[-1]
+
+        while rank.getNextRank() is not None:
+            rank = rank.getNextRank()
+
+        return rank.getDefault()
+
 
     @staticmethod
     def _instantiateDefault(owner, default, next_default=None, addtorank=False):
@@ -3089,16 +3102,9 @@ class Fiber:
 
         if level + 1 > len(shape):
             #
-            # Find a fiber at the leaf level
-            #
-            f = self
-            while isinstance(f.payloads[0], Fiber):
-                f = f.payloads[0]
-
-            #
-            # Use the **unboxed** default from the leaf level fiber
+            # Use the **unboxed** default from the leaf level
             #
-            return Payload.get(f.getDefault())
+            return Payload.get(self._getLeafDefault())
 
         f = []
 
-- 
2.43.0


From 8ec0c890c4a1f07c824dceb363668b57dbd4c85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:11 +0000
Subject: [PATCH 33/65] fix: an all-default nest keeps its whole shape

---
 fibertree/core/fiber.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index a64c99f..905dfbc 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -283,6 +283,9 @@ class Fiber:
         # Defaults of the levels below (only for fibers created as a default)
         self._defaults_below = []
 
+        # Shapes of the levels below (only for fibers from all-default nests)
+        self._shape_below = []
+
         #
         # Initialize "saved position"
         #
@@ -384,7 +387,14 @@ class Fiber:
         #
         if f is None:
             # Return something for an entirely empty input
-            return Fiber([], [], shape=len(payload_list), default=default)
+            f = Fiber([], [], shape=len(payload_list), default=default)
+
+            # There are no sub-fibers to hold the shapes of the levels below
+            level = payload_list[0]
+
+            while isinstance(level, list):
+                f._shape_below.append(len(level))
+                level = level[0]
 
         return f
 
@@ -2766,7 +2776,7 @@ class Fiber:
             shape = self.getRankAttrs().getShape()
             if shape and all_ranks:
                 # Not authoritative
-                rest = []
+                rest = list(self._shape_below)
                 for _, p in self:
                     if not isinstance(p, Fiber):
                         continue
-- 
2.43.0


From abe70ffa719113e96f4a82bb8246e4c65a533b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:13 +0000
Subject: [PATCH 34/65] fix: writing below a default that was only read leaves
 the ranks alone

---
 fibertree/core/fiber.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 905dfbc..54f2623 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -1007,6 +1007,9 @@ class Fiber:
         if fiber._hasOwner():
             fiber = fiber.copy(preserve_owner=False)
 
+        if self._unattached:
+            return fiber
+
         owner.getNextRank().append(fiber)
 
         for i, p in enumerate(fiber.payloads):
@@ -1493,6 +1496,9 @@ class Fiber:
 
         self._owner = owner
 
+        # Whether this is just a default, which is not in the owner's tree
+        self._unattached = False
+
     def getOwner(self):
         """Get rank that owns this fiber.
 
@@ -1675,10 +1681,13 @@ class Fiber:
         defaults_below = [] if owner is not None else self._getDefaultsBelow()
         next_default = (defaults_below or [None])[0]
 
+        addtorank = addtorank and not self._unattached
+
         payload = Fiber._instantiateDefault(owner, default, next_default, addtorank)
 
         if isinstance(payload, Fiber):
             payload._defaults_below = defaults_below[1:]
+            payload._unattached = owner is not None and not addtorank
 
         return payload
 
-- 
2.43.0


From 8b9cc3177e7dd52606256e858299bc99ddca69bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:57 +0000
Subject: [PATCH 35/65] fix: a replaced root no longer belongs to the tensor

---
 fibertree/core/rank.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fibertree/core/rank.py b/fibertree/core/rank.py
index 948150d..7d5a206 100644
--- a/fibertree/core/rank.py
+++ b/fibertree/core/rank.py
@@ -296,6 +296,10 @@ class Rank:
 
         """
 
+        for fiber in self.fibers:
+            if fiber.getOwner() is self:
+                fiber.setOwner(None)
+
         self.fibers = []
 
     #
-- 
2.43.0


From 59872fd6cccbb290c9b17aeae201037546acdae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:43 +0000
Subject: [PATCH 36/65] fix: a tensor loaded from YAML keeps its name

---
 fibertree/core/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index e2fd5a4..be1f061 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -243,7 +243,7 @@ class Tensor:
             t._root = Payload(root)
             return t
 
-        return Tensor.fromFiber(rank_ids, root, shape=shape)
+        return Tensor.fromFiber(rank_ids, root, shape=shape, name=name)
 
 
     @classmethod
-- 
2.43.0


From c3a240225db18bc2b120a66d16d3c46a5ceab71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:52 +0000
Subject: [PATCH 37/65] fix: a rank-0 tensor keeps the name it is given

---
 fibertree/core/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index be1f061..40cfc12 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -281,7 +281,7 @@ class Tensor:
 
         if not isinstance(root, list):
             # Handle a rank zero tensor
-            t = Tensor(rank_ids=[], shape=[])
+            t = Tensor(rank_ids=[], shape=[], name=name, color=color)
             t._root = Payload(root)
             return t
 
-- 
2.43.0


From c6323fac50a55417d905b252a5d8f4361871e82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:44 +0000
Subject: [PATCH 38/65] fix: YAML files with tuples can be loaded

---
 fibertree/core/fiber.py  | 18 +++++++++++++++++-
 fibertree/core/tensor.py |  4 ++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 54f2623..32ffd72 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -37,6 +37,22 @@ from .rank_attrs import RankAttrs
 module_logger = logging.getLogger('fibertree.core.fiber')
 
 
+#
+# Define a YAML loader that also accepts tuples, e.g., tuple coordinates
+#
+class FibertreeLoader(yaml.SafeLoader):
+    """FibertreeLoader"""
+
+    def construct_tuple(self, node):
+        """construct_tuple"""
+
+        return tuple(self.construct_sequence(node, deep=True))
+
+
+FibertreeLoader.add_constructor('tag:yaml.org,2002:python/tuple',
+                                FibertreeLoader.construct_tuple)
+
+
 #
 # Define an error class
 #
@@ -5123,7 +5139,7 @@ class Fiber:
 
         with open(yamlfile, 'r') as stream:
             try:
-                y_file = yaml.safe_load(stream)
+                y_file = yaml.load(stream, Loader=FibertreeLoader)
             except yaml.YAMLError as exc:
                 print(exc)
                 exit(1)
diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index 40cfc12..2e7d0f7 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -15,7 +15,7 @@ import yaml
 from copy import deepcopy
 
 from .rank    import Rank
-from .fiber   import Fiber
+from .fiber   import Fiber, FibertreeLoader
 from .payload import Payload
 
 #
@@ -1955,7 +1955,7 @@ class Tensor:
 
         with open(file, 'r') as stream:
             try:
-                y_file = yaml.safe_load(stream)
+                y_file = yaml.load(stream, Loader=FibertreeLoader)
             except yaml.YAMLError as exc:
                 print(exc)
                 exit(1)
-- 
2.43.0


From 6f3acb7a83473045b558a81c9456f3b987315ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:26 +0000
Subject: [PATCH 39/65] fix: YAML and dictionary forms keep a default other
 than 0

---
 fibertree/core/fiber.py  | 38 ++++++++++++++++++++++++++++++++------
 fibertree/core/tensor.py | 32 ++++++++++++++++++++++----------
 2 files changed, 54 insertions(+), 16 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 32ffd72..4bccddc 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -349,7 +349,7 @@ class Fiber:
 
 
     @classmethod
-    def fromYAMLfile(cls, yamlfile, default=0, **kwargs):
+    def fromYAMLfile(cls, yamlfile, default=None, **kwargs):
         """Construct a Fiber from a YAML file
 
         Parameters
@@ -358,12 +358,21 @@ class Fiber:
         yamlfile: str
             The name of a YAML file holding a description of a fiber
 
+        default: value, default=(the default in the file, or 0)
+            The default payload of the fiber
+
         kwargs: keyword arguments
             Keyword arguments accepted by `Fiber.__init__()`
 
         """
 
-        (coords, payloads) = Fiber.parse(yamlfile, default)
+        fiber = Fiber._load(yamlfile)
+
+        coords = fiber.getCoords()
+        payloads = fiber.getPayloads()
+
+        if default is None:
+            default = fiber.getRankAttrs().getDefault()
 
         return cls(coords, payloads, default=default, **kwargs)
 
@@ -5137,6 +5146,15 @@ class Fiber:
     def parse(yamlfile, default):
         """Parse a yaml file containing a tensor"""
 
+        newfiber = Fiber._load(yamlfile)
+
+        return (newfiber.getCoords(), newfiber.getPayloads())
+
+
+    @staticmethod
+    def _load(yamlfile):
+        """Create the fiber described in a yaml file"""
+
         with open(yamlfile, 'r') as stream:
             try:
                 y_file = yaml.load(stream, Loader=FibertreeLoader)
@@ -5151,9 +5169,7 @@ class Fiber:
             print("Yaml is not a fiber")
             exit(1)
 
-        newfiber = Fiber.dict2fiber(y_file)
-
-        return (newfiber.getCoords(), newfiber.getPayloads())
+        return Fiber.dict2fiber(y_file)
 
 
 
@@ -5205,7 +5221,9 @@ class Fiber:
             #
             # Turn into a fiber
             #
-            subtree = Fiber(coords=f_coords, payloads=f_payloads)
+            subtree = Fiber(coords=f_coords,
+                            payloads=f_payloads,
+                            default=y_fiber.get('default', 0))
         else:
             # Got scalars, so format is unchanged
             subtree = y_payload_dict
@@ -5222,6 +5240,14 @@ class Fiber:
              {'coords': self.coords,
               'payloads': [Payload.payload2dict(p) for p in self.payloads]}}
 
+        #
+        # Only a default that is not the usual one needs to be recorded
+        #
+        default = Payload.get(self.getDefault())
+
+        if isinstance(default, numbers.Number) and default != 0:
+            f['fiber']['default'] = default
+
         return f
 
 #
diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index 2e7d0f7..108c789 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -10,6 +10,7 @@ import logging
 from sys import exit
 
 import copy
+import numbers
 import pickle
 import yaml
 from copy import deepcopy
@@ -136,7 +137,10 @@ class Tensor:
         if (yamlfile != ""):
             assert(rank_ids is None and shape is None)
 
-            (rank_ids, root, shape, name) = self.parse(yamlfile)
+            (rank_ids, root, shape, name, file_default) = self.parse(yamlfile)
+
+            if file_default != 0:
+                default = file_default
 
             if shape is None:
                 shape = root.estimateShape()
@@ -228,14 +232,8 @@ class Tensor:
         yamlfile: string
             Filename of file containing a YAML representation of a tensor
 
-
-        Todo
-        ----
-
-        YAML file does not provide a non-zero default value
-
         """
-        (rank_ids, root, shape, name) = Tensor.parse(yamlfile)
+        (rank_ids, root, shape, name, default) = Tensor.parse(yamlfile)
 
         if not isinstance(root, Fiber):
             t = Tensor(rank_ids=[], shape=shape, name=name)
@@ -243,7 +241,7 @@ class Tensor:
             t._root = Payload(root)
             return t
 
-        return Tensor.fromFiber(rank_ids, root, shape=shape, name=name)
+        return Tensor.fromFiber(rank_ids, root, shape=shape, name=name, default=default)
 
 
     @classmethod
@@ -1995,6 +1993,11 @@ class Tensor:
             # TBD: Maybe extract something from filename
             name = ""
 
+        #
+        # Get default of leaf rank
+        #
+        default = y_tensor.get('default', 0)
+
         #
         # Make sure key "root" exists
         #
@@ -2010,7 +2013,7 @@ class Tensor:
         #
         fiber = Fiber.dict2fiber(y_root[0])
 
-        return (rank_ids, fiber, shape, name)
+        return (rank_ids, fiber, shape, name, default)
 
 
     def dump(self, filename):
@@ -2029,6 +2032,15 @@ class Tensor:
                         'name': self.getName(),
                         'root': [root_dict]}}
 
+        #
+        # Only a default that is not the usual one needs to be recorded
+        #
+        if len(self.ranks) > 0:
+            default = Payload.get(self.getDefault())
+
+            if isinstance(default, numbers.Number) and default != 0:
+                tensor_dict['tensor']['default'] = default
+
         with open(filename, 'w') as file:
             yaml.dump(tensor_dict, file)
 
-- 
2.43.0


From 2b6ef491f149924c8d50c4b5ef8897d1909fc15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:18 +0000
Subject: [PATCH 40/65] fix: leader-follower intersection does not start from a
 stale saved position

---
 fibertree/core/iterators.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 1ee7a4a..eb9a96b 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -523,7 +523,9 @@ def intersection(*args, **kwargs):
             fibers = args
 
             def __iter__(self):
-                start_pos = [None] * (len(self.fibers) - 1)
+                # Each follower is searched from its beginning, whatever
+                # position an earlier traversal left in the fiber
+                start_pos = [0] * (len(self.fibers) - 1)
 
                 is_collecting = Metrics.isCollecting()
                 leader_traced = False
@@ -543,9 +545,7 @@ def intersection(*args, **kwargs):
                     for j, fiber in enumerate(self.fibers[1:]):
                         p_fiber = fiber.getPayload(c, start_pos=start_pos[j], trace=traces[j + 1])
 
-                        saved = fiber.getSavedPos()
-                        if saved > 0:
-                            start_pos[j] = saved
+                        start_pos[j] = fiber.getSavedPos()
 
                         payloads.append(p_fiber)
 
-- 
2.43.0


From 962f86117fd6a73b9a91af3b79e2bc00228e5868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 41/65] fix: matching a rank with one already in the loop order
 takes effect

---
 fibertree/core/metrics.py | 44 +++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/fibertree/core/metrics.py b/fibertree/core/metrics.py
index 396df81..97606c5 100644
--- a/fibertree/core/metrics.py
+++ b/fibertree/core/metrics.py
@@ -491,6 +491,12 @@ class Metrics:
         for rank in all_matches:
             cls.all_rank_matches[rank] = all_matches.difference({rank})
 
+        # If one of these ranks is already in the loop order, the match takes
+        # effect immediately
+        for rank in all_matches:
+            if cls.collecting and rank in cls.line_order:
+                cls._startMatches(rank)
+
     @classmethod
     def registerRank(cls, rank):
         """Register a rank as a part of the loop order
@@ -523,15 +529,7 @@ class Metrics:
             for type_ in cls.traces[rank]:
                 cls._startTrace(rank, type_)
 
-        for src_rank, dst_ranks in cls.all_rank_matches.items():
-            if rank not in dst_ranks:
-                continue
-
-            cls.rank_matches[src_rank] = rank
-
-            if src_rank in cls.traces.keys():
-                for type_ in cls.traces[src_rank]:
-                    cls._startTrace(src_rank, type_)
+        cls._startMatches(rank)
 
     @classmethod
     def setNumCachedUses(cls, num_cached_uses):
@@ -554,6 +552,34 @@ class Metrics:
 
         cls.num_cached_uses = num_cached_uses
 
+    @classmethod
+    def _startMatches(cls, rank):
+        """Associate all matching ranks that are not associated with a level of
+        the loop nest yet with the given rank
+
+        Parameters
+        ----------
+
+        rank: str
+            The name of the rank in the loop order
+
+        Returns
+        -------
+
+        None
+
+        """
+        for src_rank, dst_ranks in cls.all_rank_matches.items():
+            if rank not in dst_ranks or src_rank in cls.line_order \
+                    or src_rank in cls.rank_matches:
+                continue
+
+            cls.rank_matches[src_rank] = rank
+
+            if src_rank in cls.traces.keys():
+                for type_ in cls.traces[src_rank]:
+                    cls._startTrace(src_rank, type_)
+
     @classmethod
     def _startTrace(cls, rank, type_="iter"):
         """Start to trace the given rank
-- 
2.43.0


From 10140c90805b51feb260e4ee5d0bac56f98930b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:33 +0000
Subject: [PATCH 42/65] fix: co-iteration inside union, xor and difference does
 not tick the loop

---
 fibertree/core/iterators.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index eb9a96b..d354909 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -599,7 +599,7 @@ def union(*args):
         num_args = len(args)
 
         def __iter__(self):
-            for c, np in self.nested:
+            for c, np in self.nested.__iter__(tick=False):
                 p = [None] * (self.num_args + 1)
 
                 # This is the mask
@@ -1017,8 +1017,8 @@ def __xor__(self, other):
         b_fiber = other
 
         def __iter__(self):
-            a = self.a_fiber.__iter__()
-            b = self.b_fiber.__iter__()
+            a = self.a_fiber.__iter__(tick=False)
+            b = self.b_fiber.__iter__(tick=False)
 
             a_coord, a_payload = _get_next(a)
             b_coord, b_payload = _get_next(b)
@@ -1352,8 +1352,8 @@ def __sub__(self, other):
         b_fiber = other
 
         def __iter__(self):
-            a = self.a_fiber.__iter__()
-            b = self.b_fiber.__iter__()
+            a = self.a_fiber.__iter__(tick=False)
+            b = self.b_fiber.__iter__(tick=False)
 
             a_coord, a_payload = _get_next(a)
             b_coord, b_payload = _get_next(b)
-- 
2.43.0


From 820d05fec926b54dc9e8a0a31bb304d16a658fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:48 +0000
Subject: [PATCH 43/65] fix: traced positions are indices, and project traces
 every element

---
 fibertree/core/fiber.py     |  29 +++++----
 fibertree/core/iterators.py | 115 +++++++++++++++++++++---------------
 2 files changed, 86 insertions(+), 58 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 4bccddc..bbe6994 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -26,7 +26,7 @@ from .any import Any
 from .coord_payload import CoordPayload
 from .iterators import coiterShape, coiterShapeRef, coiterActiveShape, \
     coiterActiveShapeRef, coiterRangeShape, coiterRangeShapeRef, intersection, \
-    union
+    union, _positioned
 from .metrics import Metrics
 from .payload import Payload
 from .rank_attrs import RankAttrs
@@ -1351,11 +1351,14 @@ class Fiber:
             assert not self.isLazy()
 
             # Build an iterator over the reversed fiber
+            src = _positioned(self)
+            cps = [(cp, src.pos) for cp in src]
+            reversed_pos = [pos for _, pos in reversed(cps)]
+
             class reversed_iterator:
-                cps = list(self.__iter__(tick=False))
 
                 def __iter__(self):
-                    return reversed(self.cps)
+                    return (cp for cp, _ in reversed(cps))
 
             fiber = Fiber.fromIterator(reversed_iterator)
             fiber._setDefault(self.getDefault())
@@ -1364,6 +1367,7 @@ class Fiber:
 
         else:
             fiber = self
+            reversed_pos = None
 
         # If there is a start_pos, make sure it is in range
         if start_pos is not None:
@@ -1406,26 +1410,27 @@ class Fiber:
                     trace = "project_" + label
                     traced = Metrics.isTraced(src_rank, trace)
 
-                    if self.start is None:
-                        i = 0
-                    else:
-                        i = self.start
-
                     iteration = Metrics.getIter().copy()
 
-                fiter = self.fbr.__iter__(tick=self.tck, start_pos=self.start)
-                for j, (old_c, p) in enumerate(fiter):
+                fiter = _positioned(self.fbr, tick=self.tck, start_pos=self.start)
+                for old_c, p in fiter:
                     c = self.trans(old_c)
                     if self.interv is not None and c >= self.interv[1]:
                         break
 
                     if self.interv is None \
                             or (c >= self.interv[0] and c < self.interv[1]):
+                        # Trace the use now, since the consumer may not ask for
+                        # another element
+                        if traced:
+                            pos = fiter.pos if reversed_pos is None \
+                                else reversed_pos[fiter.pos]
+                            Metrics.addUse(src_rank, old_c, pos,
+                                type_=trace, iteration_num=iteration)
+
                         yield c, p
 
                         if traced:
-                            Metrics.addUse(src_rank, old_c, i + j,
-                                type_=trace, iteration_num=iteration)
                             iteration = Metrics.getIter().copy()
 
         if interval:
diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index d354909..35b9e0e 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -15,12 +15,7 @@ from .payload import Payload
 
 def __iter__(self, tick=True, start_pos=None):
     """__iter__"""
-    if self.getOwner() is not None:
-        fmt = self.getOwner().getFormat()
-    elif self.getRankAttrs() is not None:
-        fmt = self.getRankAttrs().getFormat()
-    else:
-        fmt = "C"
+    fmt = _iter_format(self)
 
     if fmt == "C":
         return self.iterOccupancy(tick, start_pos=start_pos)
@@ -537,9 +532,10 @@ def intersection(*args, **kwargs):
 
                     leader_traced = Metrics.isTraced(rank, traces[0])
 
-                for i, (c, p) in enumerate(self.fibers[0].__iter__(tick=False)):
+                leader = _positioned(self.fibers[0])
+                for c, p in leader:
                     if leader_traced:
-                        Metrics.addUse(rank, c, i, type_=traces[0])
+                        Metrics.addUse(rank, c, leader.pos, type_=traces[0])
 
                     payloads = [p]
                     for j, fiber in enumerate(self.fibers[1:]):
@@ -645,6 +641,49 @@ def _get_next(iter_):
 
     return CoordPayload(coord, payload)
 
+def _iter_format(fiber):
+    """The format that determines how a fiber is iterated over"""
+
+    if fiber.getOwner() is not None:
+        return fiber.getOwner().getFormat()
+    elif fiber.getRankAttrs() is not None:
+        return fiber.getRankAttrs().getFormat()
+    else:
+        return "C"
+
+class _positioned:
+    """Iterate over a fiber, tracking the position of the element delivered
+    last: its index in the fiber or, if the fiber does not keep its elements in
+    a list of coordinates, its ordinal
+    """
+
+    def __init__(self, fiber, tick=False, start_pos=None, trans_fn=None):
+        self.trans_fn = trans_fn
+        self.pos = -1 if start_pos is None else Payload.get(start_pos) - 1
+
+        # Only iterating over an eager, compressed fiber skips elements
+        self.fiber = fiber
+        self.indexed = not fiber.isLazy() \
+            and _iter_format(fiber) == "C"
+
+        self.iter = fiber.__iter__(tick=tick, start_pos=start_pos)
+
+    def __iter__(self):
+        return self
+
+    def __next__(self):
+        coord, payload = next(self.iter)
+
+        self.pos += 1
+        if self.indexed:
+            while self.fiber.coords[self.pos] != coord:
+                self.pos += 1
+
+        if self.trans_fn is not None:
+            coord = self.trans_fn(coord)
+
+        return CoordPayload(coord, payload)
+
 #
 # Merge methods
 #
@@ -717,12 +756,9 @@ def __and__(self, other):
                 a_traced = Metrics.isTraced(rank, a_trace)
                 b_traced = Metrics.isTraced(rank, b_trace)
 
-                a_pos = 0
-                b_pos = 0
-
             # Get the iterators
-            a = self.a_fiber.__iter__(tick=False)
-            b = self.b_fiber.__iter__(tick=False)
+            a = _positioned(self.a_fiber)
+            b = _positioned(self.b_fiber)
 
             a_coord, a_payload = _get_next(a)
             b_coord, b_payload = _get_next(b)
@@ -741,10 +777,10 @@ def __and__(self, other):
             elif len_a < len_b:
                 if isinstance(a_coord, int):
                     extra = (ANY,) * (len_b - 1)
-                    a = self.a_fiber.project(trans_fn=lambda c: (c,) + extra).__iter__(tick=False)
+                    a = _positioned(self.a_fiber, trans_fn=lambda c: (c,) + extra)
                 else:
                     extra = (ANY,) * (len_b - len_a)
-                    a = self.a_fiber.project(trans_fn=lambda c: c + extra).__iter__(tick=False)
+                    a = _positioned(self.a_fiber, trans_fn=lambda c: c + extra)
 
                 a_coord, a_payload = _get_next(a)
 
@@ -758,10 +794,10 @@ def __and__(self, other):
             else:
                 if isinstance(b_coord, int):
                     extra = (ANY,) * (len_a - 1)
-                    b = self.b_fiber.project(trans_fn=lambda c: (c,) + extra).__iter__(tick=False)
+                    b = _positioned(self.b_fiber, trans_fn=lambda c: (c,) + extra)
                 else:
                     extra = (ANY,) * (len_a - len_b)
-                    b = self.b_fiber.project(trans_fn=lambda c: c + extra).__iter__(tick=False)
+                    b = _positioned(self.b_fiber, trans_fn=lambda c: c + extra)
 
                 b_coord, b_payload = _get_next(b)
 
@@ -775,12 +811,10 @@ def __and__(self, other):
                 if a_coord == b_coord:
 
                     if a_traced:
-                        Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
-                        a_pos += 1
+                        Metrics.addUse(rank, a_coord, a.pos, type_=a_trace)
 
                     if b_traced:
-                        Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
-                        b_pos += 1
+                        Metrics.addUse(rank, b_coord, b.pos, type_=b_trace)
 
                     yield succ_yield(a_coord, b_coord), (a_payload, b_payload)
 
@@ -791,8 +825,7 @@ def __and__(self, other):
 
                 if a_coord < b_coord:
                     if a_traced:
-                        Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
-                        a_pos += 1
+                        Metrics.addUse(rank, a_coord, a.pos, type_=a_trace)
 
                     if is_collecting:
                         Metrics.incIter(rank)
@@ -803,8 +836,7 @@ def __and__(self, other):
 
                 if a_coord > b_coord:
                     if b_traced:
-                        Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
-                        b_pos += 1
+                        Metrics.addUse(rank, b_coord, b.pos, type_=b_trace)
 
                     if is_collecting:
                         Metrics.incIter(rank)
@@ -814,10 +846,10 @@ def __and__(self, other):
                     continue
 
             if a_traced and a_coord is not None:
-                Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
+                Metrics.addUse(rank, a_coord, a.pos, type_=a_trace)
 
             if b_traced and b_coord is not None:
-                Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
+                Metrics.addUse(rank, b_coord, b.pos, type_=b_trace)
 
             if is_collecting:
                 Metrics.incIter(rank)
@@ -895,11 +927,8 @@ def __or__(self, other):
                 a_traced = Metrics.isTraced(rank, a_trace)
                 b_traced = Metrics.isTraced(rank, b_trace)
 
-                a_pos = 0
-                b_pos = 0
-
-            a = self.a_fiber.__iter__(tick=False)
-            b = self.b_fiber.__iter__(tick=False)
+            a = _positioned(self.a_fiber)
+            b = _positioned(self.b_fiber)
 
             a_coord, a_payload = _get_next(a)
             b_coord, b_payload = _get_next(b)
@@ -907,12 +936,10 @@ def __or__(self, other):
             while a_coord is not None and b_coord is not None:
                 if a_coord == b_coord:
                     if a_traced:
-                        Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
-                        a_pos += 1
+                        Metrics.addUse(rank, a_coord, a.pos, type_=a_trace)
 
                     if b_traced:
-                        Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
-                        b_pos += 1
+                        Metrics.addUse(rank, b_coord, b.pos, type_=b_trace)
 
                     yield a_coord, ("AB", a_payload, b_payload)
 
@@ -923,8 +950,7 @@ def __or__(self, other):
 
                 elif a_coord < b_coord:
                     if a_traced:
-                        Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
-                        a_pos += 1
+                        Metrics.addUse(rank, a_coord, a.pos, type_=a_trace)
 
                     b_default = self.b_fiber._createDefault(addtorank=False)
                     yield a_coord, ("A", a_payload, b_default)
@@ -933,8 +959,7 @@ def __or__(self, other):
                 # a_coord > b_coord
                 else:
                     if b_traced:
-                        Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
-                        b_pos += 1
+                        Metrics.addUse(rank, b_coord, b.pos, type_=b_trace)
 
                     a_default = self.a_fiber._createDefault(addtorank=False)
                     yield b_coord, ("B", a_default, b_payload)
@@ -942,8 +967,7 @@ def __or__(self, other):
 
             while a_coord is not None:
                 if a_traced:
-                    Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
-                    a_pos += 1
+                    Metrics.addUse(rank, a_coord, a.pos, type_=a_trace)
 
                 b_default = self.b_fiber._createDefault(addtorank=False)
                 yield a_coord, ("A", a_payload, b_default)
@@ -951,8 +975,7 @@ def __or__(self, other):
 
             while b_coord is not None:
                     if b_traced:
-                        Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
-                        b_pos += 1
+                        Metrics.addUse(rank, b_coord, b.pos, type_=b_trace)
 
                     a_default = self.a_fiber._createDefault(addtorank=False)
                     yield b_coord, ("B", a_default, b_payload)
@@ -1137,7 +1160,7 @@ def __lshift__(self, other, start_pos=None):
                 b_traced = Metrics.isTraced(rank, b_trace)
 
             # Add coordinates/payloads to a_fiber where necessary
-            b = self.b_fiber.__iter__(tick=False)
+            b = _positioned(self.b_fiber)
 
             # Track the fiber position
             a_pos = self.spec_pos
@@ -1167,7 +1190,7 @@ def __lshift__(self, other, start_pos=None):
 
                     # Read the B coordinate
                     if b_traced:
-                        Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
+                        Metrics.addUse(rank, b_coord, b.pos, type_=b_trace)
 
                     # If we are inserting into a compressed fiber, we need
                     # to search for the coordinate
-- 
2.43.0


From 27de6cd9063d2919ef7fcde12a16811e9766de26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:03 +0000
Subject: [PATCH 44/65] fix: absent operands of nested and projected
 co-iteration get their own defaults

---
 fibertree/core/fiber.py     | 6 ++++++
 fibertree/core/iterators.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index bbe6994..7414ee1 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -298,6 +298,7 @@ class Fiber:
 
         # Defaults of the levels below (only for fibers created as a default)
         self._defaults_below = []
+        self._default_fn = None
 
         # Shapes of the levels below (only for fibers from all-default nests)
         self._shape_below = []
@@ -1452,6 +1453,7 @@ class Fiber:
 
         result = Fiber.fromIterator(project_iterator, active_range=(min_, max_))
         result._setDefault(self.getDefault())
+        result._default_fn = lambda: self._createDefault(addtorank=False)
         result.getRankAttrs().setFormat(self.getRankAttrs().getFormat())
         if rank_id is not None:
             result.getRankAttrs().setId(rank_id)
@@ -1704,6 +1706,10 @@ class Fiber:
 
         """
 
+        # A lazy fiber may create its defaults from those of its operands
+        if self._default_fn is not None:
+            return self._default_fn()
+
         owner = self.getOwner()
 
         default = self.getDefault()
diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 35b9e0e..1e28261 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -983,6 +983,9 @@ def __or__(self, other):
 
     result = self.fromIterator(or_iterator, active_range=self.getActive())
     result._setDefault(("", self.getDefault(), other.getDefault()))
+    result._default_fn = lambda: Payload(("",
+                                         self._createDefault(addtorank=False),
+                                         other._createDefault(addtorank=False)))
     result.getRankAttrs().setId(self.getRankAttrs().getId())
 
     return result
@@ -1074,6 +1077,9 @@ def __xor__(self, other):
 
     result = self.fromIterator(xor_iterator, active_range=self.getActive())
     result._setDefault(("", self.getDefault(), other.getDefault()))
+    result._default_fn = lambda: Payload(("",
+                                         self._createDefault(addtorank=False),
+                                         other._createDefault(addtorank=False)))
     result.getRankAttrs().setId(self.getRankAttrs().getId())
 
     return result
-- 
2.43.0


From 618fdb408228bf7971f774be48dce8121f153440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 45/65] fix: a trace whose rank is never reached replaces an
 older file

---
 fibertree/core/metrics.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/metrics.py b/fibertree/core/metrics.py
index 97606c5..69e8015 100644
--- a/fibertree/core/metrics.py
+++ b/fibertree/core/metrics.py
@@ -681,11 +681,14 @@ class Metrics:
         None
 
         """
-        file_trace, mem_trace, _ = cls.traces[rank][type_]
+        file_trace, mem_trace, is_started = cls.traces[rank][type_]
         assert file_trace is not None
 
         trace_strs = [",".join(str(val) for val in line) + "\n" for line in file_trace]
-        with open(cls.prefix + "-" + rank + "-" + type_ + ".csv", "a") as f:
+        # The trace of a rank that was never reached replaces any older file
+        mode = "a" if is_started else "w"
+
+        with open(cls.prefix + "-" + rank + "-" + type_ + ".csv", mode) as f:
             f.write("".join(trace_strs))
 
         cls.traces[rank][type_] = ([], mem_trace, True)
-- 
2.43.0


From 74c846adc4280f23e89ffed47ac131bf4f60ad96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 46/65] fix: a trace registered after its rank was reached has
 a header

---
 fibertree/core/metrics.py | 78 ++++++++++++++++++++++++++++++---------
 1 file changed, 61 insertions(+), 17 deletions(-)

diff --git a/fibertree/core/metrics.py b/fibertree/core/metrics.py
index 69e8015..e05defc 100644
--- a/fibertree/core/metrics.py
+++ b/fibertree/core/metrics.py
@@ -601,30 +601,60 @@ class Metrics:
         """
         assert rank in cls.line_order or rank in cls.rank_matches
 
-        if rank in cls.line_order:
-            end = cls.line_order[rank] + 1
-        else:
-            end = cls.line_order[cls.rank_matches[rank]] + 1
-
         file_trace, mem_trace, _ = cls.traces[rank][type_]
         cls.traces[rank][type_] = (file_trace, mem_trace, True)
 
-        if file_trace is not None:
-            with open(cls.prefix + "-" + rank + "-" + type_ + ".csv", "w") as f:
-                f.write("")
-
-        pos = ",".join(r + "_pos" for r in cls.loop_order[:end])
-        coord = ",".join(r for r in cls.loop_order[:end])
-
-        headings = [pos, coord, "fiber_pos"]
-        headings = list(r + "_pos" for r in cls.loop_order[:end]) + \
-            cls.loop_order[:end] + ["fiber_pos"]
+        headings = cls._getHeadings(rank)
 
         if file_trace is not None:
+            cls._clearTrace(rank, type_)
             file_trace.append(headings)
         if mem_trace is not None:
             mem_trace.append(headings)
 
+    @classmethod
+    def _clearTrace(cls, rank, type_):
+        """Empty the file of a trace
+
+        Parameters
+        ----------
+
+        rank: str
+            The rank whose trace to clear
+
+        type_: str
+            Description of the information this trace is collecting
+
+        Returns
+        -------
+
+        None
+
+        """
+        with open(cls.prefix + "-" + rank + "-" + type_ + ".csv", "w") as f:
+            f.write("")
+
+    @classmethod
+    def _getHeadings(cls, rank):
+        """Get the headings of the traces of the given rank
+
+        Parameters
+        ----------
+
+        rank: str
+            The rank being traced
+
+        Returns
+        -------
+
+        headings: List[str]
+            The headings of the columns of the trace
+
+        """
+        end = cls.getIndex(rank) + 1
+
+        return list(r + "_pos" for r in cls.loop_order[:end]) + \
+            cls.loop_order[:end] + ["fiber_pos"]
 
     @classmethod
     def trace(cls, rank, type_="iter", consumable=False):
@@ -657,10 +687,24 @@ class Metrics:
             cls.traces[rank][type_] = (None, None, False)
 
         file_trace, mem_trace, is_started = cls.traces[rank][type_]
+
+        # Nothing to do if this is already being traced
+        if (mem_trace if consumable else file_trace) is not None:
+            return
+
+        # If the rank has been registered already, start with the header
+        trace = []
+        if rank in cls.line_order or rank in cls.rank_matches:
+            trace.append(cls._getHeadings(rank))
+            is_started = True
+
+            if not consumable:
+                cls._clearTrace(rank, type_)
+
         if consumable:
-            cls.traces[rank][type_] = (file_trace, [], is_started)
+            cls.traces[rank][type_] = (file_trace, trace, is_started)
         else:
-            cls.traces[rank][type_] = ([], mem_trace, is_started)
+            cls.traces[rank][type_] = (trace, mem_trace, is_started)
 
     @classmethod
     def _writeTrace(cls, rank, type_):
-- 
2.43.0


From c57b76c22cda50f32fea3670478f374aac9b5587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 47/65] fix: populating a non-empty output without a shape
 works while collecting

---
 fibertree/core/iterators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 1e28261..94f3553 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -1192,7 +1192,11 @@ def __lshift__(self, other, start_pos=None):
                     a_max = self.a_fiber.maxCoord()
                     if b_pos == 0 and a_max is not None and compressed_output:
                         inserting = b_coord < a_max
-                        assert insert_pos is not None
+
+                        # Without a shape, the staging area is placed behind
+                        # the elements of the fiber
+                        if insert_pos is None:
+                            insert_pos = self.a_fiber.getShape(all_ranks=False)
 
                     # Read the B coordinate
                     if b_traced:
-- 
2.43.0


From 0703c9e0857ed4d947d4720acfdd2f228843e05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:25 +0000
Subject: [PATCH 48/65] fix: dense iteration is traced

---
 fibertree/core/iterators.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 94f3553..174f752 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -215,6 +215,10 @@ def iterRangeShape(self, start, end, step=1, tick=True):
 
     for c in range(start, end, step):
         p = self.getPayload(c)
+
+        if is_collecting and tick:
+            Metrics.addUse(rank, c, _dense_pos(self, c))
+
         yield CoordPayload(c, p)
 
         if is_collecting and tick:
@@ -249,6 +253,10 @@ def iterRangeShapeRef(self, start, end, step=1, tick=True):
 
     for c in range(start, end, step):
         p = self.getPayloadRef(c)
+
+        if is_collecting and tick:
+            Metrics.addUse(rank, c, _dense_pos(self, c))
+
         yield CoordPayload(c, p)
 
         if is_collecting and tick:
@@ -275,6 +283,15 @@ def _prep_metrics_inc(fiber):
 
     return is_collecting, rank
 
+def _dense_pos(fiber, coord):
+    """The position of a coordinate reached by a dense traversal: its index in
+    the fiber, or, if it is not stored explicitly, where it would be
+    """
+    if _iter_format(fiber) == "U":
+        return coord - fiber.getActive()[0]
+
+    return bisect.bisect_left(fiber.coords, coord)
+
 #
 # Dense coiterators
 #
-- 
2.43.0


From e0feed29a28be2c63c816d512eb0d45be9d49705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:08 +0000
Subject: [PATCH 49/65] fix: Fiber.trace() gives the positions of the elements

---
 fibertree/core/fiber.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 7414ee1..bcedf87 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4832,8 +4832,9 @@ class Fiber:
 
         rank = self.getRankAttrs().getId()
         depth = Metrics.getIndex(rank)
-        for i, (c, p) in enumerate(self.__iter__(tick=False)):
-            Metrics.addUse(rank, c, i, type_=trace_type, iteration_num=iteration_num)
+        elements = _positioned(self)
+        for c, p in elements:
+            Metrics.addUse(rank, c, elements.pos, type_=trace_type, iteration_num=iteration_num)
 
             # Recurse down the tree
             if isinstance(p, Fiber):
-- 
2.43.0


From 35508a8b482c34e532ba5d6e50e97fc372195fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:59 +0000
Subject: [PATCH 50/65] fix: a kernel without operations has counts of 0

---
 fibertree/model/compute.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fibertree/model/compute.py b/fibertree/model/compute.py
index 9b9833c..de67e8e 100644
--- a/fibertree/model/compute.py
+++ b/fibertree/model/compute.py
@@ -35,10 +35,9 @@ class Compute:
     def numOps(dump, op):
         """Compute the number of operations executed by this kernel """
         metric = "payload_" + op
-        if(metric in dump["Compute"].keys()):
-            return dump["Compute"][metric]
-        else:
-            return 0
+
+        # Nothing is recorded for a kernel without any operations
+        return dump.get("Compute", {}).get(metric, 0)
 
     @staticmethod
     def numSwaps(tensor, depth, radix, next_latency):
-- 
2.43.0


From 6902472d0f60df69d8ea6523fa1c6b7f6b9a2ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 51/65] fix: an operation with an element counts once

---
 fibertree/core/payload.py | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/fibertree/core/payload.py b/fibertree/core/payload.py
index d903f82..365eeb7 100644
--- a/fibertree/core/payload.py
+++ b/fibertree/core/payload.py
@@ -384,13 +384,27 @@ class Payload:
 #
 # Arithmetic operations
 #
+    @staticmethod
+    def _operand(other):
+        """The value of the other operand of a counted operation
+
+        Unboxing the payload of an element (`CoordPayload`) here, instead of
+        leaving the operation to the element, makes it a single operation.
+        """
+        if not isinstance(other, Payload):
+            payload = getattr(other, "payload", None)
+
+            if not isinstance(payload, Payload):
+                return other
+
+            other = payload
+
+        return other.value
+
     def __add__(self, other):
         """__add__"""
 
-        if isinstance(other, Payload):
-            ans = self.value + other.value
-        else:
-            ans = self.value + other
+        ans = self.value + Payload._operand(other)
 
         # Collect metrics
         if Metrics.isCollecting():
@@ -413,10 +427,7 @@ class Payload:
         """__iadd__"""
         old = self.value
 
-        if isinstance(other, Payload):
-            self.value = self.value + other.value
-        else:
-            self.value = self.value + other
+        self.value = self.value + Payload._operand(other)
 
         # Collect metrics
         if Metrics.isCollecting():
@@ -518,10 +529,7 @@ class Payload:
     def __mul__(self, other):
         """__mul__"""
 
-        if isinstance(other, Payload):
-            ans = self.value * other.value
-        else:
-            ans = self.value * other
+        ans = self.value * Payload._operand(other)
 
         # Collect metrics
         if Metrics.isCollecting():
@@ -594,10 +602,7 @@ class Payload:
     def __imul__(self, other):
         """__imul__"""
 
-        if isinstance(other, Payload):
-            self.value = self.value * other.value
-        else:
-            self.value = self.value * other
+        self.value = self.value * Payload._operand(other)
 
         # Collect metrics
         if Metrics.isCollecting():
-- 
2.43.0


From 190f5b33aefeb4c7714063d23712eb32352442b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 52/65] fix: inspecting a fiber does not tick the loop

---
 fibertree/core/fiber.py   | 13 +++++++------
 fibertree/model/format.py |  4 ++--
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index bcedf87..0819030 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2822,7 +2822,7 @@ class Fiber:
             if shape and all_ranks:
                 # Not authoritative
                 rest = list(self._shape_below)
-                for _, p in self:
+                for _, p in self.__iter__(tick=False):
                     if not isinstance(p, Fiber):
                         continue
 
@@ -3137,16 +3137,17 @@ class Fiber:
 
         f = []
 
-        shape_fiber = Fiber(coords=list(range(shape[level])), initial=1)
-        for c, (mask, p, _) in self | shape_fiber:
+        stored = {c: p for c, p in self.iterOccupancy(tick=False)}
+
+        for c in range(shape[level]):
+            if c in stored:
+                p = stored[c]
 
-            if (mask == "AB"):
                 if Payload.contains(p, Fiber):
                     f.append(Payload.get(p).uncompress(shape, level + 1))
                 else:
                     f.append(Payload.get(p))
-
-            if (mask == "B"):
+            else:
                 f.append(self._fillempty(shape, level + 1))
 
         return f
diff --git a/fibertree/model/format.py b/fibertree/model/format.py
index 634f9b6..a000fb0 100644
--- a/fibertree/model/format.py
+++ b/fibertree/model/format.py
@@ -182,9 +182,9 @@ class Format:
 
             # Add child fibers
             if self.spec[rank]["format"] == "U":
-                iter_ = fiber.iterShape()
+                iter_ = fiber.iterShape(tick=False)
             else:
-                iter_ = fiber.iterOccupancy()
+                iter_ = fiber.iterOccupancy(tick=False)
 
             for _, payload in iter_:
                 if isinstance(payload, Fiber):
-- 
2.43.0


From a3037084b3679b08afd84a7259c453265faacd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:52 +0000
Subject: [PATCH 53/65] fix: filterTrace keeps every row whose point is in the
 filter

---
 fibertree/model/traffic.py | 43 ++++++++++++--------------------------
 1 file changed, 13 insertions(+), 30 deletions(-)

diff --git a/fibertree/model/traffic.py b/fibertree/model/traffic.py
index e23d083..75dec90 100644
--- a/fibertree/model/traffic.py
+++ b/fibertree/model/traffic.py
@@ -36,41 +36,24 @@ class Traffic:
         output_fn: str
             Filename of the output trace
         """
-        def get_data(line):
-            if line:
-                full = line[:-1].split(",")[:-1]
-                return tuple(int(val) for val in full[len(full) // 2:])
-
-            return ()
+        def get_point(line):
+            full = line.rstrip("\n").split(",")[:-1]
+            return tuple(full[len(full) // 2:])
 
         with open(input_fn, "r") as f_in, open(filter_fn, "r") as f_fil, \
                 open(output_fn, "w") as f_out:
-            f_out.write(f_in.readline())
-            f_fil.readline()
-
-            line_in = f_in.readline()
-            line_fil = f_fil.readline()
-
-            data_in = get_data(line_in)
-            data_fil = get_data(line_fil)[:len(data_in)]
-
-            while line_in and line_fil:
-                if data_in == data_fil:
-                    f_out.write(line_in)
+            head = f_in.readline()
+            f_out.write(head)
+            num_ranks = len(get_point(head))
 
-                    line_in = f_in.readline()
-                    line_fil = f_fil.readline()
-
-                    data_in = get_data(line_in)
-                    data_fil = get_data(line_fil)[:len(data_in)]
-
-                elif data_in < data_fil:
-                    line_in = f_in.readline()
-                    data_in = get_data(line_in)
+            # The points of the filter; neither file need be sorted by point
+            # (and either may have a point more than once)
+            f_fil.readline()
+            points = {get_point(line)[:num_ranks] for line in f_fil}
 
-                else:
-                    line_fil = f_fil.readline()
-                    data_fil = get_data(line_fil)[:len(data_in)]
+            for line in f_in:
+                if get_point(line) in points:
+                    f_out.write(line)
 
     @staticmethod
     def _combineTraces(read_fn=None, write_fn=None, comb_fn=None):
-- 
2.43.0


From 7fc18e30755d26a99ed2ab7a6cc3992cdc6095e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 54/65] fix: the staging area of a rank begins at that rank's
 shape

---
 fibertree/model/traffic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fibertree/model/traffic.py b/fibertree/model/traffic.py
index 75dec90..1a5b0e6 100644
--- a/fibertree/model/traffic.py
+++ b/fibertree/model/traffic.py
@@ -453,6 +453,7 @@ class Traffic:
         # writes we can ignore
         shapes = []
         for i, info in enumerate(bind_info):
+            tensor, rank = info[:2]
             if pin_intermediate_writes(info):
                 shape = formats[tensor].tensor.getShape(authoritative=True)
                 assert shape is not None
-- 
2.43.0


From 2ceff38934fe76ae82702ca730607ff47459beb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:40 +0000
Subject: [PATCH 55/65] fix: the cache finds the line that is accessed

---
 fibertree/model/traffic.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/fibertree/model/traffic.py b/fibertree/model/traffic.py
index 1a5b0e6..eb440bc 100644
--- a/fibertree/model/traffic.py
+++ b/fibertree/model/traffic.py
@@ -645,6 +645,13 @@ class Traffic:
         def pin_intermediate_writes(info):
             return info + ("write",) in trace_fns
 
+        def take(next_evict, list_elem):
+            # The element is due now, but so may be others that share the point
+            # of their next access
+            for i, elem in enumerate(next_evict):
+                if elem is list_elem:
+                    return next_evict.pop(i)
+
         def pre_sim_hook(bind_info):
             next_evict = SortedList()
 
@@ -667,11 +674,9 @@ class Traffic:
             # Do not buffer if never used again
             if trace[num_ranks * 2 + 2] is None:
                 if obj in objs[tensor][type_]:
-                    if next_evict and next_evict[0].obj == obj:
-                        list_elem = next_evict.pop(0)
-                    else:
-                        assert obj in pinned[tensor][type_]
-                        list_elem = objs[tensor][type_][obj][1]
+                    list_elem = objs[tensor][type_][obj][1]
+                    if obj not in pinned[tensor][type_]:
+                        take(next_evict, list_elem)
 
                     list_elem.next_access = [float("inf")]
 
@@ -682,9 +687,8 @@ class Traffic:
                 return False, sim_info
 
             # If this element is in the cache, but not pinned
-            if next_evict and next_evict[0].obj == obj \
-                    and next_evict[0].pos == bind_pos:
-                list_elem = next_evict.pop(0)
+            if obj in objs[tensor][type_] and obj not in pinned[tensor][type_]:
+                list_elem = take(next_evict, objs[tensor][type_][obj][1])
                 list_elem.next_access = next_access
 
                 next_evict.add(list_elem)
-- 
2.43.0


From 911c9daff4c87f2c5f5d932c2c7751d7176cc707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:35 +0000
Subject: [PATCH 56/65] fix: intersectors never compare across fibers

---
 fibertree/model/intersect.py | 234 ++++++++++++++++-------------------
 1 file changed, 105 insertions(+), 129 deletions(-)

diff --git a/fibertree/model/intersect.py b/fibertree/model/intersect.py
index 71e1b0d..5f43951 100644
--- a/fibertree/model/intersect.py
+++ b/fibertree/model/intersect.py
@@ -16,7 +16,7 @@ class Intersector:
 
         """
         self.num_intersects = 0
-        self.started = False
+        self.started = set()
 
     def addTraces(self, *traces):
         """Consume the information in the trace to count intersections
@@ -53,6 +53,71 @@ class Intersector:
         """
         return self.num_intersects
 
+    def _getRows(self, i, trace):
+        """Get the rows of the trace without the header
+
+        Parameters
+        ----------
+
+        i: int
+            The position of this trace in the arguments of addTraces
+
+        trace: list
+            List of entries added since the last call to addTraces
+
+        Returns
+        -------
+
+        rows: list
+            The rows describing an access
+
+        Note: Traces need not start at the same time, since a trace remains
+        empty until the first access (and the header comes with it)
+
+        """
+        if i not in self.started and trace:
+            self.started.add(i)
+            return trace[1:]
+
+        return trace
+
+    def _getFibers(self, trace0, trace1):
+        """Get the coordinates of the two operands, one fiber at a time
+
+        Parameters
+        ----------
+
+        trace0: list
+            List of rows for the first operand
+
+        trace1: list
+            List of rows for the second operand
+
+        Returns
+        -------
+
+        fibers: list
+            List of (coords0, coords1) for each fiber both operands accessed
+
+        """
+        fibers0 = self._groupRows(trace0)
+        fibers1 = self._groupRows(trace1)
+
+        return [(coords, fibers1[key]) for key, coords in fibers0.items()
+                if key in fibers1]
+
+    @staticmethod
+    def _groupRows(trace):
+        """Group the coordinates accessed by the fiber they belong to, i.e.,
+        by the iteration stamp and the point of the enclosing loops"""
+        fibers = {}
+        for row in trace:
+            num_ranks = (len(row) - 1) // 2
+            key = (*row[:num_ranks - 1], *row[num_ranks:num_ranks * 2 - 1])
+            fibers.setdefault(key, []).append(row[num_ranks * 2 - 1])
+
+        return fibers
+
 class LeaderFollowerIntersector(Intersector):
     """Class for counting intersections with a leader-follower intersector"""
 
@@ -73,14 +138,8 @@ class LeaderFollowerIntersector(Intersector):
         """
         assert len(traces) == 1
 
-        new_intersects = len(traces[0])
-
         # Throw away the header, since we don't need it
-        if not self.started:
-            self.started = True
-            new_intersects -= 1
-
-        self.num_intersects += new_intersects
+        self.num_intersects += len(self._getRows(0, traces[0]))
 
 class SkipAheadIntersector(Intersector):
     """Class for counting intersections with a skip-ahead-intersector"""
@@ -104,81 +163,38 @@ class SkipAheadIntersector(Intersector):
         """
         assert len(traces) == 2
 
-        trace0 = traces[0]
-        trace1 = traces[1]
+        trace0 = self._getRows(0, traces[0])
+        trace1 = self._getRows(1, traces[1])
 
-        # Throw away the header, since we don't need it
-        if not self.started and trace0:
-            self.started = True
-
-            self.num_ranks = (len(trace0[0]) - 1) // 2
-
-            trace0 = trace0[1:]
-            trace1 = trace1[1:]
-
-        i0 = -1
-        i1 = -1
-
-        def get_next(trace, i):
-            if i + 1 < len(trace):
-                return trace[i + 1][self.num_ranks:self.num_ranks * 2], i + 1
-            return None, None
-
-        point0, i0 = get_next(trace0, i0)
-        point1, i1 = get_next(trace1, i1)
-
-        if point0 is None or point1 is None:
-            return
-
-        assert point0 is not None and point1 is not None and point0[:-1] == point1[:-1]
-
-        fiber = point0[:-1]
-        curr = None
-
-        while point0 and point1:
-            if point0 == point1:
-                self.num_intersects += 1
-                curr = None
-
-                point0, i0 = get_next(trace0, i0)
-                point1, i1 = get_next(trace1, i1)
-
-            elif point0 < point1:
-                if curr != 0:
-                    curr = 0
-                    self.num_intersects += 1
-
-                point0, i0 = get_next(trace0, i0)
+        for coords0, coords1 in self._getFibers(trace0, trace1):
+            i0 = 0
+            i1 = 0
 
-                # If we have reached the end of this iteration, forward the other
-                # finger to the next fiber
-                if point0 is None or fiber != point0[:-1]:
-                    point1, i1 = get_next(trace1, i1)
+            # Which finger is currently skipping ahead
+            curr = None
 
-            # point0 > point1
-            else:
-                if curr != 1:
-                    curr = 1
+            while i0 < len(coords0) and i1 < len(coords1):
+                if coords0[i0] == coords1[i1]:
                     self.num_intersects += 1
+                    curr = None
 
-                point1, i1 = get_next(trace1, i1)
+                    i0 += 1
+                    i1 += 1
 
-                # If we have reached the end of this iteration, forward the other
-                # finger to the next fiber
-                if point1 is None or fiber != point1[:-1]:
-                    point0, i0 = get_next(trace0, i0)
+                elif coords0[i0] < coords1[i1]:
+                    if curr != 0:
+                        curr = 0
+                        self.num_intersects += 1
 
-            old_fiber = fiber
-            if point0:
-                fiber = point0[:-1]
-            else:
-                fiber = None
+                    i0 += 1
 
-            # Do not need to check point1 because both fingers should fall of
-            # the end of the trace at the same time
+                # coords0[i0] > coords1[i1]
+                else:
+                    if curr != 1:
+                        curr = 1
+                        self.num_intersects += 1
 
-            if fiber != old_fiber:
-                curr = None
+                    i1 += 1
 
 class TwoFingerIntersector(Intersector):
     """Class for counting intersections with a two-finger-intersector"""
@@ -200,63 +216,23 @@ class TwoFingerIntersector(Intersector):
         """
         assert len(traces) == 2
 
-        trace0 = traces[0]
-        trace1 = traces[1]
+        trace0 = self._getRows(0, traces[0])
+        trace1 = self._getRows(1, traces[1])
 
-        # Throw away the header, since we don't need it
-        if not self.started:
-            self.started = True
-
-            self.num_ranks = (len(trace0[0]) - 1) // 2
-
-            trace0 = trace0[1:]
-            trace1 = trace1[1:]
-
-        i0 = -1
-        i1 = -1
-
-        def get_next(trace, i):
-            if i + 1 < len(trace):
-                return trace[i + 1][self.num_ranks:self.num_ranks * 2], i + 1
-            return None, None
-
-        point0, i0 = get_next(trace0, i0)
-        point1, i1 = get_next(trace1, i1)
-
-        if point0 is None or point1 is None:
-            return
-
-        assert point0 is not None and point1 is not None and point0[:-1] == point1[:-1]
+        for coords0, coords1 in self._getFibers(trace0, trace1):
+            i0 = 0
+            i1 = 0
 
-        fiber = point0[:-1]
-
-        while point0 and point1:
-            self.num_intersects += 1
-
-            if point0 == point1:
-                point0, i0 = get_next(trace0, i0)
-                point1, i1 = get_next(trace1, i1)
-
-            elif point0 < point1:
-                point0, i0 = get_next(trace0, i0)
-
-                # If we have reached the end of this iteration, forward the other
-                # finger to the next fiber
-                if point0 is None or fiber != point0[:-1]:
-                    point1, i1 = get_next(trace1, i1)
-
-
-            # point0 > point1
-            else:
-                point1, i1 = get_next(trace1, i1)
+            while i0 < len(coords0) and i1 < len(coords1):
+                self.num_intersects += 1
 
-                # If we have reached the end of this iteration, forward the other
-                # finger to the next fiber
-                if point1 is None or fiber != point1[:-1]:
-                    point0, i0 = get_next(trace0, i0)
+                if coords0[i0] == coords1[i1]:
+                    i0 += 1
+                    i1 += 1
 
-            if point0:
-                fiber = point0[:-1]
-            else:
-                fiber = None
+                elif coords0[i0] < coords1[i1]:
+                    i0 += 1
 
+                # coords0[i0] > coords1[i1]
+                else:
+                    i1 += 1
-- 
2.43.0


From 6b712c6b3b701981051cd5626a05d0062e39ca03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:15 +0000
Subject: [PATCH 57/65] fix: numSwaps does not depend on payload values

---
 fibertree/model/compute.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/fibertree/model/compute.py b/fibertree/model/compute.py
index de67e8e..0fc976d 100644
--- a/fibertree/model/compute.py
+++ b/fibertree/model/compute.py
@@ -74,18 +74,20 @@ class Compute:
         # Recurse if necessary
         if depth > 0:
             depth -= 1
-            for _, payload in fiber:
+            for payload in fiber.getPayloads():
                 swaps += Compute._numSwapsTree(payload, depth, radix, next_latency)
             return swaps
 
-        # Otherwise merge
+        # Otherwise merge all children with at least one coordinate (the values
+        # of the payloads do not matter)
         coords = []
-        for _, payload in fiber:
-            coords.append(sorted([-c for c in payload.getCoords()]))
+        for payload in fiber.getPayloads():
+            if len(payload.getCoords()) > 0:
+                coords.append(sorted([-c for c in payload.getCoords()]))
 
         while len(coords) > 1:
             new = []
-            if radix > len(coords):
+            if radix == "N" or radix > len(coords):
                 radix = len(coords)
 
             for i in range(0, len(coords), radix):
-- 
2.43.0


From 538ea6c1d361bb8ec0fc0b3db39e062ec245199e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:47 +0000
Subject: [PATCH 58/65] fix: bit vectors hand an imposed shape down

---
 fibertree/codec/formats/bitvector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/codec/formats/bitvector.py b/fibertree/codec/formats/bitvector.py
index 5a8bb1f..a0e09ac 100644
--- a/fibertree/codec/formats/bitvector.py
+++ b/fibertree/codec/formats/bitvector.py
@@ -40,7 +40,7 @@ class Bitvector(CompressionFormat):
         
         for ind, (val) in a:
             if depth < len(ranks) - 1:
-                fiber, child_occupancy = codec.encode(depth + 1, val, ranks, output, output_tensor)
+                fiber, child_occupancy = codec.encode(depth + 1, val, ranks, output, output_tensor, shape=shape)
                 # store coordinate explicitly
                 self.payloads.append(fiber)
                 if isinstance(cumulative_occupancy, int):
-- 
2.43.0


From 121fd3926993f1ab629e003aa33403e44d89a1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:23 +0000
Subject: [PATCH 59/65] fix: payloads of compressed upper ranks lead to their
 own fibers

---
 fibertree/codec/formats/bitvector.py  |  7 +++++++
 fibertree/codec/formats/coord_list.py | 18 ++++--------------
 2 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/fibertree/codec/formats/bitvector.py b/fibertree/codec/formats/bitvector.py
index a0e09ac..7609a65 100644
--- a/fibertree/codec/formats/bitvector.py
+++ b/fibertree/codec/formats/bitvector.py
@@ -15,6 +15,8 @@ class Bitvector(CompressionFormat):
         self.bits_per_word = 32
         self.bits_per_line = self.bits_per_word * self.words_in_line
         self.iter_handle = TwoHandle()
+        # number of elements in the previous fibers of this rank
+        self.occupancy_so_far = 0
 
     # instantiate current fiber in B format
     def encodeFiber(self, a, dim_len, codec, depth, ranks, output, output_tensor, shape=None):
@@ -127,6 +129,11 @@ class Bitvector(CompressionFormat):
         # self.prev_coord_at_payload = iter_handle.coords_handle
         return super().handleToPayload(iter_handle.payloads_handle)
 
+    # the fibers below follow each other in the order of the elements of this
+    # rank, so skip those below the previous fibers
+    def payloadToFiberHandle(self, payload):
+        return self.occupancy_so_far + payload
+
     # does this need to return a payload handle?
     # NOTE: in bitvector, handles to coords and payloads are different
     def coordToHandle(self, coord):
diff --git a/fibertree/codec/formats/coord_list.py b/fibertree/codec/formats/coord_list.py
index 97ec4d4..6af985d 100644
--- a/fibertree/codec/formats/coord_list.py
+++ b/fibertree/codec/formats/coord_list.py
@@ -11,7 +11,7 @@ class CoordinateList(CompressionFormat):
         self.is_leaf = False
         # self.next_fmt = None
         # list of sizes of fibers so far in this rank
-        self.occupancy_so_far = None
+        self.occupancy_so_far = 0
 
         # cache line locality
         self.elts_per_line = 4
@@ -226,23 +226,13 @@ class CoordinateList(CompressionFormat):
 
     # API Methods
     def handleToPayload(self, handle):
-        # if next level has implicit payloads above (e.g. U), payload is implicit
-        if self.next_fmt != None and not self.next_fmt.encodeUpperPayload():
-            print("\t\tnext level not encoded, ret {}".format(self.occupancy_so_far))
-            
-            return self.occupancy_so_far # self.idx_in_rank + handle
         return handle
 
     # API Methods
+    # the fibers below follow each other in the order of the elements of this
+    # rank, so skip those below the previous fibers
     def payloadToFiberHandle(self, payload):
-        # if next level has implicit payloads above (e.g. U), payload is implicit
-        if not self.next_fmt.encodeUpperPayload():
-            print("\t{} next level not encoded, payload {} ret {}".format(self.name, payload, payload))
-            return payload # self.idx_in_rank # + payload
-        
-        # print("\t{} payloadToFiberHandle:: ret {}".format(self.name, payload))
-        return payload
-
+        return self.occupancy_so_far + payload
 
     # return handle for termination
     def updatePayload(self, handle, payload):
-- 
2.43.0


From 648bb1c3895a6464cf18883398f2aa0976ac3507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:29 +0000
Subject: [PATCH 60/65] fix: an empty coordinate list has a size

---
 fibertree/codec/formats/coord_list.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/fibertree/codec/formats/coord_list.py b/fibertree/codec/formats/coord_list.py
index 6af985d..628280a 100644
--- a/fibertree/codec/formats/coord_list.py
+++ b/fibertree/codec/formats/coord_list.py
@@ -267,9 +267,6 @@ class CoordinateList(CompressionFormat):
     # get size of representation
     def getSize(self): 
         # self.printFiber()
-        if self.next_fmt != None and self.next_fmt.encodeUpperPayload():
-            assert(len(self.payloads) > 0)
-
         size = len(self.coords) + len(self.occupancies)
         # Don't need to store occupancies if lower level is U
         # if not isinstance(self.payloads[0], CompressionFormat):
-- 
2.43.0


From 22982d040cce5e25675c5d7c9aa783649aea14d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:27 +0000
Subject: [PATCH 61/65] fix: keep shape and default when merging ranks with
 empty sub-fibers

---
 fibertree/core/fiber.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 0819030..3420d3a 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4545,7 +4545,7 @@ class Fiber:
         range_start = None
         range_end = None
 
-        default = Payload(0)
+        default = None
         up_shape = self.getShape(all_ranks=False, authoritative=True)
         low_shape = None
 
@@ -4561,9 +4561,15 @@ class Fiber:
                     range_start = min(range_start, p1.getActive()[0])
                     range_end = max(range_end, p1.getActive()[1])
 
-            default = p1.getDefault()
+            # Note: nor does the result of merging an empty fiber know its
+            # default or shape
+            if default is None or len(p1.coords) > 0:
+                default = p1.getDefault()
+
+            p1_shape = p1.getShape(all_ranks=False, authoritative=True)
+            if p1_shape is not None:
+                low_shape = p1_shape
 
-            low_shape = p1.getShape(all_ranks=False, authoritative=True)
             for c0, p0 in p1.iterOccupancy(tick=False):
                 new_coord = self._flattenCoords(c1,
                                                 c0,
@@ -4578,6 +4584,9 @@ class Fiber:
                     coords.insert(j, new_coord)
                     payloads.insert(j, [p0])
 
+        if default is None:
+            default = Payload(0)
+
         merged_payloads = [Fiber._mergeToFibertree(ps, merge_fn) for ps in payloads]
 
         # Compute the shape
-- 
2.43.0


From e7c41c9eab3f7f9cbfaa1de03b65e39c0149a658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:26 +0000
Subject: [PATCH 62/65] fix: merged fibers have a shape that covers all the
 fibers merged

---
 fibertree/core/fiber.py | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 3420d3a..218263b 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4547,7 +4547,7 @@ class Fiber:
 
         default = None
         up_shape = self.getShape(all_ranks=False, authoritative=True)
-        low_shape = None
+        low_shape = Fiber._mergedShape(cur_payloads)
 
         for i, (c1, p1) in enumerate(zip(self.coords, cur_payloads)):
             if not Payload.contains(p1, Fiber):
@@ -4566,10 +4566,6 @@ class Fiber:
             if default is None or len(p1.coords) > 0:
                 default = p1.getDefault()
 
-            p1_shape = p1.getShape(all_ranks=False, authoritative=True)
-            if p1_shape is not None:
-                low_shape = p1_shape
-
             for c0, p0 in p1.iterOccupancy(tick=False):
                 new_coord = self._flattenCoords(c1,
                                                 c0,
@@ -4625,6 +4621,29 @@ class Fiber:
 
         return Fiber(coords, merged_payloads, default=default, active_range=active_range, shape=shape)
 
+    @staticmethod
+    def _mergedShape(fibers):
+        """The authoritative shape of a rank made of the given (sibling)
+        fibers: one that holds for all of them, or None if one is unknown"""
+        merged = None
+
+        for fiber in fibers:
+            if not Payload.contains(fiber, Fiber):
+                raise PayloadError
+
+            shape = fiber.getShape(all_ranks=False, authoritative=True)
+
+            if shape is None:
+                # Note: an empty fiber may not know its shape
+                if len(fiber.coords) > 0:
+                    return None
+
+                continue
+
+            merged = shape if merged is None else Fiber._maxShape(merged, shape)
+
+        return merged
+
     @staticmethod
     def _mergeToFibertree(to_merge, merge_fn):
         """Merge the given list of payloads into a single payload
@@ -4655,7 +4674,7 @@ class Fiber:
         return Fiber(coords,
                      payloads,
                      default=to_merge[0].getDefault(),
-                     shape=to_merge[0].getShape(all_ranks=False, authoritative=True),
+                     shape=Fiber._mergedShape(to_merge),
                      active_range=(min(starts), max(ends)))
 
 
-- 
2.43.0


From 1ac6e71d5eb032fb3869f3450c5dbade419bf55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:26 +0000
Subject: [PATCH 63/65] fix: getShape covers sub-fibers that are not presented
 and tuple shapes

---
 fibertree/core/fiber.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 218263b..a11ead9 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2822,7 +2822,10 @@ class Fiber:
             if shape and all_ranks:
                 # Not authoritative
                 rest = list(self._shape_below)
-                for _, p in self.__iter__(tick=False):
+                # Note: elements that are not presented still have coordinates
+                payloads = [p for _, p in self.__iter__(tick=False)] \
+                    if self.isLazy() else self.payloads
+                for p in payloads:
                     if not isinstance(p, Fiber):
                         continue
 
@@ -2833,7 +2836,7 @@ class Fiber:
                             rest.append(ns)
 
                         else:
-                            rest[i] = max(rest[i], ns)
+                            rest[i] = Fiber._maxShape(rest[i], ns)
 
                 shape = [shape] + rest
 
-- 
2.43.0


From 215b879f101e80fd553c8f556cfd81ef750936ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:33 +0000
Subject: [PATCH 64/65] fix: a rank's shape covers fibers without a shape of
 their own

---
 fibertree/core/tensor.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index 108c789..dd2c3e0 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -724,19 +724,27 @@ class Tensor:
         for r in self.ranks:
             r.clearFibers()
 
-        self._addFiber(root)
+        # Note: a declared shape takes priority over fibers without a shape
+        declared = [not r.getAttrs().getEstimatedShape() for r in self.ranks]
 
-    def _addFiber(self, fiber, level=0):
+        self._addFiber(root, declared)
+
+    def _addFiber(self, fiber, declared, level=0):
         """Recursively fill in ranks from "fiber"."""
 
         #
         # Reconcile fiber shape with rank shape
         # with rank shape taking priority
         #
+        attrs = self.ranks[level].getAttrs()
         fiber_shape = fiber.getShape(authoritative=True, all_ranks=False)
 
+        if fiber_shape is None and not attrs.getEstimatedShape() \
+                and not declared[level]:
+            # Note: a shape taken from other fibers must cover this one too
+            fiber_shape = fiber.estimateShape(all_ranks=False)
+
         if fiber_shape:
-            attrs = self.ranks[level].getAttrs()
             rank_shape = attrs.getShape()
 
             if rank_shape:
@@ -756,7 +764,7 @@ class Tensor:
 
         for p in fiber.getPayloads():
             if Payload.contains(p, Fiber):
-                self._addFiber(Payload.get(p), level + 1)
+                self._addFiber(Payload.get(p), declared, level + 1)
 
     def getRoot(self):
         """Get the root fiber of the tensor
-- 
2.43.0


From dd7bfd6e22c970e74edd74d6449773a3f384815a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:50 +0000
Subject: [PATCH 65/65] fix: a linear flatten without a known shape has no
 infinite active range

---
 fibertree/core/fiber.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index a11ead9..c8e37fd 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4620,7 +4620,9 @@ class Fiber:
                     and (range_start < up_start or range_end > up_end):
                 active_range = (range_start, range_end)
         elif style == "linear":
-            active_range = (0, shape if shape else float("inf"))
+            # Note: if the shape is not known the active range follows it
+            if shape:
+                active_range = (0, shape)
 
         return Fiber(coords, merged_payloads, default=default, active_range=active_range, shape=shape)
 
-- 
2.43.0

