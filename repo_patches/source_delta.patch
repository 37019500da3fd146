From 5d03bfdb29ebc2b356f333d9d1bf1c18ccea25e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:33 +0000
Subject: [PATCH 01/82] fix: updateCoords reaches every fiber at depth and
 rejects colliding coordinates unchanged

---
 fibertree/core/fiber.py | 86 +++++++++++++++++++++++++----------------
 1 file changed, 52 insertions(+), 34 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index b85828c..0facac0 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2438,7 +2438,8 @@ class Fiber:
         Raises
         ------
 
-        Nothing
+        CoordinateError
+            New coordinates are not unique
 
 
         Notes
@@ -2454,7 +2455,7 @@ class Fiber:
         increasing and re-orders to make sure `self.coords` and
         `self.payloads` preserve monotonacity.
 
-        The "unique" property is not checked.
+        The "unique" property is only checked for "ordered" fibers.
 
         """
 
@@ -2467,50 +2468,67 @@ class Fiber:
         if rankid is not None:
             depth = self._rankid2depth(rankid)
 
-        if depth > 0:
-            # Recurse down to depth...
-            for p in self.payloads:
-                p.updateCoords(func, depth=depth - 1, new_shape=new_shape)
-                return None
+        #
+        # Compute all the new coordinates before changing anything, so
+        # a rejected update leaves the whole tree as it was
+        #
+        for fiber, coords, payloads in self._newCoords(func, depth):
+            fiber.coords = coords
+            fiber.payloads = payloads
 
-        # Update my coordinates
+            #
+            # Update the fiber's rank_id and/or shape
+            #
+            if new_rank_id is not None:
+                fiber.getRankAttrs().setId(new_rank_id)
 
-        no_sort_needed = True
+            if new_shape is not None:
+                fiber.getRankAttrs().setShape(new_shape)
 
-        last_coord = None
+            shape = fiber.getRankAttrs().getShape()
 
-        for i in range(len(self.coords)):
-            new_coord = func(i, self.coords[i], self.payloads[i])
-            self.coords[i] = new_coord
+            assert shape is None or isinstance(shape, type(coords[0])), \
+                "Type of shape must match shape of coordinates"
 
-            no_sort_needed = no_sort_needed and ((last_coord is None) or (last_coord <= new_coord))
-            last_coord = new_coord
+        return None
 
-        if self._ordered and not no_sort_needed:
-            #
-            # Resort the coords/payloads
-            #
-            # self.logger.debug("Fiber.updateCoords() - sort needed")
 
-            zipped_cp = zip(self.coords, self.payloads)
-            sorted_cp = sorted(zipped_cp)
-            self.coords, self.payloads = [list(tuple) for tuple in zip(*sorted_cp)]
+    def _newCoords(self, func, depth):
+        """Compute the coordinates `updateCoords()` will assign
 
-        #
-        # Update the fiber's rank_id and/or shape
-        #
-        if new_rank_id is not None:
-            self.getRankAttrs().setId(new_rank_id)
+        Returns a list of (fiber, coords, payloads) tuples with the
+        new (ordered) contents of each non-empty fiber at `depth`.
 
-        if new_shape is not None:
-            self.getRankAttrs().setShape(new_shape)
+        """
+
+        if len(self.coords) == 0:
+            return []
+
+        if depth > 0:
+            # Recurse down to depth...
+            updates = []
 
-        new_shape = self.getRankAttrs().getShape()
+            for p in self.payloads:
+                updates.extend(p._newCoords(func, depth - 1))
 
-        assert isinstance(new_shape, type(self.coords[0])), \
-            "Type of shape must match shape of coordinates"
+            return updates
 
-        return None
+        coords = [func(i, c, p)
+                  for i, (c, p) in enumerate(zip(self.coords, self.payloads))]
+        payloads = list(self.payloads)
+
+        if self._ordered:
+            #
+            # Resort the coords/payloads
+            #
+            order = sorted(range(len(coords)), key=lambda i: coords[i])
+            coords = [coords[i] for i in order]
+            payloads = [payloads[i] for i in order]
+
+            if self._unique and any(a == b for a, b in zip(coords, coords[1:])):
+                raise CoordinateError
+
+        return [(self, coords, payloads)]
 
 
     def updatePayloads(self, func, depth=0, rankid=None):
-- 
2.43.0


From d5e4e96fe8ba6212f2fd19cb2c0eec50569ef8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:00 +0000
Subject: [PATCH 02/82] fix: updatePayloads writes boxed payloads back at their
 own position

---
 fibertree/core/fiber.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 0facac0..bc6eef5 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2576,8 +2576,11 @@ class Fiber:
                 p.updatePayloads(func, depth=depth - 1)
         else:
             # Update my payloads
-            for i, (c, p) in enumerate(self.iterOccupancy(tick=False)):
-                self.payloads[i] = func(i, c, p)
+            for i, (c, p) in enumerate(zip(self.coords, self.payloads)):
+                if Payload.isEmpty(p, default=self.getDefault()):
+                    continue
+
+                self.payloads[i] = Payload.maybe_box(func(i, c, p))
 
         return None
 
-- 
2.43.0


From 6f83fa2445e405259ed82be8486177d325653056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:05 +0000
Subject: [PATCH 03/82] fix: position assignment checks coordinate order for
 negative positions

---
 fibertree/core/fiber.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index bc6eef5..d9d8694 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2097,6 +2097,13 @@ class Fiber:
             coord = None
             payload = newvalue
 
+        if isinstance(position, int) and position < 0:
+            # Allow negative indices, like __getitem__()
+            position += len(self)
+
+            if position < 0:
+                raise IndexError(f"The index ({key}) is out of range")
+
         if coord is not None:
             #
             # Check that coordinate order is maintained
-- 
2.43.0


From 9f092900ba36336d31f84b75f1770c94fe9a0123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:13 +0000
Subject: [PATCH 04/82] fix: fromRandom never stores a scalar at an interior
 level

---
 fibertree/core/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index d9d8694..2565d03 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -509,7 +509,7 @@ class Fiber:
                     if payload.isEmpty():
                         continue
             else:
-                if default == 0:
+                if default == 0 or len(shape) > 1:
                     continue
 
                 payload = 0
-- 
2.43.0


From b5b6957f38f719a34afd9431d8b1541deee6e86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:47 +0000
Subject: [PATCH 05/82] fix: fiber assignment keeps the default of a non-leaf
 rank

---
 fibertree/core/fiber.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 2565d03..f650899 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -3034,7 +3034,14 @@ class Fiber:
             self.coords = []
             self.payloads = []
 
-        self._setDefault(other.getDefault())
+        #
+        # The default of a non-leaf rank is always a fiber (which an
+        # empty, unowned `other` does not know)
+        #
+        owner = self.getOwner()
+        if owner is None or owner.getNextRank() is None:
+            self._setDefault(other.getDefault())
+
         for c, p in other:
             ref = self.getPayloadRef(c)
             ref <<= p
-- 
2.43.0


From 6351ff9631eb6f5470edfd3e34a6de07a930c74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:34 +0000
Subject: [PATCH 06/82] fix: mutators that store or drop sub-fibers keep the
 rank lists in step

---
 fibertree/core/fiber.py | 105 ++++++++++++++++++++++++++++++++++------
 fibertree/core/rank.py  |  24 +++++++++
 2 files changed, 115 insertions(+), 14 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index f650899..e5df5bd 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -1351,7 +1351,7 @@ class Fiber:
         Fiber._deprecated("Fiber.insertOrLookup() is deprecated use getPayloadRef()")
 
         if value is None:
-            value = self._createDefault()
+            value = self._createDefault(addtorank=False)
 
         payload = Payload.maybe_box(value)
 
@@ -1360,12 +1360,13 @@ class Fiber:
             index = next(x for x, val in enumerate(self.coords) if val >= coord)
             if self.coords[index] == coord:
                 return self.payloads[index]
+            payload = self._adopt(payload)
             self.coords.insert(index, coord)
             self.payloads.insert(index, payload)
             return self.payloads[index]
         except StopIteration:
             self.coords.append(coord)
-            self.payloads.append(payload)
+            self.payloads.append(self._adopt(payload))
             return self.payloads[-1]
 
 
@@ -1374,7 +1375,10 @@ class Fiber:
 
         Fiber._deprecated("Fiber.insert() is deprecated use getPayloadRef()")
 
-        payload = Payload.maybe_box(value)
+        if self._unique and coord in self.coords:
+            raise CoordinateError
+
+        payload = self._adopt(Payload.maybe_box(value))
 
         try:
             index = next(x for x, val in enumerate(self.coords) if val > coord)
@@ -1429,6 +1433,59 @@ class Fiber:
 
         return self._owner
 
+    def _adopt(self, payload):
+        """Add a fiber (and all its descendants) to the ranks below `self`
+
+        Must be called for a payload about to be stored in `self`, and
+        returns the payload to store. That will be a copy, if the
+        payload already belongs to a tensor.
+
+        """
+
+        owner = self.getOwner()
+
+        if not isinstance(payload, Fiber) \
+                or owner is None or owner.getNextRank() is None:
+            return payload
+
+        if payload.getOwner() is not None:
+            payload = payload.copy(preserve_owner=False)
+
+        owner.getNextRank().append(payload)
+
+        for i, p in enumerate(payload.payloads):
+            payload.payloads[i] = payload._adopt(p)
+
+        return payload
+
+    @staticmethod
+    def _disown(payloads):
+        """Remove fibers (and all their descendants) from their ranks"""
+
+        fibers = [p for p in payloads if isinstance(p, Fiber)]
+
+        while fibers:
+            ranks = {id(f.getOwner()): f.getOwner() for f in fibers}
+
+            for rank in ranks.values():
+                if rank is not None:
+                    rank.remove(fibers)
+
+            fibers = [p for f in fibers for p in f.payloads if isinstance(p, Fiber)]
+
+    def _replacePayload(self, pos, payload):
+        """Replace the payload at `pos` maintaining the ranks below `self`"""
+
+        old = self.payloads[pos]
+
+        if payload is not old:
+            payload = self._adopt(payload)
+
+            if self.getOwner() is not None:
+                Fiber._disown([old])
+
+        self.payloads[pos] = payload
+
     def setRankAttrs(self, attrs):
         """
         If the fiber does not have an owning rank, it can still have rank attributes
@@ -2121,7 +2178,7 @@ class Fiber:
         # A payload of None just updates the coordinate
         #
         if payload is not None:
-            self.payloads[position] = Payload.maybe_box(payload)
+            self._replacePayload(position, Payload.maybe_box(payload))
 
 
     def __len__(self):
@@ -2309,6 +2366,8 @@ class Fiber:
 
         """
 
+        Fiber._disown(self.payloads)
+
         self.coords.clear()
         self.payloads.clear()
 
@@ -2354,7 +2413,7 @@ class Fiber:
             assert self.maxCoord() is None or self.maxCoord() < coord, \
                    "Fiber coordinates in 'ordered' fibers must be monotonically increasing"
 
-        payload = Payload.maybe_box(value)
+        payload = self._adopt(Payload.maybe_box(value))
 
         self.coords.append(coord)
         self.payloads.append(payload)
@@ -2400,7 +2459,7 @@ class Fiber:
                 "Fiber coordinates in 'ordered' fibers must be monotonically increasing"
 
         self.coords.extend(other.coords)
-        self.payloads.extend(other.payloads)
+        self.payloads.extend([self._adopt(p) for p in other.payloads])
 
         return None
 
@@ -2577,19 +2636,25 @@ class Fiber:
         if rankid is not None:
             depth = self._rankid2depth(rankid)
 
+        self._updatePayloads(func, depth, Fiber._replacePayload)
+
+        return None
+
+
+    def _updatePayloads(self, func, depth, replace):
+        """Use `replace` to put the payloads computed by `func` into the fibers at `depth`"""
+
         if depth > 0:
             # Recurse down to depth...
             for p in self.payloads:
-                p.updatePayloads(func, depth=depth - 1)
+                p._updatePayloads(func, depth - 1, replace)
         else:
             # Update my payloads
             for i, (c, p) in enumerate(zip(self.coords, self.payloads)):
                 if Payload.isEmpty(p, default=self.getDefault()):
                     continue
 
-                self.payloads[i] = Payload.maybe_box(func(i, c, p))
-
-        return None
+                replace(self, i, Payload.maybe_box(func(i, c, p)))
 
 
     def unzip(self):
@@ -3031,6 +3096,8 @@ class Fiber:
             #
             # Clear out any existing data
             #
+            Fiber._disown(self.payloads)
+
             self.coords = []
             self.payloads = []
 
@@ -4581,8 +4648,18 @@ class Fiber:
 
         """
 
+        assert not self.isLazy()
+
         update_lambda = lambda i, c, p: func(p, *args, **kwargs)
-        return self.updatePayloads(update_lambda, depth=depth)
+
+        #
+        # The new payloads can have more or fewer levels than there
+        # are ranks below, so they do not become members of those ranks
+        #
+        def replace(fiber, i, p):
+            fiber.payloads[i] = p
+
+        return self._updatePayloads(update_lambda, depth, replace)
 
 
     splitUniformBelow = partialmethod(updatePayloadsBelow,
@@ -4640,7 +4717,7 @@ class Fiber:
         owners[None] = self.getOwner()
         self.setOwner(None)
 
-        for c, p in self.iterOccupancy(tick=False):
+        for c, p in zip(self.coords, self.payloads):
             if isinstance(p, Fiber):
                 owners[c] = p._detach_owner()
 
@@ -4651,7 +4728,7 @@ class Fiber:
         if owner is not None:
             self.setRankAttrs(copy.deepcopy(owner.getAttrs()))
 
-        for c, p in self.iterOccupancy(tick=False):
+        for c, p in zip(self.coords, self.payloads):
             if isinstance(p, Fiber):
                 p._attach_attrs(owners[c])
 
@@ -4660,7 +4737,7 @@ class Fiber:
         """Reattach the owners to this fiber"""
         self.setOwner(owners[None])
 
-        for c, p in self.iterOccupancy(tick=False):
+        for c, p in zip(self.coords, self.payloads):
             if isinstance(p, Fiber):
                 p._attach_owner(owners[c])
 
diff --git a/fibertree/core/rank.py b/fibertree/core/rank.py
index d1f2c64..3c2e1fb 100644
--- a/fibertree/core/rank.py
+++ b/fibertree/core/rank.py
@@ -503,6 +503,30 @@ class Rank:
         fiber.setOwner(None)
         return fiber
 
+    def remove(self, fibers):
+        """Remove fibers from a rank.
+
+        Parameters
+        ----------
+
+        fibers: list of Fibers
+            The fibers to remove from the rank, those that are not in
+            the rank are ignored
+
+        Returns
+        -------
+        Nothing
+
+        """
+
+        ids = {id(fiber) for fiber in fibers}
+
+        for fiber in self.fibers:
+            if id(fiber) in ids:
+                fiber.setOwner(None)
+
+        self.fibers = [f for f in self.fibers if id(f) not in ids]
+
 #
 # Linked list methods
 #
-- 
2.43.0


From b5057653141f69615750f5b95a0e51c13274f512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:51 +0000
Subject: [PATCH 07/82] fix: union, xor never add the absent side's default to
 the operand's ranks

---
 fibertree/core/iterators.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 4bbf87a..060d1ab 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -910,7 +910,7 @@ def __or__(self, other):
                         Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
                         a_pos += 1
 
-                    b_default = self.b_fiber._createDefault()
+                    b_default = self.b_fiber._createDefault(addtorank=False)
                     yield a_coord, ("A", a_payload, b_default)
                     a_coord, a_payload = _get_next(a)
 
@@ -920,7 +920,7 @@ def __or__(self, other):
                         Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
                         b_pos += 1
 
-                    a_default = self.a_fiber._createDefault()
+                    a_default = self.a_fiber._createDefault(addtorank=False)
                     yield b_coord, ("B", a_default, b_payload)
                     b_coord, b_payload = _get_next(b)
 
@@ -929,7 +929,7 @@ def __or__(self, other):
                     Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
                     a_pos += 1
 
-                b_default = self.b_fiber._createDefault()
+                b_default = self.b_fiber._createDefault(addtorank=False)
                 yield a_coord, ("A", a_payload, b_default)
                 a_coord, a_payload = _get_next(a)
 
@@ -938,7 +938,7 @@ def __or__(self, other):
                         Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
                         b_pos += 1
 
-                    a_default = self.a_fiber._createDefault()
+                    a_default = self.a_fiber._createDefault(addtorank=False)
                     yield b_coord, ("B", a_default, b_payload)
                     b_coord, b_payload = _get_next(b)
 
@@ -1013,23 +1013,23 @@ def __xor__(self, other):
                     b_coord, b_payload = _get_next(b)
 
                 elif a_coord < b_coord:
-                    b_default = self.b_fiber._createDefault()
+                    b_default = self.b_fiber._createDefault(addtorank=False)
                     yield a_coord, ("A", a_payload, b_default)
                     a_coord, a_payload = _get_next(a)
 
                 # a_coord > b_coord
                 else:
-                    a_default = self.a_fiber._createDefault()
+                    a_default = self.a_fiber._createDefault(addtorank=False)
                     yield b_coord, ("B", a_default, b_payload)
                     b_coord, b_payload = _get_next(b)
 
             while a_coord is not None:
-                b_default = self.b_fiber._createDefault()
+                b_default = self.b_fiber._createDefault(addtorank=False)
                 yield a_coord, ("A", a_payload, b_default)
                 a_coord, a_payload = _get_next(a)
 
             while b_coord is not None:
-                a_default = self.a_fiber._createDefault()
+                a_default = self.a_fiber._createDefault(addtorank=False)
                 yield b_coord, ("B", a_default, b_payload)
                 b_coord, b_payload = _get_next(b)
 
-- 
2.43.0


From 6b8c9cf59d2877dfd33ac7f3fb0e612186c9a92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:58 +0000
Subject: [PATCH 08/82] fix: populate checks the sub-fiber to drop is the last
 of its rank before changing anything

---
 fibertree/core/iterators.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 060d1ab..e154b6e 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -1208,19 +1208,22 @@ def __lshift__(self, other, start_pos=None):
                         len(a_payload) == 0) or \
                         (not isinstance(a_payload, type(self.a_fiber)) and \
                         a_payload == self.a_fiber.getDefault()):
-                    # Clear the fiber
-                    index = bisect.bisect_left(self.a_fiber.coords, b_coord)
-                    del self.a_fiber.coords[index]
-                    del self.a_fiber.payloads[index]
-
                     # Remove the payload from its owning rank (if relevant)
                     if self.a_fiber.getOwner() is not None and \
                             self.a_fiber.getOwner().getNextRank() is not None:
-                        popped = self.a_fiber.getOwner().getNextRank().pop()
+                        next_rank = self.a_fiber.getOwner().getNextRank()
 
                         # Make sure that the rank was not modified in the
-                        # middle and we actually popped off the correct fiber
-                        assert id(a_payload) == id(popped)
+                        # middle and we are actually popping off the correct
+                        # fiber
+                        assert next_rank.getFibers()[-1] is a_payload
+
+                        next_rank.pop()
+
+                    # Clear the fiber
+                    index = bisect.bisect_left(self.a_fiber.coords, b_coord)
+                    del self.a_fiber.coords[index]
+                    del self.a_fiber.payloads[index]
 
                     # We did not actually insert anything, we need to undo the
                     # += 1 from later
-- 
2.43.0


From ee151a348d82ee88aae63498f408138accd6d7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:52 +0000
Subject: [PATCH 09/82] fix: a split gives each partition its own copy of an
 element that appears in several halos

---
 fibertree/core/fiber.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index e5df5bd..15d98c1 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4032,7 +4032,17 @@ class Fiber:
                       active_range=self.getActive(),
                       shape=shape)
 
+        placed = set()
+
         for part, coords, payloads, active_range in splitter(self):
+            #
+            # An element in a halo appears in more than one partition,
+            # and each partition needs a payload of its own
+            #
+            payloads = [Fiber._copyPayload(p) if id(p) in placed else p
+                        for p in payloads]
+            placed.update(id(p) for p in payloads)
+
             lower = Fiber(coords=coords,
                           payloads=payloads,
                           active_range=active_range,
@@ -4700,6 +4710,15 @@ class Fiber:
         return copied
 
 
+    @staticmethod
+    def _copyPayload(payload):
+        """Copy a payload (fibers are copied without their owner)"""
+
+        if isinstance(payload, Fiber):
+            return payload.copy(preserve_owner=False)
+
+        return copy.deepcopy(payload)
+
     def __deepcopy__(self, memo):
         """__deepcopy__
 
-- 
2.43.0


From 96c4582fb6f91527e942ec5735a4a9fa459b02f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:24 +0000
Subject: [PATCH 10/82] fix: a search start position beyond the coordinate no
 longer hides or duplicates it

---
 fibertree/core/fiber.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 15d98c1..04ec4c9 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -5136,6 +5136,14 @@ class Fiber:
             #
             # Find coordinate in an ordered fiber
             #
+            #
+            # A `start_pos` is only a shortcut if it is not already
+            # beyond the coordinate
+            #
+            if start_pos is not None and start_pos > 0 \
+                    and (start_pos > len(coords) or coords[start_pos - 1] >= coord):
+                start_pos = None
+
             if start_pos is None:
                 #
                 # Do a bisection search
-- 
2.43.0


From b5ac5e59bf8676b14cc83edbff4f89ec5d12f50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:24 +0000
Subject: [PATCH 11/82] fix: lazily produced fibers deliver proper defaults,
 keep uncompressed elements and tolerate empty operands

- the absent side of a co-iteration over a lazy operand is a default of that operand
- differences, projections and prunings of an uncompressed fiber present its default-valued elements
- leader-follower intersection never starts a search from a stale saved position
- intersection with tuple coordinates and projection accept empty operands
---
 fibertree/core/fiber.py     | 49 +++++++++++++++++++++++++++++++------
 fibertree/core/iterators.py | 26 +++++++++++++++-----
 2 files changed, 62 insertions(+), 13 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 04ec4c9..cf50a7b 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -295,6 +295,8 @@ class Fiber:
         #
         self._setIsLazy(False)
         self.iter = None
+        self._lazy_default = None
+        self._lazy_dense = False
 
     @classmethod
     def fromCoordPayloadList(cls, cp, **kwargs):
@@ -1073,6 +1075,8 @@ class Fiber:
 
         result = Fiber.fromIterator(prune_iterator, active_range=self.getActive())
         result._setDefault(self.getDefault())
+        result._setLazyDefault(lambda: self._createDefault(addtorank=False),
+                               dense=self._isDense())
         result.getRankAttrs().setId(self.getRankAttrs().getId())
 
         return result
@@ -1235,10 +1239,7 @@ class Fiber:
 
         # Get an example of a coordinate if one was not provided
         if coord_ex is None:
-            if len(self) > 0:
-                coord_ex, _ = next(self.iterOccupancy(tick=False))
-            else:
-                coord_ex = 0
+            coord_ex, _ = next(self.iterOccupancy(tick=False), (0, None))
 
         c0 = Fiber._transCoord(coord_ex, lambda c: 0)
         c1 = Fiber._transCoord(coord_ex, lambda c: 1)
@@ -1250,12 +1251,15 @@ class Fiber:
 
             # Build an iterator over the reversed fiber
             class reversed_iterator:
-                cps = list(zip(self.coords, self.payloads))
+                fiber = self
 
                 def __iter__(self):
-                    return reversed(self.cps)
+                    return reversed([(c, p) for c, p in self.fiber.__iter__(tick=False)])
 
-            fiber = Fiber.fromIterator(reversed_iterator)
+            fiber = Fiber.fromIterator(reversed_iterator, active_range=self.getActive())
+            fiber._setDefault(self.getDefault())
+            fiber._setLazyDefault(None, dense=self._isDense())
+            fiber.getRankAttrs().setId(self.getRankAttrs().getId())
 
         else:
             fiber = self
@@ -1335,6 +1339,8 @@ class Fiber:
 
         result = Fiber.fromIterator(project_iterator, active_range=(min_, max_))
         result._setDefault(self.getDefault())
+        result._setLazyDefault(lambda: self._createDefault(addtorank=False),
+                               dense=self._isDense())
         if rank_id is not None:
             result.getRankAttrs().setId(rank_id)
 
@@ -1642,6 +1648,9 @@ class Fiber:
 
         """
 
+        if self.isLazy() and self._lazy_default is not None:
+            return Payload.maybe_box(self._lazy_default())
+
         owner = self.getOwner()
 
         default = self.getDefault()
@@ -2015,6 +2024,32 @@ class Fiber:
 
         """
         return self._is_lazy
+
+    def _setLazyDefault(self, default_fn, dense=False):
+        """Record what a lazy fiber presents where its operands are empty
+
+        Parameters
+        ----------
+        default_fn: function
+            Function creating a (fresh) default payload
+
+        dense: bool
+            Whether default valued elements are presented, i.e., the
+            elements come from a fiber in an uncompressed rank
+
+        """
+
+        self._lazy_default = default_fn
+        self._lazy_dense = dense
+
+    def _isDense(self):
+        """Does iteration of this fiber present default valued elements"""
+
+        if self.isLazy():
+            return self._lazy_dense
+
+        return self.getRankAttrs().getFormat() == "U"
+
 #
 # Position based methods
 #
diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index e154b6e..a2d2dbf 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -169,7 +169,8 @@ def iterRange(self, start, end, tick=True, start_pos=None):
 
         # If we are within the range, emit the non-default elements
         elif start is None or coord >= start:
-            if not Payload.isEmpty(payload, default=self.getDefault()):
+            if (self.isLazy() and self._isDense()) \
+                    or not Payload.isEmpty(payload, default=self.getDefault()):
                 if start_pos is not None:
                     self.setSavedPos(i + j, distance=j)
 
@@ -516,7 +517,8 @@ def intersection(*args, **kwargs):
             fibers = args
 
             def __iter__(self):
-                start_pos = [None] * (len(self.fibers) - 1)
+                start_pos = [0 if fiber.isOrdered() else None
+                             for fiber in self.fibers[1:]]
 
                 is_collecting = Metrics.isCollecting()
                 leader_traced = False
@@ -536,9 +538,8 @@ def intersection(*args, **kwargs):
                     for j, fiber in enumerate(self.fibers[1:]):
                         p_fiber = fiber.getPayload(c, start_pos=start_pos[j], trace=traces[j + 1])
 
-                        saved = fiber.getSavedPos()
-                        if saved > 0:
-                            start_pos[j] = saved
+                        if start_pos[j] is not None:
+                            start_pos[j] = fiber.getSavedPos()
 
                         payloads.append(p_fiber)
 
@@ -546,6 +547,7 @@ def intersection(*args, **kwargs):
 
     # Call the constructor via the first argument
     fiber = args[0].fromIterator(intersection_iterator, active_range=args[0].getActive())
+    fiber._setLazyDefault(lambda: _create_defaults(*args))
     fiber.getRankAttrs().setId(args[0].getRankAttrs().getId())
     return fiber
 
@@ -615,6 +617,7 @@ def union(*args):
 
     fiber = args[0].fromIterator(union_iterator, active_range=args[0].getActive())
     fiber._setDefault(tuple([""]+[arg.getDefault() for arg in args]))
+    fiber._setLazyDefault(lambda: ("",) + _create_defaults(*args))
     fiber.getRankAttrs().setId(args[0].getRankAttrs().getId())
     return fiber
 #
@@ -630,6 +633,12 @@ def _get_next(iter_):
 
     return CoordPayload(coord, payload)
 
+
+def _create_defaults(*fibers):
+    """Create a fresh default payload of each of the fibers"""
+
+    return tuple(fiber._createDefault(addtorank=False) for fiber in fibers)
+
 #
 # Merge methods
 #
@@ -715,7 +724,7 @@ def __and__(self, other):
             len_a = len(a_coord) if isinstance(a_coord, tuple) else 1
             len_b = len(b_coord) if isinstance(b_coord, tuple) else 1
 
-            if len_a == len_b:
+            if len_a == len_b or a_coord is None or b_coord is None:
                 def succ_next(a, a_coord, a_payload, b, b_coord, b_payload):
                     return *_get_next(a), *_get_next(b)
 
@@ -809,6 +818,7 @@ def __and__(self, other):
             return
 
     fiber = self.fromIterator(and_iterator, active_range=self.getActive())
+    fiber._setLazyDefault(lambda: _create_defaults(self, other))
     fiber.getRankAttrs().setId(self.getRankAttrs().getId())
     return fiber
 
@@ -944,6 +954,7 @@ def __or__(self, other):
 
     result = self.fromIterator(or_iterator, active_range=self.getActive())
     result._setDefault(("", self.getDefault(), other.getDefault()))
+    result._setLazyDefault(lambda: ("",) + _create_defaults(self, other))
     result.getRankAttrs().setId(self.getRankAttrs().getId())
 
     return result
@@ -1035,6 +1046,7 @@ def __xor__(self, other):
 
     result = self.fromIterator(xor_iterator, active_range=self.getActive())
     result._setDefault(("", self.getDefault(), other.getDefault()))
+    result._setLazyDefault(lambda: ("",) + _create_defaults(self, other))
     result.getRankAttrs().setId(self.getRankAttrs().getId())
 
     return result
@@ -1368,6 +1380,8 @@ def __sub__(self, other):
 
     result = self.fromIterator(sub_iterator, active_range=self.getActive())
     result._setDefault(self.getDefault())
+    result._setLazyDefault(lambda: self._createDefault(addtorank=False),
+                           dense=self._isDense())
     result.getRankAttrs().setId(self.getRankAttrs().getId())
 
     return result
-- 
2.43.0


From 36d9b3e27c6e031b2ff45b36fd769222e3a17eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:38 +0000
Subject: [PATCH 12/82] fix: populate survives a body that drops or inserts
 elements of the destination

---
 fibertree/core/iterators.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index a2d2dbf..3cf6616 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -1180,6 +1180,13 @@ def __lshift__(self, other, start_pos=None):
 
                 # Find the position this coordinate should be inserted into
                 get_payload_pos = None
+
+                # The body may have changed the fiber, in which case the
+                # position must be searched for from the start
+                if a_pos > len(self.a_fiber.coords) or \
+                        (a_pos and self.a_fiber.coords[a_pos - 1] >= b_coord):
+                    a_pos = 0
+
                 if self.a_fiber.coords:
                     a_pos += bisect.bisect_left(self.a_fiber.coords[a_pos:], b_coord)
 
@@ -1215,6 +1222,12 @@ def __lshift__(self, other, start_pos=None):
 
                 yield b_coord, (a_payload, b_payload)
 
+                # The body may itself have dropped the element
+                index = bisect.bisect_left(self.a_fiber.coords, b_coord)
+                if index == len(self.a_fiber.coords) or \
+                        self.a_fiber.payloads[index] is not a_payload:
+                    continue
+
                 # If this was never updated, remove it
                 if maybe_remove and (isinstance(a_payload, type(self.a_fiber)) and \
                         len(a_payload) == 0) or \
@@ -1233,14 +1246,13 @@ def __lshift__(self, other, start_pos=None):
                         next_rank.pop()
 
                     # Clear the fiber
-                    index = bisect.bisect_left(self.a_fiber.coords, b_coord)
                     del self.a_fiber.coords[index]
                     del self.a_fiber.payloads[index]
 
                     # We did not actually insert anything, we need to undo the
                     # += 1 from later
                     a_pos -= 1
-                    self.a_fiber.setSavedPos(a_pos)
+                    self.a_fiber.setSavedPos(max(a_pos, 0))
 
                 # If this is a new payload, we may have to track the
                 # insert/append
-- 
2.43.0


From 796d0ee6c51c964fbfd61b477bccf9f10b462b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:48 +0000
Subject: [PATCH 13/82] fix: splits tolerate a halo element that belongs to no
 partition

---
 fibertree/core/fiber.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index cf50a7b..6c6fc99 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -3634,7 +3634,7 @@ class Fiber:
 
                         part += self.step
 
-                    search_start = min(inds)
+                    search_start = min(inds, default=search_start)
 
                 for uc, lc, lp in zip(upper_coords, lower_coords, lower_payloads):
                     yield self.build_elem(uc, lc, lp)
@@ -3812,7 +3812,7 @@ class Fiber:
 
                         i += 1
 
-                    search_start = min(inds)
+                    search_start = min(inds, default=search_start)
 
                 for i, (lc, lp) in enumerate(zip(lower_coords, lower_payloads)):
                     if lc:
-- 
2.43.0


From a00f21b24b02736db5033c1a638ce169e4445a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:48 +0000
Subject: [PATCH 14/82] fix: a partition with relative coordinates has a
 relative active range

---
 fibertree/core/fiber.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 6c6fc99..8144afb 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -3640,11 +3640,14 @@ class Fiber:
                     yield self.build_elem(uc, lc, lp)
 
             def build_elem(self, part, coords, payloads):
+                range_start = max(part, self.fiber.getActive()[0])
+                range_end = min(part + self.step, self.fiber.getActive()[1])
+
                 if relativeCoords:
                     coords = [c - part for c in coords]
+                    range_start -= part
+                    range_end -= part
 
-                range_start = max(part, self.fiber.getActive()[0])
-                range_end = min(part + self.step, self.fiber.getActive()[1])
                 active_range = (range_start, range_end)
 
                 return part, coords, payloads, active_range
@@ -3824,11 +3827,14 @@ class Fiber:
                 return coord
 
             def build_elem(self, ind, coords, payloads):
+                range_start = max(self.splits[ind], self.fiber.getActive()[0])
+                range_end = min(self.splits[ind + 1], self.fiber.getActive()[1])
+
                 if relative:
                     coords = [c - self.splits[ind] for c in coords]
+                    range_start -= self.splits[ind]
+                    range_end -= self.splits[ind]
 
-                range_start = max(self.splits[ind], self.fiber.getActive()[0])
-                range_end = min(self.splits[ind + 1], self.fiber.getActive()[1])
                 active_range = (range_start, range_end)
 
                 return self.splits[ind], coords, payloads, active_range
-- 
2.43.0


From 6e0fb3d8d5395df3c8dadd3b6ac0f4e17e23bc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:25 +0000
Subject: [PATCH 15/82] fix: splits below the root transform sub-fibers holding
 only explicit defaults, // counts the active non-empty elements

---
 fibertree/core/fiber.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 8144afb..6d8aa58 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2676,17 +2676,22 @@ class Fiber:
         return None
 
 
-    def _updatePayloads(self, func, depth, replace):
-        """Use `replace` to put the payloads computed by `func` into the fibers at `depth`"""
+    def _updatePayloads(self, func, depth, replace, empty_fibers=False):
+        """Use `replace` to put the payloads computed by `func` into the fibers at `depth`
+
+        Empty payloads are left alone, except that the empty
+        sub-fibers are also updated if `empty_fibers` is set.
+        """
 
         if depth > 0:
             # Recurse down to depth...
             for p in self.payloads:
-                p._updatePayloads(func, depth - 1, replace)
+                p._updatePayloads(func, depth - 1, replace, empty_fibers)
         else:
             # Update my payloads
             for i, (c, p) in enumerate(zip(self.coords, self.payloads)):
-                if Payload.isEmpty(p, default=self.getDefault()):
+                if Payload.isEmpty(p, default=self.getDefault()) and \
+                        not (empty_fibers and isinstance(p, Fiber)):
                     continue
 
                 replace(self, i, Payload.maybe_box(func(i, c, p)))
@@ -3529,7 +3534,7 @@ class Fiber:
         """
         assert not self.isLazy()
 
-        occupancy = len(self.coords)
+        occupancy = sum(1 for _ in self.iterActive(tick=False))
 
         return self.splitEqual ((occupancy+partitions-1)//partitions)
 
@@ -4705,12 +4710,14 @@ class Fiber:
 
         #
         # The new payloads can have more or fewer levels than there
-        # are ranks below, so they do not become members of those ranks
+        # are ranks below, so they do not become members of those ranks.
+        # Hence even a sub-fiber that only holds explicit defaults
+        # needs to be changed to keep all leaves at the same depth
         #
         def replace(fiber, i, p):
             fiber.payloads[i] = p
 
-        return self._updatePayloads(update_lambda, depth, replace)
+        return self._updatePayloads(update_lambda, depth, replace, empty_fibers=True)
 
 
     splitUniformBelow = partialmethod(updatePayloadsBelow,
-- 
2.43.0


From 1ce0de0e74bcd46945ac1f727f07f3a37a049b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:24 +0000
Subject: [PATCH 16/82] fix: splits visit the stored elements of uncompressed
 ranks, so halo elements outside the active range are not lost

---
 fibertree/core/fiber.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 6d8aa58..4459db9 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -3600,7 +3600,7 @@ class Fiber:
 
                 search_start = 0
 
-                for c, p in self.fiber.__iter__(tick=False):
+                for c, p in self.fiber.iterOccupancy(tick=False):
                     # If the coordinate will not be in any partition, skip it
                     if c < active_start - self.pre_halo:
                         continue
@@ -3786,7 +3786,7 @@ class Fiber:
 
                 search_start = 0
 
-                for c, p in self.fiber.__iter__(tick=False):
+                for c, p in self.fiber.iterOccupancy(tick=False):
                     if c < halo_start:
                         continue
 
-- 
2.43.0


From 198d1ad6cad1f552cd5191733e7760654710ea26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:21 +0000
Subject: [PATCH 17/82] fix: swizzleRanks accepts flattened ranks, explicit
 defaults and halo elements outside the active range

---
 fibertree/core/tensor.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index 2a3b92d..5f71f88 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -1395,7 +1395,8 @@ class Tensor:
         """
         # Ensure that these old and new rank_ids are permutations of each other
         old_rank_ids = self.getRankIds()
-        assert sorted(old_rank_ids) == sorted(rank_ids)
+        assert len(old_rank_ids) == len(rank_ids) and \
+            all(rank_id in rank_ids for rank_id in old_rank_ids)
 
         old_name = self.getName()
         copied = copy.deepcopy(self)
@@ -1421,7 +1422,7 @@ class Tensor:
         frontier = [(copied.getRoot(), None, None, -1)]
         frontier_coords = [None] * swiz_len
 
-        ranges = {rank: set() for rank in old_rank_ids}
+        ranges = [set() for _ in old_rank_ids]
 
         # Depth-first search through the fibertree and extract the coordinate
         # payload pairs
@@ -1431,7 +1432,7 @@ class Tensor:
                 frontier_coords[depth] = coord
 
             if parent is not None:
-                ranges[parent.getRankAttrs().getId()].add(parent.getActive())
+                ranges[depth].add(parent.getActive())
 
             # If this is the last point we need to swizzle, save the payload
             if depth == swiz_len - 1:
@@ -1488,23 +1489,21 @@ class Tensor:
         swizzled = Tensor.fromFiber(**kwargs)
 
         # For each fiber, reset its active range
-        frontier = [swizzled.getRoot()]
+        frontier = [(swizzled.getRoot(), 0)]
         while frontier:
-            fiber = frontier.pop()
-            rank = fiber.getRankAttrs().getId()
-            rank_ranges = ranges[rank]
+            fiber, depth = frontier.pop()
+            rank_ranges = ranges[guide[depth]]
 
-            if not fiber.isEmpty() and rank_ranges:
+            if fiber.coords and rank_ranges:
                 starts = [range_[0] for range_ in rank_ranges if range_[0] <= fiber.coords[0] and range_[1] > fiber.coords[0]]
-                start = min(starts)
-
                 ends = [range_[1] for range_ in rank_ranges if range_[0] <= fiber.coords[-1] and range_[1] > fiber.coords[-1]]
-                end = max(ends)
 
-                fiber.setActive((start, end))
+                # Elements of a halo can be outside of all the active ranges
+                if starts and ends:
+                    fiber.setActive((min(starts), max(ends)))
 
                 if isinstance(fiber.payloads[0], Fiber):
-                    frontier.extend(fiber.payloads)
+                    frontier.extend((p, depth + 1) for p in fiber.payloads)
 
         return swizzled
 
-- 
2.43.0


From 75e5317033924297fc7d89aca2f3ca957a1e9de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 18/82] fix: fiber equality compares non-empty elements
 irrespective of rank formats

---
 fibertree/core/fiber.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 4459db9..fbb2740 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -14,7 +14,7 @@ import bisect
 import copy
 import sys
 from functools import partialmethod
-from itertools import product
+from itertools import product, zip_longest
 
 import numbers
 import pickle
@@ -4821,14 +4821,20 @@ class Fiber:
         if not isinstance(other, Fiber):
             return False
 
-        for c, (mask, ps, po) in self | other:
-            if mask == "A":
+        #
+        # Compare the non-empty elements (irrespective of the formats)
+        #
+        elements_s = self.iterOccupancy(tick=False)
+        elements_o = other.iterOccupancy(tick=False)
+
+        for element_s, element_o in zip_longest(elements_s, elements_o):
+            if element_s is None or element_o is None:
                 return False
 
-            if mask == "B":
+            if element_s.coord != element_o.coord:
                 return False
 
-            if mask == "AB" and ps != po:
+            if element_s.payload != element_o.payload:
                 return False
 
         return True
-- 
2.43.0


From cfbe7dd953c24cc96e8dcdcb00e81733d0959ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 19/82] fix: swapping ranks keeps the shape and tolerates empty
 sub-fibers and explicit defaults

---
 fibertree/core/fiber.py  | 29 ++++++++++++++++++++++++-----
 fibertree/core/tensor.py | 16 ++++++----------
 2 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index fbb2740..8175c1d 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4184,6 +4184,17 @@ class Fiber:
         assert not self.isLazy()
         assert self._ordered and self._unique
 
+        #
+        # Make sure that there is at least one coordinate to swap
+        #
+        assert not self.isEmpty()
+
+        return self._swapRanks()
+
+
+    def _swapRanks(self):
+        """Swap the (highest) two ranks of a possibly empty fiber"""
+
         #
         # Flatten the (highest) two ranks
         #
@@ -4191,22 +4202,30 @@ class Fiber:
         # does the deepcopy for us
         flattened = self.flattenRanks(style="pair")
 
-        # Make sure that the flattened fiber has at least one coordinate
-        assert(len(flattened.coords) > 0)
+        # Without any coordinates there is nothing to swap
+        if len(flattened.coords) == 0:
+            return Fiber(default=Fiber())
 
         # Make sure the coord is a >=2-element tuple
         assert(len(flattened.coords[0]) >= 2)
 
+        shape = flattened.getShape(all_ranks=False, authoritative=True)
+        if shape is not None:
+            shape = shape[::-1]
+
         #
         # Sort on secord coordinate of flattened fiber
         # and create new sorted fiber
         #
-        sorted_cp = sorted([(c[::-1], p) for c, p in flattened])
+        sorted_cp = sorted([(c[::-1], p) for c, p in flattened.iterOccupancy(tick=False)])
 
         coords = [c for c, _ in sorted_cp]
         payloads = [p for _, p in sorted_cp]
 
-        flattened_sorted = Fiber(coords, payloads, default=flattened.getDefault())
+        flattened_sorted = Fiber(coords,
+                                 payloads,
+                                 default=flattened.getDefault(),
+                                 shape=shape)
 
         #
         # Unflatten to get original coordinates in swapped ranks
@@ -4733,7 +4752,7 @@ class Fiber:
                                       splitUnEqual)
 
     swapRanksBelow = partialmethod(updatePayloadsBelow,
-                                   swapRanks)
+                                   _swapRanks)
 
     flattenRanksBelow = partialmethod(updatePayloadsBelow,
                                       flattenRanks)
diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index 5f71f88..4178650 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -1541,17 +1541,13 @@ class Tensor:
         #
         # Create new shape list
         #
-        # TBD: Create shape
-        #
-        shape = None
+        shape = copy.deepcopy(self.getShape(authoritative=True))
+        if shape is not None:
+            shape[depth], shape[depth + 1] = shape[depth + 1], shape[depth]
 
-        # Only call Fiber.swapRanks if there are actually payloads to swap
-        if not all(fiber.isEmpty() for fiber in self.ranks[depth].fibers):
-            root = self._modifyRoot(Fiber.swapRanks,
-                                    Fiber.swapRanksBelow,
-                                    depth=depth)
-        else:
-            root = copy.deepcopy(self.getRoot())
+        root = self._modifyRoot(Fiber._swapRanks,
+                                Fiber.swapRanksBelow,
+                                depth=depth)
 
         #
         # Create Tensor from rank_ids and root fiber
-- 
2.43.0


From be24a791f09865c5318df632d23f71e42dea1e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 20/82] fix: flatten, merge and unflatten handle element-less
 sub-fibers, explicit defaults and nested tuple shapes

---
 fibertree/core/fiber.py  | 65 +++++++++++++++++++++++++++-------------
 fibertree/core/tensor.py |  7 +++--
 2 files changed, 49 insertions(+), 23 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 8175c1d..197c98c 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4435,11 +4435,17 @@ class Fiber:
         up_shape = self.getShape(all_ranks=False, authoritative=True)
         low_shape = None
 
-        for i, (c1, p1) in enumerate(zip(self.coords, cur_payloads)):
+        for c1, p1 in zip(self.coords, cur_payloads):
             if not Payload.contains(p1, Fiber):
                 raise PayloadError
 
-            if i == 0:
+            # A fiber without elements only contributes its default
+            if not p1.coords:
+                if range_start is None:
+                    default = p1.getDefault()
+                continue
+
+            if range_start is None:
                 range_start, range_end = p1.getActive()
             else:
                 range_start = min(range_start, p1.getActive()[0])
@@ -4448,7 +4454,7 @@ class Fiber:
             default = p1.getDefault()
 
             low_shape = p1.getShape(all_ranks=False, authoritative=True)
-            for c0, p0 in p1:
+            for c0, p0 in p1.iterOccupancy(tick=False):
                 new_coord = self._flattenCoords(c1,
                                                 c0,
                                                 style=style,
@@ -4471,14 +4477,8 @@ class Fiber:
         elif up_shape and low_shape:
             if style == "linear":
                 shape = up_shape * low_shape
-            elif style == "pair":
-                shape = (up_shape, low_shape)
-            elif style == "tuple":
-                if isinstance(low_shape, tuple):
-                    shape = (up_shape,) + low_shape
-                else:
-                    shape = (up_shape, low_shape)
-
+            elif style == "pair" or style == "tuple":
+                shape = self._flattenCoords(up_shape, low_shape, style=style)
 
 
         # Compute the active range
@@ -4489,7 +4489,8 @@ class Fiber:
             range_end = float("inf")
 
         if style == "tuple" or style == "pair":
-            active_range = ((self.getActive()[0], range_start), (self.getActive()[1], range_end))
+            active_range = tuple(self._flattenCoords(up, low, style=style)
+                                 for up, low in zip(self.getActive(), (range_start, range_end)))
         elif style == "relative":
             active_range = self.getActive()
         elif style == "absolute":
@@ -4518,12 +4519,17 @@ class Fiber:
         coords = []
         payloads = []
         union_fiber = union(*to_merge)
-        for c, ps in union_fiber:
+        for c, (mask, *ps) in union_fiber.__iter__(tick=False):
             coords.append(c)
-            new_merge = Payload.get(ps)[1:]
+
+            # Only merge the fibers with a non-empty payload
+            new_merge = [p for i, p in enumerate(ps) if chr(ord("A") + i) in mask]
             payloads.append(Fiber._mergeToFibertree(new_merge, merge_fn))
 
-        result = Fiber(coords, payloads, active_range=union_fiber.getActive())
+        result = Fiber(coords,
+                       payloads,
+                       default=to_merge[0].getDefault(),
+                       active_range=union_fiber.getActive())
         return result
 
 
@@ -4561,9 +4567,23 @@ class Fiber:
         """
 
         assert not self.isLazy()
-        assert isinstance(self.coords[0], tuple)
         assert self._ordered and self._unique
 
+        # Without any coordinates there is nothing to unflatten
+        if len(self.coords) == 0:
+            return Fiber(default=Fiber())
+
+        assert isinstance(self.coords[0], tuple)
+
+        #
+        # Unflatten the shape (if it is known)
+        #
+        shape1, shape0 = None, None
+        shape = self.getShape(all_ranks=False, authoritative=True)
+        if isinstance(shape, tuple):
+            shape1 = shape[0]
+            shape0 = shape[1:] if len(shape) > 2 else shape[1]
+
         #
         # Place to collect cordinates/payloads for new top rank
         #
@@ -4610,7 +4630,8 @@ class Fiber:
 
                     cur_fiber = Fiber(coords0,
                                       payloads0,
-                                      default=self.getDefault())
+                                      default=self.getDefault(),
+                                      shape=shape0)
 
                     if levels > 1:
                         cur_fiber = cur_fiber.unflattenRanks(levels=levels - 1)
@@ -4642,7 +4663,8 @@ class Fiber:
 
         fiber0 = Fiber(coords0,
                        payloads0,
-                       default=self.getDefault())
+                       default=self.getDefault(),
+                       shape=shape0)
 
 
         #
@@ -4656,9 +4678,10 @@ class Fiber:
         #
         # Create (and return) the new top (c1) rank
         #
-        fiber1 = self._newFiber(coords1,
-                                payloads1,
-                                default=Fiber())
+        fiber1 = Fiber(coords1,
+                       payloads1,
+                       default=Fiber(),
+                       shape=shape1)
 
         return fiber1
 
diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index 4178650..074f19d 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -1688,7 +1688,7 @@ class Tensor:
 
                 # Shape: [S0, S1, ... SN] -> (S0, S1, ... SN)
                 elif coord_style == "tuple":
-                    curr_shape += (shape,)
+                    curr_shape += shape if isinstance(shape, tuple) else (shape,)
                     if i == depth + levels:
                         new_shape.append(curr_shape)
 
@@ -1784,6 +1784,7 @@ class Tensor:
         tensor.setName(self.getName() + "+unflattened")
         tensor.setColor(self.getColor())
         tensor.setMutable(self.isMutable())
+        tensor.setDefault(self.getDefault())
 
         # Maintain the formats for all untouched rank_ids
         # Compress everything else
@@ -1820,7 +1821,9 @@ class Tensor:
         #
         # Create new shape list
         #
-        shape = copy.deepcopy(self.getShape())
+        shape = copy.deepcopy(self.getShape(authoritative=True))
+        if shape is None:
+            return rank_ids, None
 
         for d in range(levels):
             s = shape[depth + d]
-- 
2.43.0


From a29e43a6bfa9ec408d31172b379daf525c9cfa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:48 +0000
Subject: [PATCH 21/82] fix: merging fibers of uncompressed ranks only reduces
 their non-empty payloads

---
 fibertree/core/fiber.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 197c98c..51d8150 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4515,21 +4515,21 @@ class Fiber:
         if not isinstance(to_merge[0], Fiber):
             return merge_fn(to_merge)
 
-        # Merge fibers together
-        coords = []
-        payloads = []
-        union_fiber = union(*to_merge)
-        for c, (mask, *ps) in union_fiber.__iter__(tick=False):
-            coords.append(c)
+        # Merge the non-empty elements of the fibers together
+        elements = {}
+        for fiber in to_merge:
+            for c, p in fiber.iterOccupancy(tick=False):
+                elements.setdefault(c, []).append(p)
+
+        coords = sorted(elements)
+        payloads = [Fiber._mergeToFibertree(elements[c], merge_fn) for c in coords]
 
-            # Only merge the fibers with a non-empty payload
-            new_merge = [p for i, p in enumerate(ps) if chr(ord("A") + i) in mask]
-            payloads.append(Fiber._mergeToFibertree(new_merge, merge_fn))
+        ranges = [fiber.getActive() for fiber in to_merge]
 
         result = Fiber(coords,
                        payloads,
                        default=to_merge[0].getDefault(),
-                       active_range=union_fiber.getActive())
+                       active_range=(min(r[0] for r in ranges), max(r[1] for r in ranges)))
         return result
 
 
-- 
2.43.0


From ff6807a22f6535a72bb07565d636e5c1615d3c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:37 +0000
Subject: [PATCH 22/82] fix: the default for an absent sub-fiber of an unowned
 fiber knows the defaults of all levels below

---
 fibertree/core/fiber.py | 51 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 45 insertions(+), 6 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 51d8150..86c3a90 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -1655,15 +1655,54 @@ class Fiber:
 
         default = self.getDefault()
 
-        a_payload = (self.payloads or [None])[0]
-        if isinstance(a_payload, Fiber):
-            next_default = a_payload.getDefault()
-        else:
-            next_default = None
+        next_default = None
+        if owner is None:
+            a_payload = self._getSubFiber()
+            if a_payload is not None:
+                next_default = a_payload._getDefaultTree()
 
         return Fiber._instantiateDefault(owner, default, next_default, addtorank)
 
 
+    def _getSubFiber(self):
+        """A representative sub-fiber of this fiber (None if there is none)"""
+
+        sub_fiber = None
+
+        for p in self.payloads:
+            if isinstance(p, Fiber):
+                if len(p.payloads) > 0:
+                    return p
+
+                sub_fiber = sub_fiber or p
+
+        return sub_fiber
+
+
+    def _getDefaultTree(self):
+        """Obtain the default payload for a fiber including, when that is a
+        fiber, the defaults for all the levels below it."""
+
+        owner = self.getOwner()
+
+        if owner is not None:
+            owners = [owner]
+            while owners[-1].getNextRank() is not None:
+                owners.append(owners[-1].getNextRank())
+
+            default = owners[-1].getDefault()
+            for _ in owners[1:]:
+                default = Fiber(default=default)
+
+            return default
+
+        a_payload = self._getSubFiber()
+        if a_payload is not None:
+            return Fiber(default=a_payload._getDefaultTree())
+
+        return self.getDefault()
+
+
     @staticmethod
     def _instantiateDefault(owner, default, next_default=None, addtorank=False):
         """_instantiateDefault
@@ -4074,7 +4113,7 @@ class Fiber:
         """
         shape = self.getRankAttrs().getShape()
 
-        upper = Fiber(default=Fiber(),
+        upper = Fiber(default=Fiber(default=self._getDefaultTree()),
                       active_range=self.getActive(),
                       shape=shape)
 
-- 
2.43.0


From 6882baa633345ea68f25a7d59549911e0be9ef66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:52 +0000
Subject: [PATCH 23/82] fix: pruning stops when the function returns None, as
 documented

---
 fibertree/core/fiber.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 86c3a90..70698d0 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -1070,7 +1070,12 @@ class Fiber:
             def __iter__(self):
                 f_iter = self.fiber.__iter__(tick=False, start_pos=self.start)
                 for i, (c, p) in enumerate(f_iter):
-                    if self.trans(i, c, p):
+                    include = self.trans(i, c, p)
+
+                    if include is None:
+                        break
+
+                    if include:
                         yield c, p
 
         result = Fiber.fromIterator(prune_iterator, active_range=self.getActive())
-- 
2.43.0


From c24b571733e9dde34b22496e4a83ddcb4194f0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:52 +0000
Subject: [PATCH 24/82] fix: the start position check of project compares
 projected coordinates with the interval

---
 fibertree/core/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 70698d0..0c97487 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -1278,7 +1278,7 @@ class Fiber:
 
             if interval is not None:
                 assert start_pos == 0 \
-                    or fiber.coords[start_pos - 1] < interval[0]
+                    or trans_fn(fiber.coords[start_pos - 1]) < interval[0]
 
         # Build the iterator
         class project_iterator:
-- 
2.43.0


From ad753911f92695dc075760c01adc4a02438d6f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:41 +0000
Subject: [PATCH 25/82] fix: splitting a flattened rank of a tensor copes with
 its list rank id

---
 fibertree/core/tensor.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index 074f19d..ad0cf7c 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -1332,9 +1332,13 @@ class Tensor:
         #
         # Create new list of rank ids
         #
+        # Note: the id of a flattened rank is a list
+        #
         id = rank_ids[depth]
-        rank_ids[depth] = f"{id}.1"
-        rank_ids.insert(depth + 1, f"{id}.0")
+        upper_id = f"{id}.1"
+        lower_id = f"{id}.0"
+        rank_ids[depth] = upper_id
+        rank_ids.insert(depth + 1, lower_id)
 
         #
         # Create new shape list
@@ -1359,9 +1363,7 @@ class Tensor:
 
         # Maintain the formats
         for rank_id in tensor.getRankIds():
-            if rank_id == id + ".1":
-                old_id = id
-            elif rank_id == id + ".0":
+            if rank_id == upper_id or rank_id == lower_id:
                 old_id = id
             else:
                 old_id = rank_id
-- 
2.43.0


From 74ad08823b021b74b65cae2dba709dccd17243f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:58 +0000
Subject: [PATCH 26/82] fix: the pruned copy made by nonEmpty does not share
 payload boxes with the original

---
 fibertree/core/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 0c97487..2182793 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2351,7 +2351,7 @@ class Fiber:
                 if Payload.contains(p, Fiber):
                     payloads.append(p.nonEmpty())
                 else:
-                    payloads.append(p)
+                    payloads.append(copy.deepcopy(p))
 
         return self._newFiber(coords, payloads)
 
-- 
2.43.0


From 2bb0d41b747ee3ab004422d17339c863dfc53f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:05 +0000
Subject: [PATCH 27/82] fix: uncompress fills in missing sub-trees of fibers
 without elements

---
 fibertree/core/fiber.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 2182793..fc4cefe 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -3119,16 +3119,16 @@ class Fiber:
 
         if level + 1 > len(shape):
             #
-            # Find a fiber at the leaf level
+            # Find the default at the leaf level
             #
-            f = self
-            while isinstance(f.payloads[0], Fiber):
-                f = f.payloads[0]
+            default = self._getDefaultTree()
+            while isinstance(default, Fiber):
+                default = default.getDefault()
 
             #
             # Use the **unboxed** default from the leaf level fiber
             #
-            return Payload.get(f.getDefault())
+            return Payload.get(default)
 
         f = []
 
-- 
2.43.0


From dd8572d054766b88c63c669cacc2867c6bf6c349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:46 +0000
Subject: [PATCH 28/82] fix: scalar addition and multiplication of a fiber
 handle nested fibers, and scale only stored elements

---
 fibertree/core/fiber.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index fc4cefe..7b22c18 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -3263,7 +3263,7 @@ class Fiber:
         else:
             for c, p in self.iterShape():
                 coords.append(c)
-                payloads.append(other + p.value)
+                payloads.append(other + Payload.get(p))
 
         return self._newFiber(coords, payloads)
 
@@ -3400,9 +3400,9 @@ class Fiber:
                 coords.append(c)
                 payloads.append(a_val * b_val)
         else:
-            for c, p in self:
+            for c, p in self.iterOccupancy():
                 coords.append(c)
-                payloads.append(other * p.value)
+                payloads.append(other * Payload.get(p))
 
         result = self._newFiber(coords, payloads)
         return result
-- 
2.43.0


From 084e11f5e26756d7181f9877fcdfa0f81234626c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:47 +0000
Subject: [PATCH 29/82] fix: adding a fiber in place keeps the active range

---
 fibertree/core/fiber.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 7b22c18..f278af2 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -3337,7 +3337,8 @@ class Fiber:
         # If `other` is a fiber add each element of `other` to `self`
         #
         if isinstance(other, Fiber):
-            for _, (self_ref, other_val) in self << other:
+            for c, other_val in other.iterOccupancy():
+                self_ref = self.getPayloadRef(c)
                 self_ref += other_val
             return self
 
-- 
2.43.0


From 2b358a285f5d0928645ff0627dc6c7944f2b4231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:47 +0000
Subject: [PATCH 30/82] fix: multiplying a fiber in place by a fiber keeps only
 the common coordinates, like the value form

---
 fibertree/core/fiber.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index f278af2..12ca3d8 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -3471,14 +3471,27 @@ class Fiber:
         # If `other` is a fiber, elementwise multiply `other` by `self`
         #
         if isinstance(other, Fiber):
-            for c, (self_val, other_val) in self & other:
-                #
-                # Get a reference to the c coordinate in `self`.  Note
-                # that is may be a zero and therefore a hard zero will
-                # be included in the final fiber.
-                #
-                self_ref = self.getPayloadRef(c)
-                self_ref <<= self_val * other_val
+            #
+            # Only the coordinates in the intersection remain in the fiber
+            #
+            other_vals = {c: other_val for c, (_, other_val) in self & other}
+
+            coords = []
+            payloads = []
+            dropped = []
+
+            for c, p in zip(self.coords, self.payloads):
+                if c in other_vals:
+                    p *= other_vals[c]
+                    coords.append(c)
+                    payloads.append(p)
+                else:
+                    dropped.append(p)
+
+            Fiber._disown(dropped)
+
+            self.coords = coords
+            self.payloads = payloads
 
             return self
 
-- 
2.43.0


From 7e45a02c0706057f4078129dc7454e34976e28bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:09 +0000
Subject: [PATCH 31/82] fix: payload boxes support reflected and in-place
 division and logic, and assignment of an element

---
 fibertree/core/payload.py | 55 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/fibertree/core/payload.py b/fibertree/core/payload.py
index 72b425e..b4cea48 100644
--- a/fibertree/core/payload.py
+++ b/fibertree/core/payload.py
@@ -478,6 +478,9 @@ class Payload:
 
         if isinstance(other, Payload):
             self.value = other.value
+        elif type(other).__name__ == "CoordPayload":
+            # Assign the payload of a fiber element
+            self.value = other.payload
         else:
             self.value = other
         return self
@@ -534,6 +537,23 @@ class Payload:
 
         return Payload(ans)
 
+    def __rtruediv__(self, other):
+        """__rtruediv__"""
+
+        assert not isinstance(other, Payload)
+        return Payload(other / self.value)
+
+
+    def __itruediv__(self, other):
+        """__itruediv__"""
+
+        if isinstance(other, Payload):
+            self.value = self.value / other.value
+        else:
+            self.value = self.value / other
+        return self
+
+
     def __rmul__(self, other):
         """__rmul__"""
 
@@ -628,6 +648,21 @@ class Payload:
 
         return Payload(ans)
 
+    def __rand__(self, other):
+        """__rand__"""
+
+        return Payload(other & self.value)
+
+
+    def __iand__(self, other):
+        """__iand__"""
+
+        if isinstance(other, Payload):
+            self.value = self.value & other.value
+        else:
+            self.value = self.value & other
+        return self
+
 
     def __or__(self, other):
         """__or__"""
@@ -639,6 +674,21 @@ class Payload:
 
         return Payload(ans)
 
+    def __ror__(self, other):
+        """__ror__"""
+
+        return Payload(other | self.value)
+
+
+    def __ior__(self, other):
+        """__ior__"""
+
+        if isinstance(other, Payload):
+            self.value = self.value | other.value
+        else:
+            self.value = self.value | other
+        return self
+
 
     def __lshift__(self, other):
         """__lshift__"""
@@ -650,6 +700,11 @@ class Payload:
 
         return Payload(ans)
 
+    def __rlshift__(self, other):
+        """__rlshift__"""
+
+        return Payload(other << self.value)
+
 #
 # Copy operation
 #
-- 
2.43.0


From ebf599ea3ca0ce0c1468e1a4b0998c3b30aa9239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:28 +0000
Subject: [PATCH 32/82] fix: fiber elements support assignment of a value,
 division and logical operators

---
 fibertree/core/coord_payload.py | 84 ++++++++++++++++++++++++++++++---
 1 file changed, 77 insertions(+), 7 deletions(-)

diff --git a/fibertree/core/coord_payload.py b/fibertree/core/coord_payload.py
index eb81233..4c6fac3 100644
--- a/fibertree/core/coord_payload.py
+++ b/fibertree/core/coord_payload.py
@@ -230,7 +230,9 @@ class CoordPayload():
         if isinstance(other, CoordPayload):
             self.payload <<= other.payload
         else:
-            self.payload <<= self.payload + other
+            self.payload <<= other
+
+        return self
 
 
     #
@@ -311,8 +313,8 @@ class CoordPayload():
 
         return self
 
-    def __div__(self, other):
-        """__div__"""
+    def __truediv__(self, other):
+        """__truediv__"""
 
         if isinstance(other, CoordPayload):
             ans = self.payload / other.payload
@@ -321,13 +323,13 @@ class CoordPayload():
 
         return ans
 
-    def __rdiv__(self, other):
-        """__rdiv__"""
+    def __rtruediv__(self, other):
+        """__rtruediv__"""
 
         return other / self.payload
 
-    def __idiv__(self, other):
-        """__idiv__"""
+    def __itruediv__(self, other):
+        """__itruediv__"""
 
         if isinstance(other, CoordPayload):
             self.payload /= other.payload
@@ -389,6 +391,74 @@ class CoordPayload():
 
         return self.payload != other
 
+    #
+    # Logical operations
+    #
+    def __and__(self, other):
+        """__and__"""
+
+        if isinstance(other, CoordPayload):
+            ans = self.payload & other.payload
+        else:
+            ans = self.payload & other
+
+        return ans
+
+    def __rand__(self, other):
+        """__rand__"""
+
+        return other & self.payload
+
+    def __iand__(self, other):
+        """__iand__"""
+
+        if isinstance(other, CoordPayload):
+            self.payload &= other.payload
+        else:
+            self.payload &= other
+
+        return self
+
+    def __or__(self, other):
+        """__or__"""
+
+        if isinstance(other, CoordPayload):
+            ans = self.payload | other.payload
+        else:
+            ans = self.payload | other
+
+        return ans
+
+    def __ror__(self, other):
+        """__ror__"""
+
+        return other | self.payload
+
+    def __ior__(self, other):
+        """__ior__"""
+
+        if isinstance(other, CoordPayload):
+            self.payload |= other.payload
+        else:
+            self.payload |= other
+
+        return self
+
+    def __lshift__(self, other):
+        """__lshift__"""
+
+        if isinstance(other, CoordPayload):
+            ans = self.payload << other.payload
+        else:
+            ans = self.payload << other
+
+        return ans
+
+    def __rlshift__(self, other):
+        """__rlshift__"""
+
+        return other << self.payload
+
     #
     # Copy operation
     #
-- 
2.43.0


From 9671de7bc4f91efd3bd82cde2259524d979682d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:26 +0000
Subject: [PATCH 33/82] fix: unflattening a fiber copies its payloads instead
 of sharing them

---
 fibertree/core/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 12ca3d8..2205e2e 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4708,7 +4708,7 @@ class Fiber:
                 payloads0 = []
 
             coords0.append(c0)
-            payloads0.append(p0)
+            payloads0.append(Fiber._copyPayload(p0))
 
         #
         # Pick up the last element of the new top rank
-- 
2.43.0


From 69d8cc766991c57473edde6d868cac547333e3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:26 +0000
Subject: [PATCH 34/82] fix: tree image of a tree with uncompressed ranks and
 empty fibers

---
 fibertree/graphics/tree_image.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fibertree/graphics/tree_image.py b/fibertree/graphics/tree_image.py
index cac3d81..3cf6db9 100644
--- a/fibertree/graphics/tree_image.py
+++ b/fibertree/graphics/tree_image.py
@@ -324,12 +324,13 @@ class TreeImage():
         #
         # Calculate values for drawing fiber
         #
-        fiber_size = fiber.countValues(recursive=False)
+        fiber_size = len(targets)
 
         #
         # If the fiber was empty we still occupy a single space
         #
         if fiber_size == 0:
+            fiber_size = 1
             region_end += 1
 
         region_size = region_end - region_start
-- 
2.43.0


From 95e197554608eb6ed6a2ebd5eac75cd548ffadca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:47 +0000
Subject: [PATCH 35/82] fix: the estimated shape of a fiber tree covers the
 largest coordinate of every sub-fiber

---
 fibertree/core/fiber.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 2205e2e..cc16d67 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2894,8 +2894,11 @@ class Fiber:
         new_shape = Fiber._transCoord(max_coord, lambda c: c + 1)
         if len(shape) < level + 1:
             shape.append(new_shape)
+        elif shape[level] == 0:
+            # Only saw fibers without elements up to now
+            shape[level] = new_shape
         else:
-            shape[level] = max(shape[level], Fiber._transCoord(max_coord))
+            shape[level] = max(shape[level], new_shape)
 
         #
         # Recursively process payloads that are Fibers
-- 
2.43.0


From aec03fb0494698d5e57190411e842e99c925a089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:22 +0000
Subject: [PATCH 36/82] fix: the shape of an unowned fiber with a given shape
 looks at all stored sub-fibers

---
 fibertree/core/fiber.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index cc16d67..f916bcb 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2809,7 +2809,7 @@ class Fiber:
             if shape and all_ranks:
                 # Not authoritative
                 rest = []
-                for _, p in self:
+                for p in self.payloads:
                     if not isinstance(p, Fiber):
                         continue
 
@@ -2819,7 +2819,11 @@ class Fiber:
                         if i >= len(rest):
                             rest.append(ns)
 
-                        else:
+                        # If only fibers without elements were seen up to now
+                        elif rest[i] == 0:
+                            rest[i] = ns
+
+                        elif ns != 0:
                             rest[i] = max(rest[i], ns)
 
                 shape = [shape] + rest
-- 
2.43.0


From 0793324851acc858bdb931b9554440d7fc5989ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:59 +0000
Subject: [PATCH 37/82] fix: adding a fiber in place inserts copies of
 sub-fibers missing in the destination

---
 fibertree/core/fiber.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index f916bcb..b8723d1 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -3345,8 +3345,18 @@ class Fiber:
         #
         if isinstance(other, Fiber):
             for c, other_val in other.iterOccupancy():
-                self_ref = self.getPayloadRef(c)
-                self_ref += other_val
+                pos = self._coord2pos(c)
+
+                if self._coordExists(c, pos):
+                    self_ref = self.payloads[pos]
+                    self_ref += other_val
+                elif isinstance(other_val, Fiber):
+                    sub_fiber = self._adopt(Fiber._copyPayload(other_val))
+                    self._create_payload(c, payload=sub_fiber, pos=pos)
+                else:
+                    self_ref = self._create_payload(c, pos=pos)
+                    self_ref += other_val
+
             return self
 
         #
-- 
2.43.0


From 84912b934834e3179ce4e504aa217f20923937a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:04 +0000
Subject: [PATCH 38/82] fix: equality of unordered fibers does not depend on
 the storage order

---
 fibertree/core/fiber.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index b8723d1..ce4ec33 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4944,6 +4944,10 @@ class Fiber:
         elements_s = self.iterOccupancy(tick=False)
         elements_o = other.iterOccupancy(tick=False)
 
+        if not (self._ordered and other._ordered):
+            elements_s = sorted(elements_s, key=lambda e: e.coord)
+            elements_o = sorted(elements_o, key=lambda e: e.coord)
+
         for element_s, element_o in zip_longest(elements_s, elements_o):
             if element_s is None or element_o is None:
                 return False
-- 
2.43.0


From aa8f2938ea7d89a770446c5ca34a844079d46425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 39/82] fix: keep the name of a tensor loaded from YAML and of
 a rank-0 tensor

---
 fibertree/core/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index ad0cf7c..50801cd 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -243,7 +243,7 @@ class Tensor:
             t._root = Payload(root)
             return t
 
-        return Tensor.fromFiber(rank_ids, root, shape=shape)
+        return Tensor.fromFiber(rank_ids, root, shape=shape, name=name)
 
 
     @classmethod
@@ -281,7 +281,7 @@ class Tensor:
 
         if not isinstance(root, list):
             # Handle a rank zero tensor
-            t = Tensor(rank_ids=[], shape=[])
+            t = Tensor(rank_ids=[], shape=[], name=name, color=color)
             t._root = Payload(root)
             return t
 
-- 
2.43.0


From 8845876157ddf10c982c1d8750f4a594930ab14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 40/82] fix: construct a rank-0 tensor from a YAML file

---
 fibertree/core/tensor.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index 50801cd..435c48c 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -138,11 +138,17 @@ class Tensor:
 
             (rank_ids, root, shape, name) = self.parse(yamlfile)
 
-            if shape is None:
+            if shape is None and isinstance(root, Fiber):
                 shape = root.estimateShape()
 
             self.setRankInfo(rank_ids, shape, default)
-            self.setRoot(root)
+
+            if isinstance(root, Fiber):
+                self.setRoot(root)
+            else:
+                # A rank zero tensor, i.e., just a payload
+                self._root = Payload(root)
+
             self.setName(name)
             self.setColor(color)
             self.setMutable(False)
-- 
2.43.0


From e65d6ee02baf59448aae575308231a761b3f7f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:58 +0000
Subject: [PATCH 41/82] fix: load tuple coordinates and shapes from a YAML file

---
 fibertree/core/fiber.py  | 11 ++++++++++-
 fibertree/core/tensor.py |  4 ++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index ce4ec33..8be3495 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -40,6 +40,15 @@ module_logger = logging.getLogger('fibertree.core.fiber')
 #
 # Define an error class
 #
+class CoordLoader(yaml.SafeLoader):
+    """A safe YAML loader that also reads tuple coordinates and shapes"""
+
+
+CoordLoader.add_constructor("tag:yaml.org,2002:python/tuple",
+                            lambda loader, node:
+                            tuple(loader.construct_sequence(node, deep=True)))
+
+
 class CoordinateError(Exception):
     """CoordinateError"""
     pass
@@ -5134,7 +5143,7 @@ class Fiber:
 
         with open(yamlfile, 'r') as stream:
             try:
-                y_file = yaml.safe_load(stream)
+                y_file = yaml.load(stream, Loader=CoordLoader)
             except yaml.YAMLError as exc:
                 print(exc)
                 exit(1)
diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index 435c48c..d6ac3cd 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -15,7 +15,7 @@ import yaml
 from copy import deepcopy
 
 from .rank    import Rank
-from .fiber   import Fiber
+from .fiber   import CoordLoader, Fiber
 from .payload import Payload
 
 #
@@ -1953,7 +1953,7 @@ class Tensor:
 
         with open(file, 'r') as stream:
             try:
-                y_file = yaml.safe_load(stream)
+                y_file = yaml.load(stream, Loader=CoordLoader)
             except yaml.YAMLError as exc:
                 print(exc)
                 exit(1)
-- 
2.43.0


From 067245345d6165f2e3f8f907542c51b71f56e340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:58 +0000
Subject: [PATCH 42/82] fix: give every fiber loaded from YAML the requested
 default

---
 fibertree/core/fiber.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 8be3495..e59f8ac 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -5155,7 +5155,7 @@ class Fiber:
             print("Yaml is not a fiber")
             exit(1)
 
-        newfiber = Fiber.dict2fiber(y_file)
+        newfiber = Fiber.dict2fiber(y_file, default=default)
 
         return (newfiber.getCoords(), newfiber.getPayloads())
 
@@ -5174,7 +5174,7 @@ class Fiber:
 #
 
     @staticmethod
-    def dict2fiber(y_payload_dict, level=0):
+    def dict2fiber(y_payload_dict, level=0, default=0):
         """Parse a yaml-based tensor payload, creating Fibers as appropriate"""
 
         if isinstance(y_payload_dict, dict) and 'fiber' in y_payload_dict:
@@ -5205,11 +5205,15 @@ class Fiber:
 
             f_payloads = []
             for y_f_payload in y_f_payloads:
-                f_payloads.append(Fiber.dict2fiber(y_f_payload, level + 1))
+                f_payloads.append(Fiber.dict2fiber(y_f_payload,
+                                                    level + 1,
+                                                    default))
             #
             # Turn into a fiber
             #
-            subtree = Fiber(coords=f_coords, payloads=f_payloads)
+            subtree = Fiber(coords=f_coords,
+                            payloads=f_payloads,
+                            default=default)
         else:
             # Got scalars, so format is unchanged
             subtree = y_payload_dict
-- 
2.43.0


From fba12520dcc73d99ed87b35578f00295329226b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:58 +0000
Subject: [PATCH 43/82] fix: the dictionary form of a fiber does not share its
 coordinate list

---
 fibertree/core/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index e59f8ac..81a0934 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -5227,7 +5227,7 @@ class Fiber:
         assert not self.isLazy()
 
         f = {'fiber':
-             {'coords': self.coords,
+             {'coords': list(self.coords),
               'payloads': [Payload.payload2dict(p) for p in self.payloads]}}
 
         return f
-- 
2.43.0


From e762f0c5625d43dc943ac964bfc9691a755c58ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:58 +0000
Subject: [PATCH 44/82] fix: keep a non-zero default of a tensor in its YAML
 file

---
 fibertree/core/tensor.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index d6ac3cd..ff2e1a4 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -136,7 +136,10 @@ class Tensor:
         if (yamlfile != ""):
             assert(rank_ids is None and shape is None)
 
-            (rank_ids, root, shape, name) = self.parse(yamlfile)
+            (rank_ids, root, shape, name, yaml_default) = self.parse(yamlfile)
+
+            if default == 0:
+                default = yaml_default
 
             if shape is None and isinstance(root, Fiber):
                 shape = root.estimateShape()
@@ -235,13 +238,14 @@ class Tensor:
             Filename of file containing a YAML representation of a tensor
 
 
-        Todo
+        Note
         ----
 
-        YAML file does not provide a non-zero default value
+        A non-zero default value of the tensor is kept under the
+        (optional) key "default" of the YAML file
 
         """
-        (rank_ids, root, shape, name) = Tensor.parse(yamlfile)
+        (rank_ids, root, shape, name, default) = Tensor.parse(yamlfile)
 
         if not isinstance(root, Fiber):
             t = Tensor(rank_ids=[], shape=shape, name=name)
@@ -249,7 +253,11 @@ class Tensor:
             t._root = Payload(root)
             return t
 
-        return Tensor.fromFiber(rank_ids, root, shape=shape, name=name)
+        return Tensor.fromFiber(rank_ids,
+                                root,
+                                shape=shape,
+                                name=name,
+                                default=default)
 
 
     @classmethod
@@ -1993,6 +2001,11 @@ class Tensor:
             # TBD: Maybe extract something from filename
             name = ""
 
+        #
+        # Get default value of the leaf payloads
+        #
+        default = y_tensor.get('default', 0)
+
         #
         # Make sure key "root" exists
         #
@@ -2006,9 +2019,9 @@ class Tensor:
         # Generate the tree recursively
         #   Note: fibers are added into self.ranks inside method
         #
-        fiber = Fiber.dict2fiber(y_root[0])
+        fiber = Fiber.dict2fiber(y_root[0], default=default)
 
-        return (rank_ids, fiber, shape, name)
+        return (rank_ids, fiber, shape, name, default)
 
 
     def dump(self, filename):
@@ -2027,6 +2040,9 @@ class Tensor:
                         'name': self.getName(),
                         'root': [root_dict]}}
 
+        if self.ranks and self.getDefault() != 0:
+            tensor_dict['tensor']['default'] = Payload.get(self.getDefault())
+
         with open(filename, 'w') as file:
             yaml.dump(tensor_dict, file)
 
-- 
2.43.0


From e5e5de624f8ae5f79e1822a4ec8942ef9625d751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:31 +0000
Subject: [PATCH 45/82] fix: build tensors and fibers from nests with a
 zero-sized dimension

---
 fibertree/core/fiber.py  | 5 ++++-
 fibertree/core/rank.py   | 3 ++-
 fibertree/core/tensor.py | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 81a0934..0ccab19 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -403,6 +403,9 @@ class Fiber:
 
         assert(isinstance(payload_list, list))
 
+        if len(payload_list) == 0:
+            return None
+
         if isinstance(payload_list[0], list):
             size_check = len(payload_list[0])
 
@@ -2815,7 +2818,7 @@ class Fiber:
 
         else:
             shape = self.getRankAttrs().getShape()
-            if shape and all_ranks:
+            if shape is not None and all_ranks:
                 # Not authoritative
                 rest = []
                 for p in self.payloads:
diff --git a/fibertree/core/rank.py b/fibertree/core/rank.py
index 3c2e1fb..5541833 100644
--- a/fibertree/core/rank.py
+++ b/fibertree/core/rank.py
@@ -221,7 +221,8 @@ class Rank:
                 #
                 # We do not actually know the shape, but we can estimate it
                 #
-                return max([f.estimateShape(all_ranks=False) for f in self.fibers])
+                return max([f.estimateShape(all_ranks=False) for f in self.fibers],
+                           default=0)
 
             return self._attrs.getShape()
 
diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index ff2e1a4..9b88dfd 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -321,7 +321,7 @@ class Tensor:
 
         shape = [len(ll)]
 
-        if not isinstance(ll[0], list):
+        if len(ll) == 0 or not isinstance(ll[0], list):
             return shape
 
         if len(ll) == 1:
-- 
2.43.0


From 514f796b3fcbd69910e38f80ecdbf1ad2b4b5c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:29 +0000
Subject: [PATCH 46/82] fix: the active range of merged ranks covers the merged
 fibers

---
 fibertree/core/fiber.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 0ccab19..96205d8 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4517,6 +4517,7 @@ class Fiber:
 
         range_start = None
         range_end = None
+        low_ranges = []
 
         default = Payload(0)
         up_shape = self.getShape(all_ranks=False, authoritative=True)
@@ -4538,6 +4539,8 @@ class Fiber:
                 range_start = min(range_start, p1.getActive()[0])
                 range_end = max(range_end, p1.getActive()[1])
 
+            low_ranges.append((c1, p1.getActive()))
+
             default = p1.getDefault()
 
             low_shape = p1.getShape(all_ranks=False, authoritative=True)
@@ -4578,10 +4581,23 @@ class Fiber:
         if style == "tuple" or style == "pair":
             active_range = tuple(self._flattenCoords(up, low, style=style)
                                  for up, low in zip(self.getActive(), (range_start, range_end)))
-        elif style == "relative":
-            active_range = self.getActive()
-        elif style == "absolute":
+        elif style == "relative" or style == "absolute":
+            #
+            # The merged fibers may reach beyond the active range of
+            # the upper fiber
+            #
             active_range = self.getActive()
+            if low_ranges and isinstance(low_ranges[0][1][0], tuple) \
+                    != isinstance(active_range[0], tuple):
+                # The coordinates of the two ranks are not comparable
+                active_range = low_ranges[0][1]
+
+            for c1, (low_start, low_end) in low_ranges:
+                if style == "relative":
+                    low_start, low_end = c1 + low_start, c1 + low_end
+
+                active_range = (min(active_range[0], low_start),
+                                max(active_range[1], low_end))
         elif style == "linear":
             active_range = (0, float("inf"))
 
-- 
2.43.0


From 1dfadaee4c982649bf7222093678a900c0658a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:29 +0000
Subject: [PATCH 47/82] fix: swizzleRanks keeps the rank formats and the
 mutability hint

---
 fibertree/core/tensor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index 9b88dfd..024e54b 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -1503,6 +1503,10 @@ class Tensor:
             kwargs["shape"] = new_shape
 
         swizzled = Tensor.fromFiber(**kwargs)
+        swizzled.setMutable(self.isMutable())
+
+        for rank_id in rank_ids:
+            swizzled.setFormat(rank_id, self.getFormat(rank_id))
 
         # For each fiber, reset its active range
         frontier = [(swizzled.getRoot(), 0)]
-- 
2.43.0


From c757a2158fa31ff0808f99b272b16c9a440fb30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:48 +0000
Subject: [PATCH 48/82] fix: the shape estimated for a rank with tuple
 coordinates covers every component

---
 fibertree/core/fiber.py  | 43 +++++++++++++++++++++++++++++++++++-----
 fibertree/core/rank.py   |  7 +++----
 fibertree/core/tensor.py |  2 +-
 3 files changed, 42 insertions(+), 10 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 96205d8..988f8f3 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2907,14 +2907,19 @@ class Fiber:
         #
         # Update shape for this Fiber at this level
         #
-        new_shape = Fiber._transCoord(max_coord, lambda c: c + 1)
+        if isinstance(max_coord, tuple):
+            #
+            # The last coordinate does not bound each of the components
+            #
+            new_shape = Fiber._maxShape(*[Fiber._transCoord(c, lambda c: c + 1)
+                                          for c in self.coords])
+        else:
+            new_shape = Fiber._transCoord(max_coord, lambda c: c + 1)
+
         if len(shape) < level + 1:
             shape.append(new_shape)
-        elif shape[level] == 0:
-            # Only saw fibers without elements up to now
-            shape[level] = new_shape
         else:
-            shape[level] = max(shape[level], new_shape)
+            shape[level] = Fiber._maxShape(shape[level], new_shape)
 
         #
         # Recursively process payloads that are Fibers
@@ -2925,6 +2930,34 @@ class Fiber:
 
         return shape
 
+    @staticmethod
+    def _maxShape(*shapes):
+        """Smallest shape covering all the given shapes
+
+        Tuple shapes are covered component by component, and a shape of
+        zero (i.e., the estimate for a fiber without elements) is covered
+        by any other shape.
+
+        """
+
+        result = 0
+
+        for shape in shapes:
+            if shape == 0:
+                continue
+
+            if result == 0:
+                result = shape
+            elif isinstance(shape, tuple) and isinstance(result, tuple) \
+                    and len(shape) == len(result):
+                result = tuple(Fiber._maxShape(a, b)
+                               for a, b in zip(shape, result))
+            else:
+                result = max(shape, result)
+
+        return result
+
+
     @staticmethod
     def _transCoord(coord, trans_fn=lambda c: c):
         """Translate all integers of a coordinate according to the function,
diff --git a/fibertree/core/rank.py b/fibertree/core/rank.py
index 5541833..555ef2f 100644
--- a/fibertree/core/rank.py
+++ b/fibertree/core/rank.py
@@ -221,8 +221,7 @@ class Rank:
                 #
                 # We do not actually know the shape, but we can estimate it
                 #
-                return max([f.estimateShape(all_ranks=False) for f in self.fibers],
-                           default=0)
+                return Fiber._maxShape(*[f.estimateShape(all_ranks=False) for f in self.fibers])
 
             return self._attrs.getShape()
 
@@ -240,7 +239,7 @@ class Rank:
         elif len(self.fibers) == 0:
             shape = [0]
         else:
-            shape = [max([f.estimateShape(all_ranks=False) for f in self.fibers])]
+            shape = [Fiber._maxShape(*[f.estimateShape(all_ranks=False) for f in self.fibers])]
 
         if self.next_rank is not None:
             rest_of_shape = self.next_rank.getShape(all_ranks=True, authoritative=authoritative)
@@ -458,7 +457,7 @@ class Rank:
             if old is None and new != 0:
                 self._attrs.setShape(new)
             elif new != 0:
-                self._attrs.setShape(max(old, new))
+                self._attrs.setShape(Fiber._maxShape(old, new))
 
         #
         # Set this rank as owner of the fiber
diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index 024e54b..a94df52 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -757,7 +757,7 @@ class Tensor:
 
             if rank_shape:
                 try:
-                    attrs.setShape(max(fiber_shape, rank_shape))
+                    attrs.setShape(Fiber._maxShape(fiber_shape, rank_shape))
                 except Exception:
                     attrs.setShape(rank_shape)
             else:
-- 
2.43.0


From bc313c819db6503ea93374c9661321c0328ee8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:52 +0000
Subject: [PATCH 49/82] fix: the projection of an empty active range is empty

---
 fibertree/core/fiber.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 988f8f3..7e31f5f 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -1347,6 +1347,10 @@ class Fiber:
         if interval:
             min_, max_ = interval
 
+        elif not self.getActive()[0] < self.getActive()[1]:
+            # Nothing is active, and so nothing is in the projection
+            min_ = max_ = trans_fn(self.getActive()[0])
+
         else:
             start = trans_fn(self.getActive()[0])
             end = trans_fn(Fiber._transCoord(self.getActive()[1], lambda c: c - 1))
-- 
2.43.0


From 83ca81730c19dd2a7248f23f5eed53aad2bfb59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:58 +0000
Subject: [PATCH 50/82] fix: the active range of the upper fiber of a split
 includes the first partition

---
 fibertree/core/fiber.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 7e31f5f..89cf3a1 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4222,6 +4222,13 @@ class Fiber:
             upper.coords.append(part)
             upper.payloads.append(lower)
 
+        #
+        # The first partition may start before the active range
+        #
+        active_start, active_end = upper.getActive()
+        if upper.coords and upper.coords[0] < active_start:
+            upper.setActive((upper.coords[0], active_end))
+
         return upper
 
 #
-- 
2.43.0


From a9976bcbadd5a06d4485d772ef1a1b4746abc7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:42 +0000
Subject: [PATCH 51/82] fix: the shape of fibers merged with relative
 coordinates is the upper rank's

---
 fibertree/core/fiber.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 89cf3a1..bb63245 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4606,8 +4606,10 @@ class Fiber:
 
         # Compute the shape
         shape = None
-        if style == "absolute" or style == "relative":
+        if style == "absolute":
             shape = low_shape
+        elif style == "relative":
+            shape = up_shape
         elif up_shape and low_shape:
             if style == "linear":
                 shape = up_shape * low_shape
-- 
2.43.0


From 461c6758b37006623992ec6cb499e3eeea92c3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:31 +0000
Subject: [PATCH 52/82] fix: an estimated shape covers the boundary of the last
 partition of a split

---
 fibertree/core/fiber.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index bb63245..bc462f2 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4229,6 +4229,13 @@ class Fiber:
         if upper.coords and upper.coords[0] < active_start:
             upper.setActive((upper.coords[0], active_end))
 
+        #
+        # The last partition may start beyond a shape that is just an estimate
+        #
+        if upper.coords and shape and self.getRankAttrs().getEstimatedShape():
+            upper.getRankAttrs().setShape(
+                Fiber._maxShape(shape, upper.estimateShape(all_ranks=False)))
+
         return upper
 
 #
-- 
2.43.0


From 2bc754a8339885ef7df23d4591d9169250b964f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:50 +0000
Subject: [PATCH 53/82] fix: traced positions are indices into the fiber the
 element was read from

The positions in the intersect, union, populate and project traces counted
the elements delivered, so that they were wrong after an explicitly stored
default value, and for a projection in the opposite direction. A projected
element that was drawn but not followed by another draw was not traced, and
intersecting tuple coordinates of different lengths could not be done while
collecting.
---
 fibertree/core/fiber.py     |  28 +++---
 fibertree/core/iterators.py | 168 ++++++++++++++++++++----------------
 2 files changed, 111 insertions(+), 85 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index bc462f2..d0fecdf 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -26,7 +26,7 @@ from .any import Any
 from .coord_payload import CoordPayload
 from .iterators import coiterShape, coiterShapeRef, coiterActiveShape, \
     coiterActiveShapeRef, coiterRangeShape, coiterRangeShapeRef, intersection, \
-    union
+    union, _iterPos
 from .metrics import Metrics
 from .payload import Payload
 from .rank_attrs import RankAttrs
@@ -1295,6 +1295,8 @@ class Fiber:
         # Build the iterator
         class project_iterator:
             fbr = fiber
+            orig = self
+            rev = fiber is not self
             tck = tick
             trans = lambda self, c: trans_fn(c)
             interv = interval
@@ -1322,26 +1324,30 @@ class Fiber:
                     trace = "project_" + label
                     traced = Metrics.isTraced(src_rank, trace)
 
-                    if self.start is None:
-                        i = 0
-                    else:
-                        i = self.start
-
                     iteration = Metrics.getIter().copy()
 
-                fiter = self.fbr.__iter__(tick=self.tck, start_pos=self.start)
-                for j, (old_c, p) in enumerate(fiter):
+                if self.rev:
+                    # The fiber is read in the opposite order
+                    positions = [pos for pos, _, _ in _iterPos(self.orig)]
+                    fiter = ((pos, c, p) for (c, p), pos in
+                        zip(self.fbr.__iter__(tick=self.tck), reversed(positions)))
+                else:
+                    fiter = _iterPos(self.fbr, tick=self.tck, start_pos=self.start)
+
+                for pos, old_c, p in fiter:
                     c = self.trans(old_c)
                     if self.interv is not None and c >= self.interv[1]:
                         break
 
                     if self.interv is None \
                             or (c >= self.interv[0] and c < self.interv[1]):
+                        if traced:
+                            Metrics.addUse(src_rank, old_c, pos,
+                                type_=trace, iteration_num=iteration)
+
                         yield c, p
 
                         if traced:
-                            Metrics.addUse(src_rank, old_c, i + j,
-                                type_=trace, iteration_num=iteration)
                             iteration = Metrics.getIter().copy()
 
         if interval:
@@ -4865,7 +4871,7 @@ class Fiber:
 
         rank = self.getRankAttrs().getId()
         depth = Metrics.getIndex(rank)
-        for i, (c, p) in enumerate(self.__iter__(tick=False)):
+        for i, c, p in _iterPos(self):
             Metrics.addUse(rank, c, i, type_=trace_type, iteration_num=iteration_num)
 
             # Recurse down the tree
diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 3cf6616..3bd878c 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -15,12 +15,7 @@ from .payload import Payload
 
 def __iter__(self, tick=True, start_pos=None):
     """__iter__"""
-    if self.getOwner() is not None:
-        fmt = self.getOwner().getFormat()
-    elif self.getRankAttrs() is not None:
-        fmt = self.getRankAttrs().getFormat()
-    else:
-        fmt = "C"
+    fmt = _getFormat(self)
 
     if fmt == "C":
         return self.iterOccupancy(tick, start_pos=start_pos)
@@ -31,6 +26,28 @@ def __iter__(self, tick=True, start_pos=None):
     else:
         raise ValueError("Unknown format")
 
+def _getFormat(self):
+    """Get the format of the fiber's rank"""
+    if self.getOwner() is not None:
+        return self.getOwner().getFormat()
+    elif self.getRankAttrs() is not None:
+        return self.getRankAttrs().getFormat()
+    else:
+        return "C"
+
+def _iterPos(self, tick=False, start_pos=None):
+    """Iterate over a fiber, also giving the position of each element
+
+    Note: the position of an element of a compressed fiber is its index in the
+    fiber, i.e., explicitly stored default values occupy a position even though
+    they are not iterated over
+
+    """
+    if _getFormat(self) == "C":
+        return _iterRangePos(self, None, None, tick, start_pos)
+
+    return ((i, c, p) for i, (c, p) in enumerate(self.__iter__(tick)))
+
 
 def __reversed__(self):
     """Return reversed fiber"""
@@ -138,6 +155,11 @@ def iterRange(self, start, end, tick=True, start_pos=None):
         Saved position to start iteration
 
     """
+    for _, coord, payload in _iterRangePos(self, start, end, tick, start_pos):
+        yield CoordPayload(coord, payload)
+
+def _iterRangePos(self, start, end, tick, start_pos):
+    """iterRange(), also giving the position of each element"""
     # Cannot save a position of a lazy fiber
     assert not self.isLazy() or start_pos is None
 
@@ -177,7 +199,7 @@ def iterRange(self, start, end, tick=True, start_pos=None):
                 if is_collecting and tick:
                     Metrics.addUse(rank, coord, i + j)
 
-                yield CoordPayload(coord, payload)
+                yield i + j, coord, payload
 
                 if is_collecting and tick:
                     Metrics.incIter(rank)
@@ -530,7 +552,7 @@ def intersection(*args, **kwargs):
 
                     leader_traced = Metrics.isTraced(rank, traces[0])
 
-                for i, (c, p) in enumerate(self.fibers[0].__iter__(tick=False)):
+                for i, c, p in _iterPos(self.fibers[0]):
                     if leader_traced:
                         Metrics.addUse(rank, c, i, type_=traces[0])
 
@@ -634,6 +656,31 @@ def _get_next(iter_):
     return CoordPayload(coord, payload)
 
 
+def _get_next_pos(iter_):
+    """get_next_pos"""
+
+    return next(iter_, (None, None, None))
+
+def _extend_coord(coord, extra):
+    """Extend a coordinate with the (wildcard) coordinates in extra"""
+
+    return (coord if isinstance(coord, tuple) else (coord,)) + extra
+
+def _extend_coords(iter_, extra):
+    """Extend the coordinates of an iterator over positions and elements"""
+
+    return ((pos, _extend_coord(c, extra), p) for pos, c, p in iter_)
+
+def _orig_coord(coord):
+    """Remove the wildcard coordinates added by _extend_coord"""
+
+    if isinstance(coord, tuple) and coord[-1] is ANY:
+        coord = tuple(c for c in coord if c is not ANY)
+        if len(coord) == 1:
+            coord = coord[0]
+
+    return coord
+
 def _create_defaults(*fibers):
     """Create a fresh default payload of each of the fibers"""
 
@@ -711,55 +758,40 @@ def __and__(self, other):
                 a_traced = Metrics.isTraced(rank, a_trace)
                 b_traced = Metrics.isTraced(rank, b_trace)
 
-                a_pos = 0
-                b_pos = 0
-
             # Get the iterators
-            a = self.a_fiber.__iter__(tick=False)
-            b = self.b_fiber.__iter__(tick=False)
+            a = _iterPos(self.a_fiber)
+            b = _iterPos(self.b_fiber)
 
-            a_coord, a_payload = _get_next(a)
-            b_coord, b_payload = _get_next(b)
+            a_pos, a_coord, a_payload = _get_next_pos(a)
+            b_pos, b_coord, b_payload = _get_next_pos(b)
 
             len_a = len(a_coord) if isinstance(a_coord, tuple) else 1
             len_b = len(b_coord) if isinstance(b_coord, tuple) else 1
 
             if len_a == len_b or a_coord is None or b_coord is None:
-                def succ_next(a, a_coord, a_payload, b, b_coord, b_payload):
-                    return *_get_next(a), *_get_next(b)
+                def succ_next(a, a_next, b, b_next):
+                    return *_get_next_pos(a), *_get_next_pos(b)
 
                 def succ_yield(a_coord, b_coord):
                     return a_coord
 
             elif len_a < len_b:
-                if isinstance(a_coord, int):
-                    extra = (ANY,) * (len_b - 1)
-                    a = self.a_fiber.project(trans_fn=lambda c: (c,) + extra).__iter__(tick=False)
-                else:
-                    extra = (ANY,) * (len_b - len_a)
-                    a = self.a_fiber.project(trans_fn=lambda c: c + extra).__iter__(tick=False)
+                a = _extend_coords(a, (ANY,) * (len_b - len_a))
+                a_coord = _extend_coord(a_coord, (ANY,) * (len_b - len_a))
 
-                a_coord, a_payload = _get_next(a)
-
-                def succ_next(a, a_coord, a_payload, b, b_coord, b_payload):
-                    return a_coord, a_payload, *_get_next(b)
+                def succ_next(a, a_next, b, b_next):
+                    return *a_next, *_get_next_pos(b)
 
                 def succ_yield(a_coord, b_coord):
                     return b_coord
 
             # len_a > len_b
             else:
-                if isinstance(b_coord, int):
-                    extra = (ANY,) * (len_a - 1)
-                    b = self.b_fiber.project(trans_fn=lambda c: (c,) + extra).__iter__(tick=False)
-                else:
-                    extra = (ANY,) * (len_a - len_b)
-                    b = self.b_fiber.project(trans_fn=lambda c: c + extra).__iter__(tick=False)
+                b = _extend_coords(b, (ANY,) * (len_a - len_b))
+                b_coord = _extend_coord(b_coord, (ANY,) * (len_a - len_b))
 
-                b_coord, b_payload = _get_next(b)
-
-                def succ_next(a, a_coord, a_payload, b, b_coord, b_payload):
-                    return *_get_next(a), b_coord, b_payload
+                def succ_next(a, a_next, b, b_next):
+                    return *_get_next_pos(a), *b_next
 
                 def succ_yield(a_coord, b_coord):
                     return a_coord
@@ -768,49 +800,46 @@ def __and__(self, other):
                 if a_coord == b_coord:
 
                     if a_traced:
-                        Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
-                        a_pos += 1
+                        Metrics.addUse(rank, _orig_coord(a_coord), a_pos, type_=a_trace)
 
                     if b_traced:
-                        Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
-                        b_pos += 1
+                        Metrics.addUse(rank, _orig_coord(b_coord), b_pos, type_=b_trace)
 
                     yield succ_yield(a_coord, b_coord), (a_payload, b_payload)
 
-                    a_coord, a_payload, b_coord, b_payload = \
-                        succ_next(a, a_coord, a_payload, b, b_coord, b_payload)
+                    a_pos, a_coord, a_payload, b_pos, b_coord, b_payload = \
+                        succ_next(a, (a_pos, a_coord, a_payload),
+                                  b, (b_pos, b_coord, b_payload))
 
                     continue
 
                 if a_coord < b_coord:
                     if a_traced:
-                        Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
-                        a_pos += 1
+                        Metrics.addUse(rank, _orig_coord(a_coord), a_pos, type_=a_trace)
 
                     if is_collecting:
                         Metrics.incIter(rank)
 
-                    a_coord, a_payload = _get_next(a)
+                    a_pos, a_coord, a_payload = _get_next_pos(a)
 
                     continue
 
                 if a_coord > b_coord:
                     if b_traced:
-                        Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
-                        b_pos += 1
+                        Metrics.addUse(rank, _orig_coord(b_coord), b_pos, type_=b_trace)
 
                     if is_collecting:
                         Metrics.incIter(rank)
 
-                    b_coord, b_payload = _get_next(b)
+                    b_pos, b_coord, b_payload = _get_next_pos(b)
 
                     continue
 
             if a_traced and a_coord is not None:
-                Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
+                Metrics.addUse(rank, _orig_coord(a_coord), a_pos, type_=a_trace)
 
             if b_traced and b_coord is not None:
-                Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
+                Metrics.addUse(rank, _orig_coord(b_coord), b_pos, type_=b_trace)
 
             if is_collecting:
                 Metrics.incIter(rank)
@@ -889,68 +918,59 @@ def __or__(self, other):
                 a_traced = Metrics.isTraced(rank, a_trace)
                 b_traced = Metrics.isTraced(rank, b_trace)
 
-                a_pos = 0
-                b_pos = 0
-
-            a = self.a_fiber.__iter__(tick=False)
-            b = self.b_fiber.__iter__(tick=False)
+            a = _iterPos(self.a_fiber)
+            b = _iterPos(self.b_fiber)
 
-            a_coord, a_payload = _get_next(a)
-            b_coord, b_payload = _get_next(b)
+            a_pos, a_coord, a_payload = _get_next_pos(a)
+            b_pos, b_coord, b_payload = _get_next_pos(b)
 
             while a_coord is not None and b_coord is not None:
                 if a_coord == b_coord:
                     if a_traced:
                         Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
-                        a_pos += 1
 
                     if b_traced:
                         Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
-                        b_pos += 1
 
                     yield a_coord, ("AB", a_payload, b_payload)
 
-                    a_coord, a_payload = _get_next(a)
-                    b_coord, b_payload = _get_next(b)
+                    a_pos, a_coord, a_payload = _get_next_pos(a)
+                    b_pos, b_coord, b_payload = _get_next_pos(b)
 
 
 
                 elif a_coord < b_coord:
                     if a_traced:
                         Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
-                        a_pos += 1
 
                     b_default = self.b_fiber._createDefault(addtorank=False)
                     yield a_coord, ("A", a_payload, b_default)
-                    a_coord, a_payload = _get_next(a)
+                    a_pos, a_coord, a_payload = _get_next_pos(a)
 
                 # a_coord > b_coord
                 else:
                     if b_traced:
                         Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
-                        b_pos += 1
 
                     a_default = self.a_fiber._createDefault(addtorank=False)
                     yield b_coord, ("B", a_default, b_payload)
-                    b_coord, b_payload = _get_next(b)
+                    b_pos, b_coord, b_payload = _get_next_pos(b)
 
             while a_coord is not None:
                 if a_traced:
                     Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
-                    a_pos += 1
 
                 b_default = self.b_fiber._createDefault(addtorank=False)
                 yield a_coord, ("A", a_payload, b_default)
-                a_coord, a_payload = _get_next(a)
+                a_pos, a_coord, a_payload = _get_next_pos(a)
 
             while b_coord is not None:
                     if b_traced:
                         Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
-                        b_pos += 1
 
                     a_default = self.a_fiber._createDefault(addtorank=False)
                     yield b_coord, ("B", a_default, b_payload)
-                    b_coord, b_payload = _get_next(b)
+                    b_pos, b_coord, b_payload = _get_next_pos(b)
 
     result = self.fromIterator(or_iterator, active_range=self.getActive())
     result._setDefault(("", self.getDefault(), other.getDefault()))
@@ -1134,7 +1154,7 @@ def __lshift__(self, other, start_pos=None):
 
             # Add coordinates/payloads to a_fiber where necessary
             maybe_remove = False
-            b = self.b_fiber.__iter__(tick=False)
+            b = _iterPos(self.b_fiber)
 
             # Track the fiber position
             a_pos = self.spec_pos
@@ -1148,9 +1168,9 @@ def __lshift__(self, other, start_pos=None):
             insert_pos = self.a_fiber.getShape(all_ranks=False, authoritative=True)
             insert_start_pos = None
 
-            for b_pos, (b_coord, b_payload) in enumerate(b):
+            for b_num, (b_pos, b_coord, b_payload) in enumerate(b):
                 # Error check the starting position
-                assert b_pos > 0 or a_pos == 0 \
+                assert b_num > 0 or a_pos == 0 \
                     or (a_pos <= len(self.a_fiber.coords) \
                         and b_coord > self.a_fiber.coords[a_pos - 1])
 
@@ -1158,7 +1178,7 @@ def __lshift__(self, other, start_pos=None):
                 if is_collecting:
                     # First establish if we are inserting or only appending
                     a_max = self.a_fiber.maxCoord()
-                    if b_pos == 0 and a_max is not None and compressed_output:
+                    if b_num == 0 and a_max is not None and compressed_output:
                         inserting = b_coord < a_max
                         assert insert_pos is not None
 
-- 
2.43.0


From 591e7827b9429ba1145b12df01585a3a10222965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:41 +0000
Subject: [PATCH 54/82] fix: iterating over an uncompressed rank is traced

The iterators over every coordinate of a range advanced the iteration but
never recorded the element, leaving the rank out of its own trace and a stale
coordinate in the traces of the ranks below. A reference looked up without
naming a trace failed, or recorded its coordinate as that of the loop.
---
 fibertree/core/fiber.py     |  2 +-
 fibertree/core/iterators.py | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index d0fecdf..5fe89f2 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -927,7 +927,7 @@ class Fiber:
         else:
             payload = self._create_payload(coords[0])
 
-        if Metrics.isCollecting():
+        if Metrics.isCollecting() and trace is not None:
             Metrics.addUse(self.getRankAttrs().getId(), coords[0], index, type_=trace)
 
         if len(coords) > 1:
diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 3bd878c..b5ddc62 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -234,8 +234,15 @@ def iterRangeShape(self, start, end, step=1, tick=True):
     if is_collecting and tick:
         Metrics.registerRank(rank)
 
+        # Uncompressed elements are laid out from the first active coordinate
+        first = min(start, self.getActive()[0])
+
     for c in range(start, end, step):
         p = self.getPayload(c)
+
+        if is_collecting and tick:
+            Metrics.addUse(rank, c, c - first)
+
         yield CoordPayload(c, p)
 
         if is_collecting and tick:
@@ -268,8 +275,15 @@ def iterRangeShapeRef(self, start, end, step=1, tick=True):
     if is_collecting and tick:
         Metrics.registerRank(rank)
 
+        # Uncompressed elements are laid out from the first active coordinate
+        first = min(start, self.getActive()[0])
+
     for c in range(start, end, step):
         p = self.getPayloadRef(c)
+
+        if is_collecting and tick:
+            Metrics.addUse(rank, c, c - first)
+
         yield CoordPayload(c, p)
 
         if is_collecting and tick:
-- 
2.43.0


From 33a9b3408ef508e66176943486dc21eab66e3e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:50 +0000
Subject: [PATCH 55/82] fix: only the loop itself advances the iteration over a
 rank

The operands of a difference or a symmetric difference, and the nested unions
of Fiber.union(), ticked too: iterations were counted and traced more than
once, and labels were reset in the middle of the loop.
---
 fibertree/core/iterators.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index b5ddc62..5cf7b17 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -629,7 +629,7 @@ def union(*args):
         num_args = len(args)
 
         def __iter__(self):
-            for c, np in self.nested:
+            for c, np in self.nested.__iter__(tick=False):
                 p = [None] * (self.num_args + 1)
 
                 # This is the mask
@@ -1046,8 +1046,8 @@ def __xor__(self, other):
         b_fiber = other
 
         def __iter__(self):
-            a = self.a_fiber.__iter__()
-            b = self.b_fiber.__iter__()
+            a = self.a_fiber.__iter__(tick=False)
+            b = self.b_fiber.__iter__(tick=False)
 
             a_coord, a_payload = _get_next(a)
             b_coord, b_payload = _get_next(b)
@@ -1401,8 +1401,8 @@ def __sub__(self, other):
         b_fiber = other
 
         def __iter__(self):
-            a = self.a_fiber.__iter__()
-            b = self.b_fiber.__iter__()
+            a = self.a_fiber.__iter__(tick=False)
+            b = self.b_fiber.__iter__(tick=False)
 
             a_coord, a_payload = _get_next(a)
             b_coord, b_payload = _get_next(b)
-- 
2.43.0


From 52216cc8c4ce1b7f9da8ca7e7d124299d6ee0dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:30 +0000
Subject: [PATCH 56/82] fix: populating while collecting needs no authoritative
 integer shape

Collecting failed when a populate inserted into a fiber whose shape was
estimated (traced or not) or had tuple coordinates, and moved the saved
position of the fiber. The traces of an insertion skipped explicitly stored
default values, which put the rows that followed at the wrong positions, and
lost the final moves if the writes were not traced as well.
---
 fibertree/core/iterators.py | 55 +++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 5cf7b17..fe5115a 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -7,6 +7,7 @@ A module storing the implementations of all of the iterators of the Fiber class
 """
 
 import bisect
+from functools import reduce
 
 from .any import ANY
 from .coord_payload import CoordPayload
@@ -695,6 +696,21 @@ def _orig_coord(coord):
 
     return coord
 
+def _insertion_start(fiber):
+    """Get the first position of the area insertions are staged in, i.e., the
+    first position beyond the shape of the fiber"""
+
+    shape = fiber.getShape(all_ranks=False, authoritative=True)
+    if shape is None:
+        # All that is known is what the fiber holds and what it can be
+        # populated with
+        shape = max(fiber.getShape(all_ranks=False), fiber.getActive()[1])
+
+    if isinstance(shape, tuple):
+        shape = reduce(lambda x, y: x * y, shape, 1)
+
+    return shape
+
 def _create_defaults(*fibers):
     """Create a fresh default payload of each of the fibers"""
 
@@ -1177,9 +1193,8 @@ def __lshift__(self, other, start_pos=None):
 
             # Insertion information tracing
             inserting = False
-            old_end = 0
             to_insert = []
-            insert_pos = self.a_fiber.getShape(all_ranks=False, authoritative=True)
+            insert_pos = None
             insert_start_pos = None
 
             for b_num, (b_pos, b_coord, b_payload) in enumerate(b):
@@ -1194,7 +1209,7 @@ def __lshift__(self, other, start_pos=None):
                     a_max = self.a_fiber.maxCoord()
                     if b_num == 0 and a_max is not None and compressed_output:
                         inserting = b_coord < a_max
-                        assert insert_pos is not None
+                        insert_pos = _insertion_start(self.a_fiber)
 
                     # Read the B coordinate
                     if b_traced:
@@ -1202,10 +1217,13 @@ def __lshift__(self, other, start_pos=None):
 
                     # If we are inserting into a compressed fiber, we need
                     # to search for the coordinate
-                    if inserting and a_pos < len(self.a_fiber) and a_read_traced:
-                        for c, p in self.a_fiber.iterRange(
-                                old_end, b_coord, tick=False, start_pos=a_pos):
-                            read_pos = self.a_fiber.getSavedPos() - len(to_insert)
+                    if inserting and a_read_traced:
+                        for pos in range(a_pos, len(self.a_fiber.coords)):
+                            c = self.a_fiber.coords[pos]
+                            if c >= b_coord:
+                                break
+
+                            read_pos = pos - len(to_insert)
                             Metrics.addUse(rank, c, read_pos, type_=a_read_trace)
                             Metrics.incIter(rank)
 
@@ -1290,11 +1308,10 @@ def __lshift__(self, other, start_pos=None):
 
                 # If this is a new payload, we may have to track the
                 # insert/append
-                elif a_write_traced:
+                elif a_read_traced or a_write_traced:
                     # If we just inserted into a compressed fiber, save the
                     # relevant information
                     if inserting and new_a_payload:
-                        old_end = b_coord + 1
                         write_pos = insert_pos + len(to_insert)
                         to_insert.append(b_coord)
 
@@ -1305,10 +1322,11 @@ def __lshift__(self, other, start_pos=None):
                         write_pos = a_pos - len(to_insert)
 
                     # Write the new value
-                    iteration[Metrics.getIndex(rank)] += 1
-                    Metrics.addUse(rank, b_coord, write_pos, type_=a_write_trace,
-                        iteration_num=iteration)
-                    Metrics.incIter(rank)
+                    if a_write_traced:
+                        iteration[Metrics.getIndex(rank)] += 1
+                        Metrics.addUse(rank, b_coord, write_pos, type_=a_write_trace,
+                            iteration_num=iteration)
+                        Metrics.incIter(rank)
 
                 a_pos += 1
 
@@ -1316,14 +1334,13 @@ def __lshift__(self, other, start_pos=None):
             # location
             if inserting and len(to_insert) > 0 and (a_read_traced or a_write_traced):
                 iteration = list(iteration)
-                for i, (c, p) in enumerate(reversed(list(self.a_fiber.iterOccupancy(
-                                        tick=False, start_pos=insert_start_pos)))):
-                    write_pos = len(self.a_fiber) - i - 1
+                for write_pos in reversed(range(insert_start_pos, len(self.a_fiber.coords))):
+                    c = self.a_fiber.coords[write_pos]
                     iteration[Metrics.getIndex(rank)] += 1
 
                     # If this is an element we inserted, we need to read it
                     # from somewhere else
-                    if c == to_insert[-1]:
+                    if to_insert and c == to_insert[-1]:
                         read_pos = insert_pos + len(to_insert) - 1
                         to_insert.pop()
 
@@ -1337,10 +1354,6 @@ def __lshift__(self, other, start_pos=None):
                     if a_write_traced:
                         Metrics.addUse(rank, c, write_pos, type_=a_write_trace, iteration_num=iteration)
 
-                # Reset the saved position since it just got messed up
-                if self.spec_pos is not None:
-                    self.a_fiber.setSavedPos(a_pos - 1)
-
             return
 
     fiber = self.fromIterator(lshift_iterator, active_range=other.getActive())
-- 
2.43.0


From 8939bb3f60a00372a204b5ba7009ac42eaaf8a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:15 +0000
Subject: [PATCH 57/82] fix: ranks of tuple coordinates can be co-iterated
 while collecting

A rank whose id is a list of ranks was not hashable, and a tuple coordinate
was flattened even if no shape had been associated with the rank.
---
 fibertree/core/fiber.py     | 10 +++++-----
 fibertree/core/iterators.py |  8 ++++----
 fibertree/core/metrics.py   |  2 +-
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 5fe89f2..57432b6 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -854,7 +854,7 @@ class Fiber:
             const_used = True
 
         if Metrics.isCollecting() and trace is not None:
-            Metrics.addUse(self.getRankAttrs().getId(), coords[0], index, type_=trace)
+            Metrics.addUse(str(self.getRankAttrs().getId()), coords[0], index, type_=trace)
 
         if not const_used and len(coords) > 1:
             assert Payload.contains(payload, Fiber), \
@@ -928,7 +928,7 @@ class Fiber:
             payload = self._create_payload(coords[0])
 
         if Metrics.isCollecting() and trace is not None:
-            Metrics.addUse(self.getRankAttrs().getId(), coords[0], index, type_=trace)
+            Metrics.addUse(str(self.getRankAttrs().getId()), coords[0], index, type_=trace)
 
         if len(coords) > 1:
             # Recurse to the next level's fiber
@@ -1309,14 +1309,14 @@ class Fiber:
 
                 # Associate the src and dst ranks
                 if Metrics.isCollecting():
-                    src_rank = self.fbr.getRankAttrs().getId()
-                    Metrics.matchRanks(src_rank, self.rank)
+                    src_rank = str(self.fbr.getRankAttrs().getId())
+                    Metrics.matchRanks(src_rank, str(self.rank))
 
             def __iter__(self):
                 is_collecting = Metrics.isCollecting()
                 traced = False
                 if is_collecting:
-                    src_rank = self.fbr.getRankAttrs().getId()
+                    src_rank = str(self.fbr.getRankAttrs().getId())
                     if tick:
                         Metrics.registerRank(src_rank)
 
diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index fe5115a..d11e48a 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -561,7 +561,7 @@ def intersection(*args, **kwargs):
                 leader_traced = False
                 traces = [""] * len(self.fibers)
                 if is_collecting:
-                    rank = self.fibers[0].getRankAttrs().getId()
+                    _, rank = _prep_metrics_inc(self.fibers[0])
                     traces = ["intersect_" + str(Metrics.getLabel(rank)) \
                               for _ in range(len(self.fibers))]
 
@@ -778,7 +778,7 @@ def __and__(self, other):
             a_traced = False
             b_traced = False
             if is_collecting:
-                rank = self.a_fiber.getRankAttrs().getId()
+                _, rank = _prep_metrics_inc(self.a_fiber)
                 a_label = str(Metrics.getLabel(rank))
                 b_label = str(Metrics.getLabel(rank))
 
@@ -938,7 +938,7 @@ def __or__(self, other):
             a_traced = False
             b_traced = False
             if is_collecting:
-                rank = self.a_fiber.getRankAttrs().getId()
+                _, rank = _prep_metrics_inc(self.a_fiber)
                 a_label = str(Metrics.getLabel(rank))
                 b_label = str(Metrics.getLabel(rank))
 
@@ -1169,7 +1169,7 @@ def __lshift__(self, other, start_pos=None):
             a_write_traced = False
             b_traced = False
             if is_collecting:
-                rank = self.a_fiber.getRankAttrs().getId()
+                _, rank = _prep_metrics_inc(self.a_fiber)
                 a_label = str(Metrics.getLabel(rank))
                 b_label = str(Metrics.getLabel(rank))
                 compressed_output = self.a_fiber.getRankAttrs().getFormat() == "C"
diff --git a/fibertree/core/metrics.py b/fibertree/core/metrics.py
index 396df81..43a4d5d 100644
--- a/fibertree/core/metrics.py
+++ b/fibertree/core/metrics.py
@@ -80,7 +80,7 @@ class Metrics:
         assert cls.collecting
         assert rank in cls.line_order or rank in cls.rank_matches
 
-        if isinstance(coord, tuple):
+        if isinstance(coord, tuple) and rank in cls.rank_flatten:
             coord = cls.rank_flatten[rank](coord)
 
         # Update the point
-- 
2.43.0


From b4a947667d51e66bb6dd54b77bc7900e7062b660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:22 +0000
Subject: [PATCH 58/82] fix: a rank matched to a registered rank joins its
 level of the loop nest

A projection inside of a co-iteration matches its ranks only after the loop
has registered its own, which left the source rank without a place in the
loop order: its labels were never reset, and tracing it failed.
---
 fibertree/core/metrics.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/fibertree/core/metrics.py b/fibertree/core/metrics.py
index 43a4d5d..85b9ffc 100644
--- a/fibertree/core/metrics.py
+++ b/fibertree/core/metrics.py
@@ -491,6 +491,24 @@ class Metrics:
         for rank in all_matches:
             cls.all_rank_matches[rank] = all_matches.difference({rank})
 
+        # If one of the ranks is already part of the loop order, the others
+        # join it there
+        if not cls.collecting:
+            return
+
+        for rank in cls.loop_order:
+            if rank not in all_matches:
+                continue
+
+            for src_rank in all_matches:
+                if src_rank in cls.line_order or src_rank in cls.rank_matches:
+                    continue
+
+                cls.rank_matches[src_rank] = rank
+
+                for type_ in cls.traces.get(src_rank, {}):
+                    cls._startTrace(src_rank, type_)
+
     @classmethod
     def registerRank(cls, rank):
         """Register a rank as a part of the loop order
-- 
2.43.0


From 15fdbaeb58c637b604a1fcf0ddc096bf039fae8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:49 +0000
Subject: [PATCH 59/82] fix: a trace starts from a clean file and with its
 header

A trace whose rank was never iterated left the rows of an earlier collection
with the same prefix in its file, and one that was requested after its rank
had been registered had no header.
---
 fibertree/core/metrics.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/metrics.py b/fibertree/core/metrics.py
index 85b9ffc..edc1d5a 100644
--- a/fibertree/core/metrics.py
+++ b/fibertree/core/metrics.py
@@ -654,6 +654,10 @@ class Metrics:
         else:
             cls.traces[rank][type_] = ([], mem_trace, is_started)
 
+        # If the rank is already part of the loop order, start right away
+        if not is_started and (rank in cls.line_order or rank in cls.rank_matches):
+            cls._startTrace(rank, type_)
+
     @classmethod
     def _writeTrace(cls, rank, type_):
         """Write the trace to the file
@@ -673,11 +677,15 @@ class Metrics:
         None
 
         """
-        file_trace, mem_trace, _ = cls.traces[rank][type_]
+        file_trace, mem_trace, is_started = cls.traces[rank][type_]
         assert file_trace is not None
 
+        # A trace that never started must not keep the rows of an earlier
+        # collection
+        mode = "a" if is_started else "w"
+
         trace_strs = [",".join(str(val) for val in line) + "\n" for line in file_trace]
-        with open(cls.prefix + "-" + rank + "-" + type_ + ".csv", "a") as f:
+        with open(cls.prefix + "-" + rank + "-" + type_ + ".csv", mode) as f:
             f.write("".join(trace_strs))
 
         cls.traces[rank][type_] = ([], mem_trace, True)
-- 
2.43.0


From 7f6c7609139ec1d14a4f041b039a05d7ffc81650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:05 +0000
Subject: [PATCH 60/82] fix: a kernel without payload operations has zero
 operations

Compute.numOps() raised KeyError when nothing had been counted.
---
 fibertree/model/compute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/model/compute.py b/fibertree/model/compute.py
index 9b9833c..a14fb17 100644
--- a/fibertree/model/compute.py
+++ b/fibertree/model/compute.py
@@ -35,7 +35,7 @@ class Compute:
     def numOps(dump, op):
         """Compute the number of operations executed by this kernel """
         metric = "payload_" + op
-        if(metric in dump["Compute"].keys()):
+        if(metric in dump.get("Compute", {}).keys()):
             return dump["Compute"][metric]
         else:
             return 0
-- 
2.43.0


From 101a2c41965b9727c136c8add22eed159c8cae49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:18 +0000
Subject: [PATCH 61/82] fix: uncompressing a fiber is not a loop of the kernel

Fiber.uncompress() iterated with the metrics ticking, so that calling it
during collection added iterations to the traced rank and took its labels.
---
 fibertree/core/fiber.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 57432b6..54aca2a 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -3161,17 +3161,15 @@ class Fiber:
 
         f = []
 
-        shape_fiber = Fiber(coords=list(range(shape[level])), initial=1)
-        for c, (mask, p, _) in self | shape_fiber:
+        elements = {c: p for c, p in self.__iter__(tick=False)}
 
-            if (mask == "AB"):
-                if Payload.contains(p, Fiber):
-                    f.append(Payload.get(p).uncompress(shape, level + 1))
-                else:
-                    f.append(Payload.get(p))
-
-            if (mask == "B"):
+        for c in range(shape[level]):
+            if c not in elements:
                 f.append(self._fillempty(shape, level + 1))
+            elif Payload.contains(elements[c], Fiber):
+                f.append(Payload.get(elements[c]).uncompress(shape, level + 1))
+            else:
+                f.append(Payload.get(elements[c]))
 
         return f
 
-- 
2.43.0


From 0b3f224cfa2879b626be080816f8ef4e24e8a423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:29 +0000
Subject: [PATCH 62/82] fix: footprints, swap counts and images do not tick the
 loops they are called in

---
 fibertree/graphics/tree_image.py         | 4 ++--
 fibertree/graphics/uncompressed_image.py | 4 ++--
 fibertree/model/compute.py               | 4 ++--
 fibertree/model/format.py                | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/fibertree/graphics/tree_image.py b/fibertree/graphics/tree_image.py
index 3cf6db9..2a23019 100644
--- a/fibertree/graphics/tree_image.py
+++ b/fibertree/graphics/tree_image.py
@@ -290,7 +290,7 @@ class TreeImage():
         #
         # Traverse the fiber at this level
         #
-        for n, (c, p) in enumerate(fiber):
+        for n, (c, p) in enumerate(fiber.__iter__(tick=False)):
             #
             # TBD: Truncate fibers with too many elements
             #
@@ -352,7 +352,7 @@ class TreeImage():
 
         pos = fiber_start
 
-        for c, p in fiber:
+        for c, p in fiber.__iter__(tick=False):
             #
             # Gets sets of workers to be colored
             #
diff --git a/fibertree/graphics/uncompressed_image.py b/fibertree/graphics/uncompressed_image.py
index 75c2190..504b544 100644
--- a/fibertree/graphics/uncompressed_image.py
+++ b/fibertree/graphics/uncompressed_image.py
@@ -263,7 +263,7 @@ class UncompressedImage():
         #
         # Just show the nonEmpty cubes
         #
-        for cube_c, cube_p in fiber:
+        for cube_c, cube_p in fiber.__iter__(tick=False):
 
             self._draw_label(row_cur, col_origin, f"{cube_c}")
             row_cur += 2
@@ -308,7 +308,7 @@ class UncompressedImage():
         #
         # Just show the nonEmpty matrices
         #
-        for matrix_c, matrix_p in fiber:
+        for matrix_c, matrix_p in fiber.__iter__(tick=False):
 
             self._draw_label(row_origin, col_cur+5, f"{matrix_c}")
 
diff --git a/fibertree/model/compute.py b/fibertree/model/compute.py
index a14fb17..e05b23f 100644
--- a/fibertree/model/compute.py
+++ b/fibertree/model/compute.py
@@ -75,13 +75,13 @@ class Compute:
         # Recurse if necessary
         if depth > 0:
             depth -= 1
-            for _, payload in fiber:
+            for _, payload in fiber.__iter__(tick=False):
                 swaps += Compute._numSwapsTree(payload, depth, radix, next_latency)
             return swaps
 
         # Otherwise merge
         coords = []
-        for _, payload in fiber:
+        for _, payload in fiber.__iter__(tick=False):
             coords.append(sorted([-c for c in payload.getCoords()]))
 
         while len(coords) > 1:
diff --git a/fibertree/model/format.py b/fibertree/model/format.py
index 634f9b6..a000fb0 100644
--- a/fibertree/model/format.py
+++ b/fibertree/model/format.py
@@ -182,9 +182,9 @@ class Format:
 
             # Add child fibers
             if self.spec[rank]["format"] == "U":
-                iter_ = fiber.iterShape()
+                iter_ = fiber.iterShape(tick=False)
             else:
-                iter_ = fiber.iterOccupancy()
+                iter_ = fiber.iterOccupancy(tick=False)
 
             for _, payload in iter_:
                 if isinstance(payload, Fiber):
-- 
2.43.0


From 0fda8a74ee3cb0206fbb88336792f4ce8534a744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:47 +0000
Subject: [PATCH 63/82] fix: intersectors compare fiber by fiber, however the
 traces are batched

---
 fibertree/model/intersect.py | 194 +++++++++++------------------------
 1 file changed, 62 insertions(+), 132 deletions(-)

diff --git a/fibertree/model/intersect.py b/fibertree/model/intersect.py
index 71e1b0d..f10f5ff 100644
--- a/fibertree/model/intersect.py
+++ b/fibertree/model/intersect.py
@@ -16,7 +16,8 @@ class Intersector:
 
         """
         self.num_intersects = 0
-        self.started = False
+        self.num_ranks = None
+        self.started = set()
 
     def addTraces(self, *traces):
         """Consume the information in the trace to count intersections
@@ -37,6 +38,31 @@ class Intersector:
         """
         raise NotImplementedError
 
+    def _newRows(self, i, trace):
+        """Get the new rows of the ith trace, without the header that starts it"""
+        if i in self.started or not trace:
+            return trace
+
+        self.started.add(i)
+        self.num_ranks = (len(trace[0]) - 1) // 2
+
+        return trace[1:]
+
+    def _newFibers(self, *traces):
+        """Get the lists of coordinates (one per trace) presented by each set
+        of fibers intersected since the last call to addTraces"""
+        fibers = {}
+        for i, trace in enumerate(traces):
+            for row in self._newRows(i, trace):
+                point = row[self.num_ranks:self.num_ranks * 2]
+                fiber = tuple(point[:-1])
+
+                if fiber not in fibers:
+                    fibers[fiber] = [[] for _ in traces]
+                fibers[fiber][i].append(point[-1])
+
+        return fibers.values()
+
     def getNumIntersects(self):
         """Get the number of intersection tests performed so far
 
@@ -73,14 +99,7 @@ class LeaderFollowerIntersector(Intersector):
         """
         assert len(traces) == 1
 
-        new_intersects = len(traces[0])
-
-        # Throw away the header, since we don't need it
-        if not self.started:
-            self.started = True
-            new_intersects -= 1
-
-        self.num_intersects += new_intersects
+        self.num_intersects += len(self._newRows(0, traces[0]))
 
 class SkipAheadIntersector(Intersector):
     """Class for counting intersections with a skip-ahead-intersector"""
@@ -104,81 +123,35 @@ class SkipAheadIntersector(Intersector):
         """
         assert len(traces) == 2
 
-        trace0 = traces[0]
-        trace1 = traces[1]
-
-        # Throw away the header, since we don't need it
-        if not self.started and trace0:
-            self.started = True
-
-            self.num_ranks = (len(trace0[0]) - 1) // 2
-
-            trace0 = trace0[1:]
-            trace1 = trace1[1:]
-
-        i0 = -1
-        i1 = -1
-
-        def get_next(trace, i):
-            if i + 1 < len(trace):
-                return trace[i + 1][self.num_ranks:self.num_ranks * 2], i + 1
-            return None, None
-
-        point0, i0 = get_next(trace0, i0)
-        point1, i1 = get_next(trace1, i1)
-
-        if point0 is None or point1 is None:
-            return
-
-        assert point0 is not None and point1 is not None and point0[:-1] == point1[:-1]
-
-        fiber = point0[:-1]
-        curr = None
-
-        while point0 and point1:
-            if point0 == point1:
-                self.num_intersects += 1
-                curr = None
-
-                point0, i0 = get_next(trace0, i0)
-                point1, i1 = get_next(trace1, i1)
-
-            elif point0 < point1:
-                if curr != 0:
-                    curr = 0
-                    self.num_intersects += 1
+        for coords0, coords1 in self._newFibers(*traces):
+            i0 = 0
+            i1 = 0
 
-                point0, i0 = get_next(trace0, i0)
+            # The trace skipped through by the most recent comparison
+            curr = None
 
-                # If we have reached the end of this iteration, forward the other
-                # finger to the next fiber
-                if point0 is None or fiber != point0[:-1]:
-                    point1, i1 = get_next(trace1, i1)
-
-            # point0 > point1
-            else:
-                if curr != 1:
-                    curr = 1
+            while i0 < len(coords0) and i1 < len(coords1):
+                if coords0[i0] == coords1[i1]:
                     self.num_intersects += 1
+                    curr = None
 
-                point1, i1 = get_next(trace1, i1)
+                    i0 += 1
+                    i1 += 1
 
-                # If we have reached the end of this iteration, forward the other
-                # finger to the next fiber
-                if point1 is None or fiber != point1[:-1]:
-                    point0, i0 = get_next(trace0, i0)
+                elif coords0[i0] < coords1[i1]:
+                    if curr != 0:
+                        curr = 0
+                        self.num_intersects += 1
 
-            old_fiber = fiber
-            if point0:
-                fiber = point0[:-1]
-            else:
-                fiber = None
+                    i0 += 1
 
-            # Do not need to check point1 because both fingers should fall of
-            # the end of the trace at the same time
+                # coords0[i0] > coords1[i1]
+                else:
+                    if curr != 1:
+                        curr = 1
+                        self.num_intersects += 1
 
-            if fiber != old_fiber:
-                curr = None
+                    i1 += 1
 
 class TwoFingerIntersector(Intersector):
     """Class for counting intersections with a two-finger-intersector"""
@@ -200,63 +173,20 @@ class TwoFingerIntersector(Intersector):
         """
         assert len(traces) == 2
 
-        trace0 = traces[0]
-        trace1 = traces[1]
-
-        # Throw away the header, since we don't need it
-        if not self.started:
-            self.started = True
-
-            self.num_ranks = (len(trace0[0]) - 1) // 2
-
-            trace0 = trace0[1:]
-            trace1 = trace1[1:]
-
-        i0 = -1
-        i1 = -1
-
-        def get_next(trace, i):
-            if i + 1 < len(trace):
-                return trace[i + 1][self.num_ranks:self.num_ranks * 2], i + 1
-            return None, None
-
-        point0, i0 = get_next(trace0, i0)
-        point1, i1 = get_next(trace1, i1)
+        for coords0, coords1 in self._newFibers(*traces):
+            i0 = 0
+            i1 = 0
 
-        if point0 is None or point1 is None:
-            return
-
-        assert point0 is not None and point1 is not None and point0[:-1] == point1[:-1]
-
-        fiber = point0[:-1]
-
-        while point0 and point1:
-            self.num_intersects += 1
-
-            if point0 == point1:
-                point0, i0 = get_next(trace0, i0)
-                point1, i1 = get_next(trace1, i1)
-
-            elif point0 < point1:
-                point0, i0 = get_next(trace0, i0)
-
-                # If we have reached the end of this iteration, forward the other
-                # finger to the next fiber
-                if point0 is None or fiber != point0[:-1]:
-                    point1, i1 = get_next(trace1, i1)
-
-
-            # point0 > point1
-            else:
-                point1, i1 = get_next(trace1, i1)
+            while i0 < len(coords0) and i1 < len(coords1):
+                self.num_intersects += 1
 
-                # If we have reached the end of this iteration, forward the other
-                # finger to the next fiber
-                if point1 is None or fiber != point1[:-1]:
-                    point0, i0 = get_next(trace0, i0)
+                if coords0[i0] == coords1[i1]:
+                    i0 += 1
+                    i1 += 1
 
-            if point0:
-                fiber = point0[:-1]
-            else:
-                fiber = None
+                elif coords0[i0] < coords1[i1]:
+                    i0 += 1
 
+                # coords0[i0] > coords1[i1]
+                else:
+                    i1 += 1
-- 
2.43.0


From 25f1f50e112cbba8b46cef8ee85b963095c84a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 64/82] fix: swap counts take any radix and any stored list,
 and do not depend on payload values

---
 fibertree/model/compute.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/fibertree/model/compute.py b/fibertree/model/compute.py
index e05b23f..21763b7 100644
--- a/fibertree/model/compute.py
+++ b/fibertree/model/compute.py
@@ -75,18 +75,23 @@ class Compute:
         # Recurse if necessary
         if depth > 0:
             depth -= 1
-            for _, payload in fiber.__iter__(tick=False):
+            for payload in fiber.payloads:
                 swaps += Compute._numSwapsTree(payload, depth, radix, next_latency)
             return swaps
 
-        # Otherwise merge
+        # Otherwise merge; only the coordinates stored matter, not their values
+        if fiber.getRankAttrs().getFormat() == "U":
+            payloads = [p for _, p in fiber.iterActiveShape(tick=False)]
+        else:
+            payloads = [p for p in fiber.payloads if len(p) > 0]
+
         coords = []
-        for _, payload in fiber.__iter__(tick=False):
+        for payload in payloads:
             coords.append(sorted([-c for c in payload.getCoords()]))
 
         while len(coords) > 1:
             new = []
-            if radix > len(coords):
+            if radix == "N" or radix > len(coords):
                 radix = len(coords)
 
             for i in range(0, len(coords), radix):
@@ -120,6 +125,9 @@ class Compute:
 
         # First insert all fibers
         for i, list_ in enumerate(coords):
+            if len(list_) == 0:
+                continue
+
             elem = (list_.pop(), i)
             j = bisect.bisect_right(head, elem)
             compares += len(head) - j + 1
-- 
2.43.0


From 36afc80eef027a12cede6d742c1e71686fd4d769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 65/82] fix: a swoop Scan covers the whole fiber

---
 fibertree/codec/swoop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/codec/swoop.py b/fibertree/codec/swoop.py
index 6fec61e..3a253af 100644
--- a/fibertree/codec/swoop.py
+++ b/fibertree/codec/swoop.py
@@ -364,7 +364,7 @@ class Scan (AST):
     
     # If we started a new fiber, setup the Slice.
     if starting_new_fiber: 
-      self.current_fiber.setupSlice(0, 0, 0)
+      self.current_fiber.setupSlice()
     
     # At this point, we should always have a current fiber.
     res = self.current_fiber.nextInSlice()
-- 
2.43.0


From 81f57246b988e2befe9ccc5a0bc7507041bb74e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:09 +0000
Subject: [PATCH 66/82] fix: a bit-vector fiber imposes the shape on the ranks
 below it

---
 fibertree/codec/formats/bitvector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/codec/formats/bitvector.py b/fibertree/codec/formats/bitvector.py
index 5a8bb1f..a0e09ac 100644
--- a/fibertree/codec/formats/bitvector.py
+++ b/fibertree/codec/formats/bitvector.py
@@ -40,7 +40,7 @@ class Bitvector(CompressionFormat):
         
         for ind, (val) in a:
             if depth < len(ranks) - 1:
-                fiber, child_occupancy = codec.encode(depth + 1, val, ranks, output, output_tensor)
+                fiber, child_occupancy = codec.encode(depth + 1, val, ranks, output, output_tensor, shape=shape)
                 # store coordinate explicitly
                 self.payloads.append(fiber)
                 if isinstance(cumulative_occupancy, int):
-- 
2.43.0


From f25885dc47debc5e792599b5b83cb01517bf5d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 67/82] fix: an empty encoded fiber has a size

---
 fibertree/codec/formats/coord_list.py   | 3 ---
 fibertree/codec/formats/uncompressed.py | 3 +--
 2 files changed, 1 insertion(+), 5 deletions(-)

diff --git a/fibertree/codec/formats/coord_list.py b/fibertree/codec/formats/coord_list.py
index 97ec4d4..e331ddb 100644
--- a/fibertree/codec/formats/coord_list.py
+++ b/fibertree/codec/formats/coord_list.py
@@ -277,9 +277,6 @@ class CoordinateList(CompressionFormat):
     # get size of representation
     def getSize(self): 
         # self.printFiber()
-        if self.next_fmt != None and self.next_fmt.encodeUpperPayload():
-            assert(len(self.payloads) > 0)
-
         size = len(self.coords) + len(self.occupancies)
         # Don't need to store occupancies if lower level is U
         # if not isinstance(self.payloads[0], CompressionFormat):
diff --git a/fibertree/codec/formats/uncompressed.py b/fibertree/codec/formats/uncompressed.py
index 350d030..0527b91 100644
--- a/fibertree/codec/formats/uncompressed.py
+++ b/fibertree/codec/formats/uncompressed.py
@@ -125,10 +125,9 @@ class Uncompressed(CompressionFormat):
         print("{} :: occupancies {}, payloads {}".format(self.name, self.occupancies, self.payloads))
     
     def getSize(self):
-        assert(len(self.payloads) > 0)
         assert(len(self.coords) == 0)
         size = len(self.occupancies)
-        if not isinstance(self.payloads[0], CompressionFormat):
+        if len(self.payloads) > 0 and not isinstance(self.payloads[0], CompressionFormat):
             size += len(self.payloads)
         
         # print("size of {} = {}. coords {}, occupancies {}, payloads {}".format(self.name, size, self.coords, self.occupancies, self.payloads))
-- 
2.43.0


From 839b3d4c613342722581c0ec5cda013e402cd741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:32 +0000
Subject: [PATCH 68/82] fix: fiber handles of coordinate-list and bit-vector
 fibers index the next rank

---
 fibertree/codec/formats/bitvector.py  |  4 ++++
 fibertree/codec/formats/coord_list.py | 13 ++-----------
 2 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/fibertree/codec/formats/bitvector.py b/fibertree/codec/formats/bitvector.py
index a0e09ac..a56e48b 100644
--- a/fibertree/codec/formats/bitvector.py
+++ b/fibertree/codec/formats/bitvector.py
@@ -127,6 +127,10 @@ class Bitvector(CompressionFormat):
         # self.prev_coord_at_payload = iter_handle.coords_handle
         return super().handleToPayload(iter_handle.payloads_handle)
 
+    # fibers of the next rank are numbered across the fibers of this rank
+    def payloadToFiberHandle(self, payload):
+        return self.occupancy_so_far + payload
+
     # does this need to return a payload handle?
     # NOTE: in bitvector, handles to coords and payloads are different
     def coordToHandle(self, coord):
diff --git a/fibertree/codec/formats/coord_list.py b/fibertree/codec/formats/coord_list.py
index e331ddb..fb13803 100644
--- a/fibertree/codec/formats/coord_list.py
+++ b/fibertree/codec/formats/coord_list.py
@@ -226,22 +226,13 @@ class CoordinateList(CompressionFormat):
 
     # API Methods
     def handleToPayload(self, handle):
-        # if next level has implicit payloads above (e.g. U), payload is implicit
-        if self.next_fmt != None and not self.next_fmt.encodeUpperPayload():
-            print("\t\tnext level not encoded, ret {}".format(self.occupancy_so_far))
-            
-            return self.occupancy_so_far # self.idx_in_rank + handle
         return handle
 
     # API Methods
     def payloadToFiberHandle(self, payload):
-        # if next level has implicit payloads above (e.g. U), payload is implicit
-        if not self.next_fmt.encodeUpperPayload():
-            print("\t{} next level not encoded, payload {} ret {}".format(self.name, payload, payload))
-            return payload # self.idx_in_rank # + payload
-        
+        # fibers of the next rank are numbered across the fibers of this rank
         # print("\t{} payloadToFiberHandle:: ret {}".format(self.name, payload))
-        return payload
+        return self.occupancy_so_far + payload
 
 
     # return handle for termination
-- 
2.43.0


From 63f58da2ba59cdbea7dcfc6dc05ca3cd236fceaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:16 +0000
Subject: [PATCH 69/82] fix: the staging area of a binding begins at its own
 rank's shape

---
 fibertree/model/traffic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fibertree/model/traffic.py b/fibertree/model/traffic.py
index e23d083..1bcedff 100644
--- a/fibertree/model/traffic.py
+++ b/fibertree/model/traffic.py
@@ -469,7 +469,8 @@ class Traffic:
         # Compute the last lines for all writable traces whose intermediate
         # writes we can ignore
         shapes = []
-        for i, info in enumerate(bind_info):
+        for info in bind_info:
+            tensor, rank = info[:2]
             if pin_intermediate_writes(info):
                 shape = formats[tensor].tensor.getShape(authoritative=True)
                 assert shape is not None
-- 
2.43.0


From d8059b5e904957de234dfecf2110ab9189fc6682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:16 +0000
Subject: [PATCH 70/82] fix: traffic models take traces with negative
 coordinates

---
 fibertree/model/traffic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/model/traffic.py b/fibertree/model/traffic.py
index 1bcedff..03fab81 100644
--- a/fibertree/model/traffic.py
+++ b/fibertree/model/traffic.py
@@ -578,7 +578,7 @@ class Traffic:
         split = line[:-1].split(",")
         trace = []
         for val in split:
-            if val.isdigit():
+            if val.isdigit() or val[0] == "-":
                 trace.append(int(val))
             elif val[0] == "N":
                 trace.append(None)
-- 
2.43.0


From de0bdb8e634e5f2d440c6211528b4b4c2c80d416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 71/82] fix: the cache model tells lines with the same next use
 apart

---
 fibertree/model/traffic.py | 78 +++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 40 deletions(-)

diff --git a/fibertree/model/traffic.py b/fibertree/model/traffic.py
index 03fab81..8abfdc5 100644
--- a/fibertree/model/traffic.py
+++ b/fibertree/model/traffic.py
@@ -638,20 +638,26 @@ class Traffic:
         """
         @functools.total_ordering
         class ListElem:
-            def __init__(self, bind_pos, next_access, obj):
-                self.next_access = next_access
+            def __init__(self, bind_pos, obj, next_access, next_is_write):
                 self.obj = obj
                 self.pos = bind_pos
+                self.setNext(next_access, next_is_write)
+
+            def setNext(self, next_access, next_is_write):
+                self.next_access = next_access
+                self.next_is_write = next_is_write
+
+            def order(self):
+                # Fall back on the position if the next access is at the same
+                # point; within one binding (whose reads and writes may come
+                # at the same point), the line read next goes first
+                return self.next_access, self.pos, not self.next_is_write
 
             def __eq__(self, other):
-                return self.next_access == other.next_access and self.pos == other.pos
+                return self.order() == other.order()
 
             def __lt__(self, other):
-                if self.next_access != other.next_access:
-                    return self.next_access < other.next_access
-
-                # Fall back on the position if the next access is at the same point
-                return self.pos < other.pos
+                return self.order() < other.order()
 
             def __repr__(self):
                 return str((self.next_access, self.obj, self.pos))
@@ -675,58 +681,50 @@ class Traffic:
 
             return next_evict, pinned, None
 
+        def stages(shape, num_ranks, trace):
+            # The access is an intermediate write that is never written back
+            return shape is not None and trace[num_ranks * 2 + 1] \
+                and trace[num_ranks * 2] >= shape
+
         def to_be_buffered(bind_info, bind_pos, capacity, loop_ranks,
                 num_ranks, obj, objs, occupancy, order, shapes, sim_info, trace):
             next_evict, pinned, _ = sim_info
             next_access = trace[num_ranks * 2 + 2:num_ranks * 3 + 2]
+            next_is_write = trace[num_ranks * 4 + 3]
             tensor, _, type_ = bind_info[bind_pos]
 
-            # Do not buffer if never used again
-            if trace[num_ranks * 2 + 2] is None:
-                if obj in objs[tensor][type_]:
-                    if next_evict and next_evict[0].obj == obj:
-                        list_elem = next_evict.pop(0)
-                    else:
-                        assert obj in pinned[tensor][type_]
-                        list_elem = objs[tensor][type_][obj][1]
-
-                    list_elem.next_access = [float("inf")]
-
-                else:
-                    list_elem = None
+            # The element is in the cache
+            if obj in objs[tensor][type_]:
+                list_elem = objs[tensor][type_][obj][1]
+                if obj not in pinned[tensor][type_]:
+                    next_evict.remove(list_elem)
 
                 sim_info = next_evict, pinned, list_elem
-                return False, sim_info
-
-            # If this element is in the cache, but not pinned
-            if next_evict and next_evict[0].obj == obj \
-                    and next_evict[0].pos == bind_pos:
-                list_elem = next_evict.pop(0)
-                list_elem.next_access = next_access
 
-                next_evict.add(list_elem)
-                sim_info = next_evict, pinned, list_elem
+                # Do not buffer if never used again
+                if trace[num_ranks * 2 + 2] is None:
+                    list_elem.setNext([float("inf")], None)
+                    return False, sim_info
 
-                return True, sim_info
+                list_elem.setNext(next_access, next_is_write)
 
-            # If the element is pinned
-            elif obj in pinned[tensor][type_]:
-                list_elem = objs[tensor][type_][obj][1]
-                list_elem.next_access = next_access
+                if obj not in pinned[tensor][type_]:
+                    next_evict.add(list_elem)
 
-                sim_info = next_evict, pinned, list_elem
                 return True, sim_info
 
-            assert obj not in objs[tensor][type_]
+            # Do not buffer if never used again
+            if trace[num_ranks * 2 + 2] is None:
+                return False, (next_evict, pinned, None)
 
-            list_elem = ListElem(bind_pos, next_access, obj)
+            list_elem = ListElem(bind_pos, obj, next_access, next_is_write)
             sim_info = next_evict, pinned, list_elem
             # Definitely buffer if there is space in the buffer
             if occupancy + line_sz <= capacity:
                 to_buffer = True
 
             # Definitely buffer if this is a pinned element
-            elif shapes[bind_pos] is not None and trace[num_ranks * 2] >= shapes[bind_pos]:
+            elif stages(shapes[bind_pos], num_ranks, trace):
                 to_buffer = True
 
             # Do not buffer if we are full of pinned elements
@@ -766,7 +764,7 @@ class Traffic:
 
             # If this element is not pinned, add it to the heap
             tensor, _, type_ = bind_info[bind_pos]
-            if shapes[bind_pos] is None or trace[num_ranks * 2] < shapes[bind_pos]:
+            if not stages(shapes[bind_pos], num_ranks, trace):
                 next_evict.add(list_elem)
 
             # Otherwise pin the element
-- 
2.43.0


From 132ec4a59932deb8bc3d7ad1445a8a528f39c152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 72/82] fix: a cached line that receives intermediate writes is
 pinned

---
 fibertree/model/traffic.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fibertree/model/traffic.py b/fibertree/model/traffic.py
index 8abfdc5..b937596 100644
--- a/fibertree/model/traffic.py
+++ b/fibertree/model/traffic.py
@@ -708,6 +708,11 @@ class Traffic:
 
                 list_elem.setNext(next_access, next_is_write)
 
+                # A line that now holds intermediate data can no longer be
+                # evicted
+                if stages(shapes[bind_pos], num_ranks, trace):
+                    pinned[tensor][type_].add(obj)
+
                 if obj not in pinned[tensor][type_]:
                     next_evict.add(list_elem)
 
-- 
2.43.0


From fe84ec5a3876ee1f6b6b61a7a282ffce1909da42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 73/82] fix: filtering a trace keeps every row whose point is
 in the filter

---
 fibertree/model/traffic.py | 39 +++++++++++---------------------------
 1 file changed, 11 insertions(+), 28 deletions(-)

diff --git a/fibertree/model/traffic.py b/fibertree/model/traffic.py
index b937596..8948e3b 100644
--- a/fibertree/model/traffic.py
+++ b/fibertree/model/traffic.py
@@ -37,40 +37,23 @@ class Traffic:
             Filename of the output trace
         """
         def get_data(line):
-            if line:
-                full = line[:-1].split(",")[:-1]
-                return tuple(int(val) for val in full[len(full) // 2:])
-
-            return ()
+            full = line[:-1].split(",")[:-1]
+            return tuple(int(val) for val in full[len(full) // 2:])
 
         with open(input_fn, "r") as f_in, open(filter_fn, "r") as f_fil, \
                 open(output_fn, "w") as f_out:
-            f_out.write(f_in.readline())
+            head = f_in.readline()
+            f_out.write(head)
             f_fil.readline()
 
-            line_in = f_in.readline()
-            line_fil = f_fil.readline()
-
-            data_in = get_data(line_in)
-            data_fil = get_data(line_fil)[:len(data_in)]
-
-            while line_in and line_fil:
-                if data_in == data_fil:
-                    f_out.write(line_in)
-
-                    line_in = f_in.readline()
-                    line_fil = f_fil.readline()
+            # Neither trace needs to visit its points in order or only once
+            # (e.g., insertions are traced in the order they move elements)
+            num_ranks = len(head.split(",")) // 2
+            points = set(get_data(line)[:num_ranks] for line in f_fil)
 
-                    data_in = get_data(line_in)
-                    data_fil = get_data(line_fil)[:len(data_in)]
-
-                elif data_in < data_fil:
-                    line_in = f_in.readline()
-                    data_in = get_data(line_in)
-
-                else:
-                    line_fil = f_fil.readline()
-                    data_fil = get_data(line_fil)[:len(data_in)]
+            for line in f_in:
+                if get_data(line) in points:
+                    f_out.write(line)
 
     @staticmethod
     def _combineTraces(read_fn=None, write_fn=None, comb_fn=None):
-- 
2.43.0


From bf303982a3129aa55bf88cb6da3e09ec98a615a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 74/82] fix: the cache model takes several accesses with one
 stamp

---
 fibertree/model/traffic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/model/traffic.py b/fibertree/model/traffic.py
index 8948e3b..154e05e 100644
--- a/fibertree/model/traffic.py
+++ b/fibertree/model/traffic.py
@@ -634,7 +634,7 @@ class Traffic:
                 # Fall back on the position if the next access is at the same
                 # point; within one binding (whose reads and writes may come
                 # at the same point), the line read next goes first
-                return self.next_access, self.pos, not self.next_is_write
+                return self.next_access, self.pos, not self.next_is_write, self.obj
 
             def __eq__(self, other):
                 return self.order() == other.order()
-- 
2.43.0


From d48320e0d037e49618467b9fe57871047e9c4829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:19 +0000
Subject: [PATCH 75/82] fix: the intersection of fibers with tuple payloads has
 one payload per fiber

---
 fibertree/core/iterators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index d11e48a..290ab98 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -537,11 +537,14 @@ def intersection(*args, **kwargs):
         # Lazy implementation
         class intersection_iterator:
             nested = nested_result
+            num_args = len(args)
 
             def __iter__(self):
                 for c, np in self.nested.__iter__(tick=False):
                     p = []
-                    while isinstance(Payload.get(np), tuple):
+
+                    # A payload of the first fiber can itself be a tuple
+                    for _ in range(self.num_args - 1):
                         val = Payload.get(np)
                         p.append(val[1])
                         np = val[0]
-- 
2.43.0


From a26ce3d0ed19ebd094433d0f261eb45aefe0f9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:15 +0000
Subject: [PATCH 76/82] fix: load frozenset payloads from a YAML file

---
 fibertree/core/fiber.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 54aca2a..0ad2421 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -41,13 +41,18 @@ module_logger = logging.getLogger('fibertree.core.fiber')
 # Define an error class
 #
 class CoordLoader(yaml.SafeLoader):
-    """A safe YAML loader that also reads tuple coordinates and shapes"""
+    """A safe YAML loader that also reads tuple coordinates and shapes, and
+    frozenset payloads"""
 
 
 CoordLoader.add_constructor("tag:yaml.org,2002:python/tuple",
                             lambda loader, node:
                             tuple(loader.construct_sequence(node, deep=True)))
 
+CoordLoader.add_constructor("tag:yaml.org,2002:python/object/apply:builtins.frozenset",
+                            lambda loader, node:
+                            frozenset(loader.construct_sequence(node, deep=True)[0]))
+
 
 class CoordinateError(Exception):
     """CoordinateError"""
-- 
2.43.0


From f89104c12cd35cccdc15ee0e0e419f8a9fd91b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 77/82] fix: Fiber *= scalar scales the same elements in every
 rank format

Under an uncompressed format the loop also visited the explicit defaults, so f *= s
and f * s left different contents in a fiber with a non-zero default.
---
 fibertree/core/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 0ad2421..01dabf7 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -3573,7 +3573,7 @@ class Fiber:
         #
         # Othewise multiply `other` to each element of `self`
         #
-        for _, p in self:
+        for _, p in self.iterOccupancy():
             p *= other
 
         return self
-- 
2.43.0


From 20ff49d9925937c654a1bce24059955a9b95d13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 78/82] fix: flattening covers every lower fiber's shape, not
 just one's

Lower fibers may declare different shapes. The linear style used each fiber's own
(so coordinates could collide) and the flattened shape came from the last one only.
---
 fibertree/core/fiber.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 01dabf7..020989e 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4583,6 +4583,17 @@ class Fiber:
         up_shape = self.getShape(all_ranks=False, authoritative=True)
         low_shape = None
 
+        #
+        # One shape must cover all the lower fibers, otherwise
+        # (linearized) coordinates could collide
+        #
+        low_shapes = [p.getShape(all_ranks=False, authoritative=True)
+                      for p in cur_payloads
+                      if Payload.contains(p, Fiber) and p.coords]
+
+        if low_shapes and None not in low_shapes:
+            low_shape = Fiber._maxShape(*low_shapes)
+
         for c1, p1 in zip(self.coords, cur_payloads):
             if not Payload.contains(p1, Fiber):
                 raise PayloadError
@@ -4603,7 +4614,6 @@ class Fiber:
 
             default = p1.getDefault()
 
-            low_shape = p1.getShape(all_ranks=False, authoritative=True)
             for c0, p0 in p1.iterOccupancy(tick=False):
                 new_coord = self._flattenCoords(c1,
                                                 c0,
-- 
2.43.0


From b5471b7620d0a4d82cdae4aa4074879a466e03f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 79/82] fix: the shape of an unowned fiber covers tuple-shaped
 sub-fibers component by component

---
 fibertree/core/fiber.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 020989e..61c02f1 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2846,12 +2846,8 @@ class Fiber:
                         if i >= len(rest):
                             rest.append(ns)
 
-                        # If only fibers without elements were seen up to now
-                        elif rest[i] == 0:
-                            rest[i] = ns
-
-                        elif ns != 0:
-                            rest[i] = max(rest[i], ns)
+                        else:
+                            rest[i] = Fiber._maxShape(rest[i], ns)
 
                 shape = [shape] + rest
 
-- 
2.43.0


From b3c7e90fe0ce720d629713332f77f1be71cfc3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 80/82] fix: arithmetic between a payload and an element is
 counted once

---
 fibertree/core/payload.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/fibertree/core/payload.py b/fibertree/core/payload.py
index b4cea48..96cbb4c 100644
--- a/fibertree/core/payload.py
+++ b/fibertree/core/payload.py
@@ -384,9 +384,21 @@ class Payload:
 #
 # Arithmetic operations
 #
+    @staticmethod
+    def _element_payload(other):
+        """Get the payload of an element, so that arithmetic between a payload
+        and an element is a single operation on the two payloads"""
+
+        if type(other).__name__ == "CoordPayload":
+            return other.payload
+
+        return other
+
     def __add__(self, other):
         """__add__"""
 
+        other = Payload._element_payload(other)
+
         if isinstance(other, Payload):
             ans = self.value + other.value
         else:
@@ -413,6 +425,8 @@ class Payload:
         """__iadd__"""
         old = self.value
 
+        other = Payload._element_payload(other)
+
         if isinstance(other, Payload):
             self.value = self.value + other.value
         else:
@@ -516,6 +530,8 @@ class Payload:
     def __mul__(self, other):
         """__mul__"""
 
+        other = Payload._element_payload(other)
+
         if isinstance(other, Payload):
             ans = self.value * other.value
         else:
@@ -569,6 +585,8 @@ class Payload:
     def __imul__(self, other):
         """__imul__"""
 
+        other = Payload._element_payload(other)
+
         if isinstance(other, Payload):
             self.value = self.value * other.value
         else:
-- 
2.43.0


From cfdd4b5a8e2a87195155e23468d810eaabb0cf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:49 +0000
Subject: [PATCH 81/82] fix: a second form of a running trace gets its own
 header, and the first keeps its rows

---
 fibertree/core/metrics.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/fibertree/core/metrics.py b/fibertree/core/metrics.py
index edc1d5a..95f8433 100644
--- a/fibertree/core/metrics.py
+++ b/fibertree/core/metrics.py
@@ -649,15 +649,28 @@ class Metrics:
             cls.traces[rank][type_] = (None, None, False)
 
         file_trace, mem_trace, is_started = cls.traces[rank][type_]
+
+        # A trace that is already being collected in this form keeps its rows
+        if (mem_trace if consumable else file_trace) is not None:
+            return
+
+        # Add the new form on its own, so that one already being collected is
+        # not started again
         if consumable:
-            cls.traces[rank][type_] = (file_trace, [], is_started)
+            cls.traces[rank][type_] = (None, [], is_started)
         else:
-            cls.traces[rank][type_] = ([], mem_trace, is_started)
+            cls.traces[rank][type_] = ([], None, is_started)
 
         # If the rank is already part of the loop order, start right away
-        if not is_started and (rank in cls.line_order or rank in cls.rank_matches):
+        if rank in cls.line_order or rank in cls.rank_matches:
             cls._startTrace(rank, type_)
 
+        new_file, new_mem, is_started = cls.traces[rank][type_]
+        if consumable:
+            cls.traces[rank][type_] = (file_trace, new_mem, is_started)
+        else:
+            cls.traces[rank][type_] = (new_file, mem_trace, is_started)
+
     @classmethod
     def _writeTrace(cls, rank, type_):
         """Write the trace to the file
-- 
2.43.0


From 79727248ee2f8ca00a8902633d7f6e3c4247e4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:34 +0000
Subject: [PATCH 82/82] fix: the depth of an unowned fiber does not depend on
 its first sub-fiber holding elements

---
 fibertree/core/fiber.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 61c02f1..278136e 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -3108,15 +3108,16 @@ class Fiber:
             return depth
 
         #
-        # Just have a raw fiber, so count levels
+        # Just have a raw fiber, so count levels (any of the fibers at a
+        # level may be empty)
         #
-        fiber = self
+        fibers = [self]
 
-        depth = 1
+        depth = 0
 
-        while len(fiber.payloads) > 0 and isinstance(fiber.payloads[0], Fiber):
+        while len(fibers) > 0:
             depth += 1
-            fiber = fiber.payloads[0]
+            fibers = [p for f in fibers for p in f.payloads if isinstance(p, Fiber)]
 
         return depth
 
-- 
2.43.0

