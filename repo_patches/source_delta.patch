From e0eb8d4d3bf16bb2951afb501fccbe42d2153078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:36 +0000
Subject: [PATCH 01/45] fix: slices of plist and tlist follow the rules of list
 slices

---
 pcollections/_list.py | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/pcollections/_list.py b/pcollections/_list.py
index e77e348..6560978 100644
--- a/pcollections/_list.py
+++ b/pcollections/_list.py
@@ -166,13 +166,7 @@ class plist(PersistentSequence):
         phamt = self._phamt
         n = len(phamt)
         if isinstance(k, slice):
-            (start,stop,step) = (k.start or 0, k.stop or n, k.step or 1)
-            if   start <= -n: start = 0
-            elif start < 0:   start += n
-            elif start > n:   start = n
-            if   stop <= -n: stop = 0
-            elif stop < 0:   stop += n
-            elif stop > n:   stop = n
+            (start,stop,step) = k.indices(n)
             if st != 0:
                 start += st
                 stop += st
@@ -273,13 +267,7 @@ class tlist(TransientSequence):
         thamt = self._thamt
         n = len(thamt)
         if isinstance(k, slice):
-            (start,stop,step) = (k.start or 0, k.stop or n, k.step or 1)
-            if   start <= -n: start = 0
-            elif start < 0:   start += n
-            elif start > n:   start = n
-            if   stop <= -n: stop = 0
-            elif stop < 0:   stop += n
-            elif stop > n:   stop = n
+            (start,stop,step) = k.indices(n)
             if st != 0:
                 start += st
                 stop += st
-- 
2.43.0


From c03fa69030f290dc96d8e998df3eb4fd12862e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:36 +0000
Subject: [PATCH 02/45] fix: deleting the first or last item of an llist gives
 an llist

---
 pcollections/_list.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pcollections/_list.py b/pcollections/_list.py
index 6560978..fc2cf9d 100644
--- a/pcollections/_list.py
+++ b/pcollections/_list.py
@@ -92,11 +92,11 @@ class plist(PersistentSequence):
         # Some cases don't require a THAMT:
         if index == 0:
             if n == 1:
-                return plist.empty
+                return self.clear()
             else:
-                return plist._new(phamt.dissoc(st), st + 1)
+                return self._new(phamt.dissoc(st), st + 1)
         elif index == n - 1:
-            return plist._new(phamt.dissoc(st + index), st)
+            return self._new(phamt.dissoc(st + index), st)
         # Other cases require moving elements around a fair bit, so we use a
         # THAMT object.
         thamt = THAMT(phamt)
-- 
2.43.0


From 2e7e3584aecafa3c65475e69ce2ffe04cc9f0e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:36 +0000
Subject: [PATCH 03/45] fix: plist(l) of an llist gives a plist of the
 evaluated items

---
 pcollections/_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pcollections/_list.py b/pcollections/_list.py
index fc2cf9d..2fec912 100644
--- a/pcollections/_list.py
+++ b/pcollections/_list.py
@@ -39,9 +39,9 @@ class plist(PersistentSequence):
                 return cls.empty
             else:
                 return cls._new(arg._thamt.persistent(), arg._start)
-        elif isinstance(arg, cls):
+        elif type(arg) is cls:
             return arg
-        elif isinstance(arg, plist):
+        elif type(arg) is plist:
             if len(arg) == 0:
                 return cls.empty
             else:
-- 
2.43.0


From 589d3b5da752727bf18c74470f5f77f01b3e42e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:36 +0000
Subject: [PATCH 04/45] fix: count works on transient lists and evaluates lazy
 items

---
 pcollections/abc/_seq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 51484fa..16d7bfa 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -171,7 +171,7 @@ class PersistentSequence(Persistent, Sequence):
     def count(self, value):
         """Returns the number of occurences of value."""
         n = 0
-        for (k,obj) in self._phamt:
+        for obj in self:
             if obj == value: n += 1
         return n
     def extend(self, iterable):
@@ -407,7 +407,7 @@ class TransientSequence(Transient, MutableSequence):
     def count(self, value):
         """Returns the number of occurences of value."""
         n = 0
-        for (k,obj) in self._phamt:
+        for obj in self:
             if obj == value: n += 1
         return n
     def extend(self, iterable):
-- 
2.43.0


From 69f82d439d3f217490d91aef1af8096e490d95cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:36 +0000
Subject: [PATCH 05/45] fix: adding a list to an empty list keeps the type of
 the left operand

---
 pcollections/abc/_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 16d7bfa..2b0f914 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -211,7 +211,7 @@ class PersistentSequence(Persistent, Sequence):
             raise TypeError(msg)
         elif len(obj) == 0:
             return self
-        elif len(self) == 0 and isinstance(obj, PersistentSequence):
+        elif len(self) == 0 and type(obj) is type(self):
             return obj
         else:
             return self.extend(obj)
-- 
2.43.0


From b5f78e36880bec2c71eb343a1e979fe495664f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:36 +0000
Subject: [PATCH 06/45] fix: index() accepts a missing stop and negative bounds

---
 pcollections/abc/_seq.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 2b0f914..b63a370 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -185,8 +185,13 @@ class PersistentSequence(Persistent, Sequence):
 
         Raises ValueError if value is not present.
         """
+        n = len(self)
         if stop is None:
-            stop = len(self)
+            stop = n
+        elif stop < 0:
+            stop += n
+        if start < 0:
+            start = max(0, start + n)
         if start == 0:
             for (ii,val) in enumerate(self):
                 if ii >= stop:
@@ -419,6 +424,13 @@ class TransientSequence(Transient, MutableSequence):
 
         Raises ValueError if value is not present.
         """
+        n = len(self)
+        if stop is None:
+            stop = n
+        elif stop < 0:
+            stop += n
+        if start < 0:
+            start = max(0, start + n)
         if start == 0:
             for (ii,val) in enumerate(self):
                 if ii >= stop:
-- 
2.43.0


From 845d4c1aabecc3a87283c239173c553975084a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:36 +0000
Subject: [PATCH 07/45] fix: tlist.sort no longer fails with a NameError

---
 pcollections/abc/_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index b63a370..8cfb137 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -338,7 +338,7 @@ class TransientSequence(Transient, MutableSequence):
         The reverse flag can be set to sort in descending order.
         """
         for (ii,el) in enumerate(sorted(self, key=key, reverse=reverse)):
-            t[ii] = el
+            self[ii] = el
     def count(self, value):
         """Returns the number of occurences of value."""
         n = 0
-- 
2.43.0


From 89a9ee65282af4e700551a9c1923e733224d526c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:36 +0000
Subject: [PATCH 08/45] fix: tlist.reverse exchanges the right items

---
 pcollections/abc/_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 8cfb137..924d14b 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -362,7 +362,7 @@ class TransientSequence(Transient, MutableSequence):
         """Reverses *IN PLACE*."""
         n = len(self)
         for k in range(n//2):
-            kk = n - k
+            kk = n - k - 1
             tmp = self[k]
             self[k] = self[kk]
             self[kk] = tmp
-- 
2.43.0


From 78a53d4dcb8ac3c8f3da604bcad69e3a15e7d6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:36 +0000
Subject: [PATCH 09/45] fix: list + tlist no longer fails with a NameError

---
 pcollections/abc/_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 924d14b..5e6fa6b 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -475,7 +475,7 @@ class TransientSequence(Transient, MutableSequence):
             t = self.copy()
             for el in reversed(obj):
                 t.prepend(el)
-            return r
+            return t
     def __imul__(self, value):
         if not isinstance(value, Integral):
             msg = f"can't multiply sequence by non-int of type '{type(value)}'"
-- 
2.43.0


From 74a302782a134487c0b850df821aa5c898747bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:36 +0000
Subject: [PATCH 10/45] fix: tlist *= n repeats the list exactly n times

---
 pcollections/abc/_seq.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 5e6fa6b..d32c3db 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -486,13 +486,9 @@ class TransientSequence(Transient, MutableSequence):
         if reps == 0:
             self.clear()
         elif reps > 1:
-            n = len(self)
+            els = list(self)
             for r in range(reps - 1):
-                for (ii,el) in enumerate(self):
-                    if ii > n:
-                        break
-                    else:
-                        self.append(el)
+                self.extend(els)
         return self
     def __mul__(self, value):
         t = self.copy()
-- 
2.43.0


From cb671f75205aae05a5e70df234e79895ba247904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:36 +0000
Subject: [PATCH 11/45] fix: tlist.extend(itself) ends

---
 pcollections/abc/_seq.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index d32c3db..172e7f8 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -417,6 +417,8 @@ class TransientSequence(Transient, MutableSequence):
         return n
     def extend(self, iterable):
         """Return a new persistent sequence with the iterables appended."""
+        if iterable is self:
+            iterable = list(self)
         for el in iterable:
             self.append(el)
     def index(self, value, start=0, stop=None):
-- 
2.43.0


From 567962be01ea9fff242bdd59bcda1f93a1785958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:36 +0000
Subject: [PATCH 12/45] fix: iterators over a tlist respect edits made
 meanwhile

---
 pcollections/_list.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/pcollections/_list.py b/pcollections/_list.py
index 2fec912..130499b 100644
--- a/pcollections/_list.py
+++ b/pcollections/_list.py
@@ -4,8 +4,6 @@
 # The persistent list type for Python.
 # By Noah C. Benson
 
-from itertools import (chain, islice)
-
 from phamt import (PHAMT,THAMT)
 
 from .abc import (PersistentSequence, TransientSequence)
@@ -251,14 +249,12 @@ class tlist(TransientSequence):
         else:
             return self._orig
     def __iter__(self):
-        st = self._start
-        th = self._thamt
-        n = len(th)
-        if st >= 0 or n + st < 0:
-            return map(lambda u:u[1], iter(th))
-        else:
-            return chain((th[k] for k in range(st, 0)),
-                         islice(map(lambda u:u[1], iter(th)), 0, n + st))
+        # We iterate by position (like list iterators do) so that edits made
+        # during the iteration are respected.
+        ii = 0
+        while ii < len(self._thamt):
+            yield self._thamt[self._start + ii]
+            ii += 1
     def __len__(self):
         """Returns the length of the tlist."""
         return len(self._thamt)
-- 
2.43.0


From f3ac3d98da985eff41efcd326bc2634d7badea2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:36 +0000
Subject: [PATCH 13/45] fix: comparing lists compares items for equality before
 order

---
 pcollections/abc/_seq.py   | 6 ++++--
 pcollections/util/_core.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 172e7f8..589245c 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -136,8 +136,10 @@ class PersistentSequence(Persistent, Sequence):
             return True
         elif not isinstance(other, PersistentSequence._eq_types):
             return False
+        elif len(self) != len(other):
+            return False
         else:
-            return seqcmp(self, other) == 0
+            return all(a is b or a == b for (a,b) in zip(self, other))
     def __lt__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'<' not supported between instances of"
@@ -380,7 +382,7 @@ class TransientSequence(Transient, MutableSequence):
         elif len(self) != len(other):
             return False
         else:
-            return seqcmp(self, other) == 0
+            return all(a is b or a == b for (a,b) in zip(self, other))
     def __lt__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'<' not supported between instances of"
diff --git a/pcollections/util/_core.py b/pcollections/util/_core.py
index e4255c4..a773ff3 100644
--- a/pcollections/util/_core.py
+++ b/pcollections/util/_core.py
@@ -55,13 +55,15 @@ def seqcmp(seq1, seq2):
     `b`, and 1 if `a` sorts after `b`.
     """
     if not isinstance(seq1, Sequence):
-        msg = f"unsupported operand type for compare: {type(setq)}"
+        msg = f"unsupported operand type for compare: {type(seq1)}"
         raise TypeError(msg)
     if not isinstance(seq2, Sequence):
         msg = f"unsupported operand type for compare: {type(seq2)}"
         raise TypeError(msg)
     for (a,b) in zip(seq1, seq2):
-        if a < b:
+        if a is b or a == b:
+            continue
+        elif a < b:
             return -1
         elif b < a:
             return 1
-- 
2.43.0


From f403bac3cbae8eb9fb9f72a671c30752f0356601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:36 +0000
Subject: [PATCH 14/45] fix: llist.ready_all evaluates the lazy items

---
 pcollections/_lazy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index b3a5171..cca51b2 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -230,7 +230,7 @@ class llist(plist):
             return True
     def ready_all(self):
         "Caches all lazy items then returns the list."
-        for el in self._phamt:
+        for (k,el) in self._phamt:
             if isinstance(el, lazy):
                 el()
         return self
-- 
2.43.0


From 943b06ed674070a9b5256c26dc457e2396d3b08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 15/45] fix: pset.add of an element whose hash collides with
 another

---
 pcollections/_set.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pcollections/_set.py b/pcollections/_set.py
index 0f27017..e225068 100644
--- a/pcollections/_set.py
+++ b/pcollections/_set.py
@@ -102,6 +102,7 @@ class pset(PersistentSet):
             # list.
             new_els = self._els.assoc(self._top, (obj, None))
             new_els = new_els.assoc(ii_prev, (x_prev, self._top))
+            new_idx = self._idx
         return self._new(new_els, new_idx, self._top + 1)
     def discard(self, obj):
         """Returns a copy of the pset that does not include the given object.
-- 
2.43.0


From 0be1cd7f2bef4e2ad7772c6a574ef52852c9514b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 16/45] fix: isdisjoint is true of empty sets and accepts any
 iterable

---
 pcollections/abc/_set.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 8fac331..66481df 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -165,9 +165,7 @@ class PersistentSet(Set, Persistent):
         return type(self)(t)
     def isdisjoint(self, other):
         """Returns `True` if two sets have a null intersection."""
-        if not isinstance(other, Set):
-            other = set(other)
-        return setcmp(self, other) is None
+        return not any(map(self.__contains__, other))
     def issubset(self, other):
         """Report whether another set contains this set."""
         if not isinstance(other, (set, frozenset)):
@@ -376,7 +374,7 @@ class TransientSet(MutableSet, Transient):
         return c == 1 or c == 0
     def isdisjoint(self, other):
         """Returns `True` if two sets have a null intersection."""
-        return setcmp(self, other) is None
+        return not any(map(self.__contains__, other))
     def issubset(self, other):
         """Report whether another set contains this set."""
         if not isinstance(other, (set, frozenset)):
-- 
2.43.0


From af4cedfd31622c10353f2f1cdcf466ab17d953bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 17/45] fix: pset.symmetric_difference of equally large sets

---
 pcollections/abc/_set.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 66481df..7ed2a36 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -207,8 +207,6 @@ class PersistentSet(Set, Persistent):
         t = self.transient()
         for arg in args:
             t ^= arg
-        if len(t) == len(self):
-            return self
         return type(self)(t)
     def union(self, *args):
         """Returns the union of the persistent set and all arguments."""
-- 
2.43.0


From 0bd2773f631ab36d168c756f50c9d3e3db6de314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 18/45] fix: intersection and symmetric_difference methods
 accept any iterable

---
 pcollections/abc/_set.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 7ed2a36..33d1dcd 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -195,6 +195,8 @@ class PersistentSet(Set, Persistent):
         """
         t = self.transient()
         for arg in args:
+            if not isinstance(arg, Set):
+                arg = set(arg)
             t &= arg
         if len(t) == len(self):
             return self
@@ -206,6 +208,8 @@ class PersistentSet(Set, Persistent):
         """
         t = self.transient()
         for arg in args:
+            if not isinstance(arg, Set):
+                arg = set(arg)
             t ^= arg
         return type(self)(t)
     def union(self, *args):
@@ -399,6 +403,8 @@ class TransientSet(MutableSet, Transient):
     def intersection_update(self, *args):
         """Update a set with the intersection of itself and another."""
         for arg in args:
+            if not isinstance(arg, Set):
+                arg = set(arg)
             self &= arg
     def intersection(self, *args):
         """Return the intersection of two sets as a new transient set.
@@ -410,7 +416,9 @@ class TransientSet(MutableSet, Transient):
         return t
     def symmetric_difference_update(self, other):
         """Update a set with the symmetric difference of itself and another."""
-        self ^= arg
+        if not isinstance(other, Set):
+            other = set(other)
+        self ^= other
     def symmetric_difference(self, other):
         """Return the symmetric difference of two sets as a new set.
 
-- 
2.43.0


From 90d716d1b3b5369139997f06d7c181c87a0a4ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 19/45] fix: comparing a tset with something that is no set

---
 pcollections/abc/_set.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 33d1dcd..ce73dbf 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -359,9 +359,15 @@ class TransientSet(MutableSet, Transient):
         #return f"{{<{s[1:-1]}>}}"
         return f"{{<{seqstr(self)}>}}"
     def __eq__(self, other):
-        return setcmp(self, other) == 0
+        if isinstance(other, Set):
+            return setcmp(self, other) == 0
+        else:
+            return False
     def __ne__(self, other):
-        return setcmp(self, other) != 0
+        if isinstance(other, Set):
+            return setcmp(self, other) != 0
+        else:
+            return True
     def __hash__(self):
         return hash(frozenset(self)) + 1
     def __lt__(self, other):
-- 
2.43.0


From d78068fe5872f061538b7254cbee109302a998af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 20/45] fix: removing the elements of a tset from itself

---
 pcollections/abc/_set.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index ce73dbf..f775b3d 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -508,6 +508,9 @@ class TransientSet(MutableSet, Transient):
         if not isinstance(other, Set):
             raise TypeError(f"unsupported operand type for ^=:"
                             f" '{type(self)}' and '{type(other)}'")
+        if other is self:
+            self.clear()
+            return self
         rm = []
         for el in self:
             if el in other:
@@ -551,6 +554,8 @@ class TransientSet(MutableSet, Transient):
 
         If any element is not found, then it is ignored.
         """
+        if iterable is self:
+            iterable = list(self)
         for el in iterable:
             self.discard(el)
     def removeall(self, iterable):
@@ -559,6 +564,8 @@ class TransientSet(MutableSet, Transient):
 
         If any element is not found, then a `KeyError` is raised.
         """
+        if iterable is self:
+            iterable = list(self)
         for el in iterable:
             self.remove(el)
     def copy(self):
-- 
2.43.0


From e948d82f669f5f34575319e701ed7c8e1c7f63a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 21/45] fix: iterators over a tset notice that it was cleared

---
 pcollections/_set.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pcollections/_set.py b/pcollections/_set.py
index e225068..480f1f2 100644
--- a/pcollections/_set.py
+++ b/pcollections/_set.py
@@ -149,6 +149,13 @@ pset.empty = pset._new(PHAMT.empty, PHAMT.empty, 0)
 # tset
 # The transient set type.
 
+def _tset_iter(tset, els, it):
+    for u in it:
+        if tset._els is not els:
+            break
+        yield u[1][0]
+    if tset._els is not els:
+        raise RuntimeError("tset changed during iteration")
 class tset(TransientSet):
     """A transient set type similar to `set` for mutating persistent sets.
 
@@ -204,7 +211,7 @@ class tset(TransientSet):
                 return True
         return False
     def __iter__(self):
-        return map(lambda u: u[1][0], self._els)
+        return _tset_iter(self, self._els, iter(self._els))
     def add(self, obj):
         """Returns a copy of the tset that includes the given object."""
         # Get the hash and initial index (if there is one).
-- 
2.43.0


From d83ff8519007b4fc735715c3842211ed545fdece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 22/45] fix: attributes of persistent collections cannot be
 deleted

---
 pcollections/abc/_core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pcollections/abc/_core.py b/pcollections/abc/_core.py
index ae2a404..d6c82e2 100644
--- a/pcollections/abc/_core.py
+++ b/pcollections/abc/_core.py
@@ -14,6 +14,8 @@ class Persistent(Hashable):
     # Methods that should throw errors in children.
     def __setattr__(self, k, v):
         raise TypeError(f"{type(self)} is immutable")
+    def __delattr__(self, k):
+        raise TypeError(f"{type(self)} is immutable")
     def __setitem__(self, k, v):
         raise TypeError(f"{type(self)} is immutable")
     def __delitem__(self, k, v):
-- 
2.43.0


From 565766b7c7d79a7feda8af74e841b50d370212a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:16 +0000
Subject: [PATCH 23/45] fix: pdict.set of a key whose hash collides with
 another

---
 pcollections/_dict.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 347cac2..61606db 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -194,6 +194,7 @@ class pdict(PersistentMapping):
             new_idx = self._idx.assoc(h, self._top)
         else:
             # First make sure it's not already in the dict.
+            ii_prev = None
             while ii is not None:
                 (kv,ii_next) = self._els[ii]
                 (k,v) = kv
@@ -205,10 +206,14 @@ class pdict(PersistentMapping):
                     else:
                         new_els = self._els.assoc(ii, ((key,val), ii_next))
                         return self._new(new_els, self._idx, self._top)
+                ii_prev = ii
+                kv_prev = kv
+                ii = ii_next
             # If we reach this point, we can add the object to the end of the
             # list.
             new_els = self._els.assoc(self._top, ((key,val), None))
-            new_els = new_els.assoc(ii, (kv, self._top))
+            new_els = new_els.assoc(ii_prev, (kv_prev, self._top))
+            new_idx = self._idx
         return self._new(new_els, new_idx, self._top + 1)
     def drop(self, key):
         """Returns a copy of the pdict that does not include the given key.
-- 
2.43.0


From ea96bc4ddda2265653459f0cd122f9cfb6139107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:16 +0000
Subject: [PATCH 24/45] fix: tdict.clear forgets the original pdict and
 invalidates iterators

---
 pcollections/_dict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 61606db..a3cb9e5 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -528,7 +528,8 @@ class tdict(TransientMapping):
         object.__setattr__(self, '_els', THAMT(PHAMT.empty))
         object.__setattr__(self, '_idx', THAMT(PHAMT.empty))
         object.__setattr__(self, '_top', 0)
-        object.__setattr__(self, '_version', 0)
+        object.__setattr__(self, '_version', self._version + 1)
+        object.__setattr__(self, '_orig', None)
         return None
     def pop(self, key, *args):
         """Removes the given key from the tdict and returns the previously
-- 
2.43.0


From 8a7830ff386a64e9ac41adcf0a8ed9a44f33929e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:16 +0000
Subject: [PATCH 25/45] fix: iterators over a tdict allow replaced values and
 notice every changed key

---
 pcollections/_dict.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index a3cb9e5..0fb38b4 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -339,12 +339,16 @@ class tdict_keys(KeysView, tdict_view):
     __slots__ = ('_tdict', '_version')
     def _from_kv(self, arg):
         return arg[0]
+    def __iter__(self):
+        return iter(self._tdict)
     def __contains__(self, k):
         return (k in self._tdict)
 class tdict_items(ItemsView, tdict_view):
     __slots__ = ('_tdict', '_version')
     def _from_kv(self, arg):
         return arg
+    def __iter__(self):
+        return map(lambda k: (k, self._tdict[k]), iter(self._tdict))
     def __contains__(self, kv):
         if not isinstance(kv, tuple) or len(kv) != 2:
             return False
@@ -354,11 +358,20 @@ class tdict_values(ValuesView, tdict_view):
     __slots__ = ('_tdict', '_version')
     def _from_kv(self, arg):
         return arg[1]
+    def __iter__(self):
+        return map(self._tdict.__getitem__, iter(self._tdict))
     def __contains__(self, v):
         for (kv,_) in self._els:
             if kv[1] == v:
                 return True
         return False
+def _tdict_iter(tdict, version, it):
+    for arg in it:
+        if tdict._version != version:
+            break
+        yield arg[1][0][0]
+    if tdict._version != version:
+        raise RuntimeError(f"{type(tdict)} changed during iteration")
 class tdict(TransientMapping):
     """A transient dict type similar to `dict` for mutating persistent dicts.
 
@@ -485,13 +498,9 @@ class tdict(TransientMapping):
                 return kv[1]
         return default
     def __iter__(self):
-        v0 = self._version
-        def _iter_key(arg):
-            if v0 < self._version:
-                raise RuntimeError(f"{type(self)} changed during iteration")
-            else:
-                return arg[1][0][0]
-        return map(_iter_key, self._els)
+        # We iterate over a persistent copy of the elements because replacing a
+        # value (which is allowed during iteration) invalidates THAMT iterators.
+        return _tdict_iter(self, self._version, iter(self._els.persistent()))
     def __delitem__(self, key):
         # Get the hash and initial index (if there is one).
         h = hash(key)
-- 
2.43.0


From c2361db7abe2e79ed6cb30a7a422cee81688bdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:16 +0000
Subject: [PATCH 26/45] fix: membership in the values of a tdict or tldict

---
 pcollections/_dict.py | 2 +-
 pcollections/_lazy.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 0fb38b4..3ec343a 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -361,7 +361,7 @@ class tdict_values(ValuesView, tdict_view):
     def __iter__(self):
         return map(self._tdict.__getitem__, iter(self._tdict))
     def __contains__(self, v):
-        for (kv,_) in self._els:
+        for (_,(kv,_)) in self._tdict._els:
             if kv[1] == v:
                 return True
         return False
diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index cca51b2..74b6134 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -415,11 +415,11 @@ class tldict_values(tdict_values):
     def _from_kv(self, arg):
         return unlazy(arg[1])
     def __contains__(self, v):
-        for (kv,_) in self._els:
+        for (_,(kv,_)) in self._tdict._els:
             if not isinstance(kv[1], lazy):
                 if kv[1] == v:
                     return True
-        for (kv,_) in self._els:
+        for (_,(kv,_)) in self._tdict._els:
             if isinstance(kv[1], lazy):
                 if kv[1]() == v:
                     return True
-- 
2.43.0


From 0a218fd29d807f41c480bf0f79b0b92c5491af5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:16 +0000
Subject: [PATCH 27/45] fix: dropall no longer fails with an AttributeError

---
 pcollections/abc/_map.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pcollections/abc/_map.py b/pcollections/abc/_map.py
index c957b6f..95add5c 100644
--- a/pcollections/abc/_map.py
+++ b/pcollections/abc/_map.py
@@ -122,7 +122,8 @@ class PersistentMapping(Mapping, Persistent):
         """
         t = self.transient()
         for k in keys:
-            t.drop(k)
+            if k in t:
+                del t[k]
         return type(self)(t)
     def deleteall(self, keys):
         """Returns a copy of the persistent mapping that excludes all the keys
-- 
2.43.0


From 07f205c6f2f056a7a531ed22e81e339bacf601b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:16 +0000
Subject: [PATCH 28/45] fix: the hash of an ldict is that of its evaluated
 items

---
 pcollections/abc/_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_map.py b/pcollections/abc/_map.py
index 95add5c..d0204d1 100644
--- a/pcollections/abc/_map.py
+++ b/pcollections/abc/_map.py
@@ -85,7 +85,7 @@ class PersistentMapping(Mapping, Persistent):
     def __repr__(self):
         return f"{{|{seqstr(self)}|}}"
     def __hash__(self):
-        return hash(frozenset(map(lambda u: u[1][0], self._els))) + 2
+        return hash(frozenset(self.items())) + 2
     def __contains__(self, k):
         try:
             self[k]
-- 
2.43.0


From b1565a4012f842ec207f41a7120b6bba30ae9227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:16 +0000
Subject: [PATCH 29/45] fix: ldict.pop and tldict.pop return the evaluated
 value

---
 pcollections/_lazy.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 74b6134..8a34a2b 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -9,6 +9,7 @@ from threading import RLock
 
 from phamt import (PHAMT, THAMT)
 
+from .abc import TransientMapping
 from .util import seqstr
 from ._list import (
     plist,
@@ -342,6 +343,9 @@ class ldict(pdict):
         if isinstance(v, lazy):
             v = v()
         return v
+    def pop(self, key, *args):
+        (v,d) = pdict.pop(self, key, *args)
+        return (unlazy(v), d)
     def items(self):
         return ldict_items(self)
     def values(self):
@@ -500,8 +504,10 @@ class tldict(tdict):
         return unlazy(tdict.__getitem__(self, k))
     def get(self, k, default=None):
         return unlazy(tdict.get(self, k, default))
-    def pop(self, *args):
-        return unlazy(self.pop(*args))
+    def pop(self, key, *args):
+        # The lazy value must be evaluated before its key is removed, in case
+        # the evaluation fails.
+        return TransientMapping.pop(self, key, *args)
     def items(self):
         return tldict_items(self)
     def values(self):
-- 
2.43.0


From b85ebe7503a628bc5b5db66e912af65ec9854380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:16 +0000
Subject: [PATCH 30/45] fix: a tldict made from a pdict or tdict freezes to an
 ldict

---
 pcollections/_dict.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 3ec343a..1a5fb16 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -420,9 +420,10 @@ class tdict(TransientMapping):
             obj = cls._new(THAMT(arg._els.persistent()),
                            THAMT(arg._idx.persistent()),
                            arg._top,
-                           arg._orig)
+                           arg._orig if cls is tdict else None)
         elif type(arg) is pdict:
-            obj = cls._new(THAMT(arg._els), THAMT(arg._idx), arg._top, arg)
+            obj = cls._new(THAMT(arg._els), THAMT(arg._idx), arg._top,
+                           arg if cls is tdict else None)
         else:
             obj = cls._new(THAMT(PHAMT.empty), THAMT(PHAMT.empty), 0)
             if isinstance(arg, Mapping):
-- 
2.43.0


From 2b4f4e7bdbffbbd4f9f7334d20cc7d5486669fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:16 +0000
Subject: [PATCH 31/45] fix: tldict.as_tdict returns an independent copy

---
 pcollections/_lazy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 8a34a2b..24a5495 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -488,7 +488,9 @@ class tldict(tdict):
         mapped to their associated `lazy` objects. This is essentially a way to
         expose the raw values of a lazy dictionary.
         """
-        return tdict._new(self._els, self._idx, self._top)
+        return tdict._new(THAMT(self._els.persistent()),
+                          THAMT(self._idx.persistent()),
+                          self._top)
     def __holdlazy__(self):
         return self.as_tdict()
     def getlazy(self, k, default=None):
-- 
2.43.0


From fb95f0c400afca36df584b6c4ace8c8afb2c6145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:16 +0000
Subject: [PATCH 32/45] fix: str() of a tllist does not evaluate its lazy items

---
 pcollections/_lazy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 24a5495..17daaef 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -274,6 +274,10 @@ class tllist(tlist):
     __slots__ = ()
     def __iter__(self):
         return map(unlazy, tlist.__iter__(self))
+    def __str__(self):
+        # We have a max length of 60 characters, not counting the delimiters.
+        els = tlist.__iter__(self)
+        return f"[<{seqstr(els, maxlen=60, tostr=reprlazy)}>]"
     def persistent(self):
         """Efficiently copies the tllist into an llist and returns the llist."""
         if len(self._thamt) == 0:
-- 
2.43.0


From 21c458d92131a66af42cf4ddd01dbcb8ebb08bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:16 +0000
Subject: [PATCH 33/45] fix: an interrupt just after locking a lazy no longer
 leaves it locked

---
 pcollections/_lazy.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 17daaef..9e5b04d 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -92,23 +92,20 @@ class lazy:
             (part, rlock, init_error) = part
             # Acquire the rlock then re-check that the lazy hasn't already been
             # calculated (at which point self.partial will be None).
-            rlock.acquire()
-            try:
+            with rlock:
                 if self.partial is None:
-                    val = self.value
-                else:
+                    return self.value
+                try:
                     val = part()
                     # We've successfully calculated the value; set the members
                     # appropriately.
                     object.__setattr__(self, 'value', val)
                     object.__setattr__(self, 'partial', None)
-                return val
-            except Exception as partial_eror:
-                # If an exception occurs, we want to raise an error that traces
-                # back to the initialization of this object.
-                raise init_error
-            finally:
-                rlock.release()
+                    return val
+                except Exception as partial_eror:
+                    # If an exception occurs, we want to raise an error that traces
+                    # back to the initialization of this object.
+                    raise init_error
     def __repr__(self):
         s = 'ready' if self.is_ready() else 'waiting'
         return f"lazy(<{id(self)}>: {s})"
-- 
2.43.0


From 78699931ac25e19609d4b7a23ddf5823bb6b6523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:16 +0000
Subject: [PATCH 34/45] fix: each failed evaluation of a lazy raises its own
 LazyError

---
 pcollections/_lazy.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 9e5b04d..cb7e246 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -102,10 +102,14 @@ class lazy:
                     object.__setattr__(self, 'value', val)
                     object.__setattr__(self, 'partial', None)
                     return val
-                except Exception as partial_eror:
-                    # If an exception occurs, we want to raise an error that traces
-                    # back to the initialization of this object.
-                    raise init_error
+                except Exception as partial_error:
+                    # If an exception occurs, we want to raise an error that
+                    # traces back to the initialization of this object. It must
+                    # be a new error object because another thread may be
+                    # handling the error of an earlier attempt.
+                    error = LazyError(init_error.partial)
+                    error = error.with_traceback(init_error.__traceback__)
+                    raise error from partial_error
     def __repr__(self):
         s = 'ready' if self.is_ready() else 'waiting'
         return f"lazy(<{id(self)}>: {s})"
-- 
2.43.0


From 50f48264c2c44aeb6653f405c4732b23bacd193a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:41 +0000
Subject: [PATCH 35/45] fix: clearing an empty tset or tdict is no change for
 its iterators

---
 pcollections/_dict.py | 2 ++
 pcollections/_set.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 1a5fb16..b33edaf 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -535,6 +535,8 @@ class tdict(TransientMapping):
         raise KeyError(key)
     def clear(self):
         """Returns the empty pdict."""
+        if len(self) == 0:
+            return None
         object.__setattr__(self, '_els', THAMT(PHAMT.empty))
         object.__setattr__(self, '_idx', THAMT(PHAMT.empty))
         object.__setattr__(self, '_top', 0)
diff --git a/pcollections/_set.py b/pcollections/_set.py
index 480f1f2..9a463fa 100644
--- a/pcollections/_set.py
+++ b/pcollections/_set.py
@@ -274,6 +274,8 @@ class tset(TransientSet):
         return None
     def clear(self):
         """Clears the tset."""
+        if len(self) == 0:
+            return None
         object.__setattr__(self, '_els', THAMT(PHAMT.empty))
         object.__setattr__(self, '_idx', THAMT(PHAMT.empty))
         object.__setattr__(self, '_top', 0)
-- 
2.43.0


From cc927797561112abe8945abde0fd5ae818dc051a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:10 +0000
Subject: [PATCH 36/45] fix: tdict.setdefault must not swallow a KeyError
 raised by a key

---
 pcollections/abc/_map.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pcollections/abc/_map.py b/pcollections/abc/_map.py
index d0204d1..575a99d 100644
--- a/pcollections/abc/_map.py
+++ b/pcollections/abc/_map.py
@@ -262,10 +262,9 @@ class TransientMapping(MutableMapping, Transient):
 
         Return the value for the key if key is in the dictionary, else default.
         """
-        try:
+        # A KeyError raised while comparing keys must not look like absence.
+        if key in self:
             return self[key]
-        except KeyError:
-            pass
         self[key] = default
         return default
     def popitem(self):
-- 
2.43.0


From a6b1ad33e2005311f02d0038bef93a89820a3cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:10 +0000
Subject: [PATCH 37/45] fix: tldict.pop must not swallow a KeyError raised by a
 key

---
 pcollections/abc/_map.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pcollections/abc/_map.py b/pcollections/abc/_map.py
index 575a99d..230b4b7 100644
--- a/pcollections/abc/_map.py
+++ b/pcollections/abc/_map.py
@@ -286,16 +286,15 @@ class TransientMapping(MutableMapping, Transient):
         nargs = len(args)
         if nargs > 1:
             raise TypeError(f"pop expected at most 2 arguments, got {nargs}")
-        try:
+        # A KeyError raised while comparing keys must not look like absence.
+        if key in self:
             val = self[key]
             del self[key]
             return val
-        except KeyError:
-            # It's not here!
-            if nargs == 0:
-                raise
-            else:
-                return args[0]
+        elif nargs == 0:
+            raise KeyError(key)
+        else:
+            return args[0]
     def update(self, *args, **kw):
         """Updates the transient mapping with items from the arguments and
         options.
-- 
2.43.0


From e24a697c08fd0c35e5829dccffe7bbf806e4ecb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:54 +0000
Subject: [PATCH 38/45] fix: list indices are converted like those of builtin
 lists

---
 pcollections/_list.py    | 14 ++++++++++++--
 pcollections/abc/_seq.py | 14 ++++++++------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/pcollections/_list.py b/pcollections/_list.py
index 130499b..c9f53f5 100644
--- a/pcollections/_list.py
+++ b/pcollections/_list.py
@@ -4,6 +4,8 @@
 # The persistent list type for Python.
 # By Noah C. Benson
 
+from operator import index as _index
+
 from phamt import (PHAMT,THAMT)
 
 from .abc import (PersistentSequence, TransientSequence)
@@ -66,6 +68,7 @@ class plist(PersistentSequence):
         start = self._start
         phamt = self._phamt
         n = len(phamt)
+        index = _index(index)
         if index < -n or index >= n:
             raise IndexError("plist index out of range")
         if index < 0:
@@ -81,6 +84,7 @@ class plist(PersistentSequence):
         phamt = self._phamt
         n = len(phamt)
         st = self._start
+        index = _index(index)
         if n == 0:
             raise IndexError("delete from empty plist")
         if index >= n or index < -n:
@@ -126,6 +130,7 @@ class plist(PersistentSequence):
         start = self._start
         phamt = self._phamt
         n = len(phamt)
+        index = _index(index)
         if   index == 0: return self.prepend(obj)
         elif index == n: return self.append(obj)
         elif index < -n: index = -n
@@ -172,7 +177,8 @@ class plist(PersistentSequence):
             for (ii,jj) in enumerate(range(start, stop, step)):
                 thamt[ii] = phamt[jj]
             return self._new(thamt.persistent(), 0)
-        elif k >= n or k < -n:
+        k = _index(k)
+        if k >= n or k < -n:
             raise IndexError("plist index out of range")
         elif k < 0:
             k += n
@@ -271,13 +277,15 @@ class tlist(TransientSequence):
             for (ii,jj) in enumerate(range(start, stop, step)):
                 new_thamt[ii] = thamt[jj]
             return self._new(new_thamt, 0)
-        elif k >= n or k < -n:
+        k = _index(k)
+        if k >= n or k < -n:
             raise IndexError("tlist index out of range")
         elif k < 0:
             k += n
         return thamt[k + st]
     def __setitem__(self, k, v):
         n = len(self._thamt)
+        k = _index(k)
         if k >= n or k < -n:
             raise IndexError(k)
         elif k < 0:
@@ -291,6 +299,7 @@ class tlist(TransientSequence):
         st = self._start
         th = self._thamt
         n = len(th)
+        index = _index(index)
         if index >= n or index < -n:
             raise IndexError(f"{type(self)} assignment index out of range")
         elif index < 0:
@@ -323,6 +332,7 @@ class tlist(TransientSequence):
         st = self._start
         th = self._thamt
         n = len(th)
+        index = _index(index)
         if   index < -n: index = -n
         elif index > n:  index = n
         if   index < 0:  index += n
diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 589245c..d658916 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -5,6 +5,7 @@
 # types.
 # By Noah C. Benson
 
+from operator        import (index as _index)
 from numbers         import (Integral)
 from collections.abc import (Sequence, MutableSequence)
 
@@ -94,6 +95,7 @@ class PersistentSequence(Persistent, Sequence):
         then the sequence is returned as-is. Non-integer indices will still
         result in raised exceptions."""
         n = len(self)
+        index = _index(index)
         if index < -n or index >= n:
             return self
         else:
@@ -188,9 +190,9 @@ class PersistentSequence(Persistent, Sequence):
         Raises ValueError if value is not present.
         """
         n = len(self)
-        if stop is None:
-            stop = n
-        elif stop < 0:
+        start = _index(start)
+        stop = n if stop is None else _index(stop)
+        if stop < 0:
             stop += n
         if start < 0:
             start = max(0, start + n)
@@ -429,9 +431,9 @@ class TransientSequence(Transient, MutableSequence):
         Raises ValueError if value is not present.
         """
         n = len(self)
-        if stop is None:
-            stop = n
-        elif stop < 0:
+        start = _index(start)
+        stop = n if stop is None else _index(stop)
+        if stop < 0:
             stop += n
         if start < 0:
             start = max(0, start + n)
-- 
2.43.0


From 2d3c42198d73cba58f9c0be2cc5b4ded8b0e016d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:31 +0000
Subject: [PATCH 39/45] fix: multiplying an empty list does not count to the
 multiplier

---
 pcollections/abc/_seq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index d658916..aa385d1 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -247,7 +247,7 @@ class PersistentSequence(Persistent, Sequence):
         reps = int(value)
         if reps < 0:
             reps = 0
-        if reps == 0:
+        if reps == 0 or len(self) == 0:
             return self.clear()
         elif reps == 1:
             return self
@@ -491,7 +491,7 @@ class TransientSequence(Transient, MutableSequence):
             reps = 0
         if reps == 0:
             self.clear()
-        elif reps > 1:
+        elif reps > 1 and len(self) > 0:
             els = list(self)
             for r in range(reps - 1):
                 self.extend(els)
-- 
2.43.0


From eef72a276077a7826c99790fc5b6c8e37bc5e118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:57 +0000
Subject: [PATCH 40/45] fix: tldict(ldict), tldict(tldict) and ldict(ldict,
 **kw) carry lazy values over unevaluated

---
 pcollections/_lazy.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index cb7e246..1747034 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -333,6 +333,11 @@ class ldict(pdict):
     """
     empty = None
     __slots__ = ()
+    def __new__(cls, *args, **kw):
+        # The lazy values of lazy dicts are carried over unevaluated.
+        if kw and len(args) == 1 and isinstance(args[0], (ldict, tldict)):
+            args = (args[0].__holdlazy__(),)
+        return pdict.__new__(cls, *args, **kw)
     def __getitem__(self, key):
         v = pdict.__getitem__(self, key)
         if isinstance(v, lazy):
@@ -441,6 +446,11 @@ class tldict(tdict):
     keys instead of the `lazy` objects themselves.
     """
     __slots__ = ()
+    def __new__(cls, *args, **kw):
+        # The lazy values of lazy dicts are carried over unevaluated.
+        if len(args) == 1 and isinstance(args[0], (ldict, tldict)):
+            args = (args[0].__holdlazy__(),)
+        return tdict.__new__(cls, *args, **kw)
     def __str__(self):
         # We have a max length of 60 characters, not counting the delimiters.
         return f"{{|{seqstr(self.as_tdict(), maxlen=60, tostr=reprlazy)}|}}"
-- 
2.43.0


From cfef6494e1e4193fe4f2e90cc23b52ca2dbb7980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:51 +0000
Subject: [PATCH 41/45] fix: repr of a tllist does not evaluate its lazy values

---
 pcollections/_lazy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 1747034..f2ab5f5 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -279,6 +279,8 @@ class tllist(tlist):
         # We have a max length of 60 characters, not counting the delimiters.
         els = tlist.__iter__(self)
         return f"[<{seqstr(els, maxlen=60, tostr=reprlazy)}>]"
+    def __repr__(self):
+        return f"[<{seqstr(tlist.__iter__(self))}>]"
     def persistent(self):
         """Efficiently copies the tllist into an llist and returns the llist."""
         if len(self._thamt) == 0:
-- 
2.43.0


From aeea3be112d5b8356407c2cd86902cb1530950ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 42/45] fix: find an element by identity as well as by
 equality, as the builtin containers do

---
 pcollections/_dict.py    | 33 +++++++++++++++++----------------
 pcollections/_lazy.py    |  5 +++--
 pcollections/_set.py     | 12 ++++++------
 pcollections/abc/_seq.py | 20 ++++++++++----------
 4 files changed, 36 insertions(+), 34 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index b33edaf..446da36 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -75,7 +75,7 @@ class pdict_items(ItemsView, PDictView):
         d = Ellipsis if v0 is None else None
         v = self._mapping.get(k0, d)
         (k,v) = self._from_kv((k0,v))
-        return v0 == v
+        return v0 is v or v0 == v
 class pdict_values(ValuesView, PDictView):
     __slots__ = ()
     def _from_kv(self, kv):
@@ -83,7 +83,7 @@ class pdict_values(ValuesView, PDictView):
     def __contains__(self, v):
         for ent in self._mapping._els:
             v0 = self._from_kv(ent[1][0])
-            if v0 == v:
+            if v0 is v or v0 == v:
                 return True
         return False
 class pdict(PersistentMapping):
@@ -155,7 +155,7 @@ class pdict(PersistentMapping):
         ii = self._idx.get(h, None)
         while ii is not None:
             ((kk,vv),ii) = self._els[ii]
-            if k == kk:
+            if k is kk or k == kk:
                 return True
         return False
     def __iter__(self):
@@ -167,7 +167,7 @@ class pdict(PersistentMapping):
         ii = self._idx.get(h, None)
         while ii is not None:
             (kv,ii) = self._els[ii]
-            if key == kv[0]:
+            if key is kv[0] or key == kv[0]:
                 return kv[1]
         raise KeyError(key)
     def get(self, key, default=None):
@@ -175,7 +175,7 @@ class pdict(PersistentMapping):
         ii = self._idx.get(h, None)
         while ii is not None:
             (kv,ii) = self._els[ii]
-            if key == kv[0]:
+            if key is kv[0] or key == kv[0]:
                 return kv[1]
         return default
     def transient(self):
@@ -198,7 +198,7 @@ class pdict(PersistentMapping):
             while ii is not None:
                 (kv,ii_next) = self._els[ii]
                 (k,v) = kv
-                if key == k:
+                if key is k or key == k:
                     # It is in the dict; either it's exactly in the dict or we
                     # replace it.
                     if val is v:
@@ -229,7 +229,7 @@ class pdict(PersistentMapping):
         while ii is not None:
             (kv,ii_next) = self._els[ii]
             (k,v) = kv
-            if key == k:
+            if key is k or key == k:
                 # We remove this entry!
                 if ii_prev is None:
                     # We're removing from the front of the list.
@@ -272,7 +272,7 @@ class pdict(PersistentMapping):
         while ii is not None:
             (kv,ii_next) = self._els[ii]
             (k,v) = kv
-            if key == k:
+            if key is k or key == k:
                 # We remove this entry!
                 if ii_prev is None:
                     # We're removing from the front of the list.
@@ -353,7 +353,8 @@ class tdict_items(ItemsView, tdict_view):
         if not isinstance(kv, tuple) or len(kv) != 2:
             return False
         d = Ellipsis if kv[1] is None else None
-        return self._tdict.get(kv[0], d) == kv[1]
+        v = self._tdict.get(kv[0], d)
+        return v is kv[1] or v == kv[1]
 class tdict_values(ValuesView, tdict_view):
     __slots__ = ('_tdict', '_version')
     def _from_kv(self, arg):
@@ -362,7 +363,7 @@ class tdict_values(ValuesView, tdict_view):
         return map(self._tdict.__getitem__, iter(self._tdict))
     def __contains__(self, v):
         for (_,(kv,_)) in self._tdict._els:
-            if kv[1] == v:
+            if kv[1] is v or kv[1] == v:
                 return True
         return False
 def _tdict_iter(tdict, version, it):
@@ -445,7 +446,7 @@ class tdict(TransientMapping):
         ii_prev = None
         while ii is not None:
             (kv, ii_next) = self._els[ii]
-            if kv[0] == k:
+            if kv[0] is k or kv[0] == k:
                 if kv[1] is not v:
                     self._els[ii] = ((k,v), ii_next)
                     # The object has changed, so make sure we aren't tracking
@@ -477,7 +478,7 @@ class tdict(TransientMapping):
         ii = self._idx.get(h, None)
         while ii is not None:
             ((kk,vv),ii) = self._els[ii]
-            if k == kk:
+            if k is kk or k == kk:
                 return True
         return False
     def __reversed__(self):
@@ -487,7 +488,7 @@ class tdict(TransientMapping):
         ii = self._idx.get(h, None)
         while ii is not None:
             (kv,ii) = self._els[ii]
-            if key == kv[0]:
+            if key is kv[0] or key == kv[0]:
                 return kv[1]
         raise KeyError(key)
     def get(self, key, default=None):
@@ -495,7 +496,7 @@ class tdict(TransientMapping):
         ii = self._idx.get(h, None)
         while ii is not None:
             (kv,ii) = self._els[ii]
-            if key == kv[0]:
+            if key is kv[0] or key == kv[0]:
                 return kv[1]
         return default
     def __iter__(self):
@@ -512,7 +513,7 @@ class tdict(TransientMapping):
         while ii is not None:
             (kv,ii_next) = self._els[ii]
             (k,v) = kv
-            if key == k:
+            if key is k or key == k:
                 # We remove this entry!
                 if ii_prev is None:
                     # We're removing from the front of the list.
@@ -560,7 +561,7 @@ class tdict(TransientMapping):
         while ii is not None:
             (kv,ii_next) = self._els[ii]
             (k,v) = kv
-            if key == k:
+            if key is k or key == k:
                 # We remove this entry!
                 if ii_prev is None:
                     # We're removing from the front of the list.
diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index f2ab5f5..2234cd3 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -433,11 +433,12 @@ class tldict_values(tdict_values):
     def __contains__(self, v):
         for (_,(kv,_)) in self._tdict._els:
             if not isinstance(kv[1], lazy):
-                if kv[1] == v:
+                if kv[1] is v or kv[1] == v:
                     return True
         for (_,(kv,_)) in self._tdict._els:
             if isinstance(kv[1], lazy):
-                if kv[1]() == v:
+                val = kv[1]()
+                if val is v or val == v:
                     return True
         return False
 class tldict(tdict):
diff --git a/pcollections/_set.py b/pcollections/_set.py
index 9a463fa..cb2e9ce 100644
--- a/pcollections/_set.py
+++ b/pcollections/_set.py
@@ -65,7 +65,7 @@ class pset(PersistentSet):
         ii = self._idx.get(h, None)
         while ii is not None:
             (x,ii) = self._els[ii]
-            if el == x:
+            if el is x or el == x:
                 return True
         return False
     def __iter__(self):
@@ -93,7 +93,7 @@ class pset(PersistentSet):
             ii_prev = None
             while ii is not None:
                 (x,ii_next) = self._els[ii]
-                if obj == x:
+                if obj is x or obj == x:
                     return self
                 ii_prev = ii
                 x_prev = x
@@ -117,7 +117,7 @@ class pset(PersistentSet):
         x_prev = None
         while ii is not None:
             (x,ii_next) = self._els[ii]
-            if obj == x:
+            if obj is x or obj == x:
                 # We remove this object!
                 if ii_prev is None:
                     # We're removing from the front of the list.
@@ -207,7 +207,7 @@ class tset(TransientSet):
         ii = self._idx.get(h, None)
         while ii is not None:
             (x,ii) = self._els[ii]
-            if el == x:
+            if el is x or el == x:
                 return True
         return False
     def __iter__(self):
@@ -228,7 +228,7 @@ class tset(TransientSet):
             ii_prev = None
             while ii is not None:
                 (x,ii_next) = self._els[ii]
-                if obj == x:
+                if obj is x or obj == x:
                     return None
                 ii_prev = ii
                 x_prev = x
@@ -252,7 +252,7 @@ class tset(TransientSet):
         x_prev = None
         while ii is not None:
             (x,ii_next) = self._els[ii]
-            if obj == x:
+            if obj is x or obj == x:
                 # We remove this object!
                 if ii_prev is None:
                     # We're removing from the front of the list.
diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index aa385d1..d110a97 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -166,7 +166,7 @@ class PersistentSequence(Persistent, Sequence):
         return hash(tuple(self)) + 1
     def __contains__(self, value):
         for el in self:
-            if el == value:
+            if el is value or el == value:
                 return True
         return False
     def __reversed__(self):
@@ -176,7 +176,7 @@ class PersistentSequence(Persistent, Sequence):
         """Returns the number of occurences of value."""
         n = 0
         for obj in self:
-            if obj == value: n += 1
+            if obj is value or obj == value: n += 1
         return n
     def extend(self, iterable):
         """Return a new persistent sequence with the iterables appended."""
@@ -200,7 +200,7 @@ class PersistentSequence(Persistent, Sequence):
             for (ii,val) in enumerate(self):
                 if ii >= stop:
                     break
-                elif val == value:
+                elif val is value or val == value:
                     return ii
         else:
             for (ii,val) in enumerate(self):
@@ -208,7 +208,7 @@ class PersistentSequence(Persistent, Sequence):
                     break
                 elif ii < start:
                     pass
-                elif val == value:
+                elif val is value or val == value:
                     return ii
         raise ValueError(f"{value} is not in {type(self)}")
     # We include a hash function; though this should be overwritten to cache the
@@ -347,7 +347,7 @@ class TransientSequence(Transient, MutableSequence):
         """Returns the number of occurences of value."""
         n = 0
         for obj in self:
-            if obj == value: n += 1
+            if obj is value or obj == value: n += 1
         return n
     def extend(self, iterable):
         """Extends tlist by appending elements from the iterable."""
@@ -359,7 +359,7 @@ class TransientSequence(Transient, MutableSequence):
         Raises ValueError if value is not present.
         """
         for (ii,el) in enumerate(self):
-            if value == el:
+            if value is el or value == el:
                 return ii
         raise ValueError(f'{value} is not in {type(self)}')
     def reverse(self):
@@ -407,7 +407,7 @@ class TransientSequence(Transient, MutableSequence):
         return seqcmp(self, other) >= 0
     def __contains__(self, value):
         for el in self:
-            if el == value:
+            if el is value or el == value:
                 return True
         return False
     def __reversed__(self):
@@ -417,7 +417,7 @@ class TransientSequence(Transient, MutableSequence):
         """Returns the number of occurences of value."""
         n = 0
         for obj in self:
-            if obj == value: n += 1
+            if obj is value or obj == value: n += 1
         return n
     def extend(self, iterable):
         """Return a new persistent sequence with the iterables appended."""
@@ -441,7 +441,7 @@ class TransientSequence(Transient, MutableSequence):
             for (ii,val) in enumerate(self):
                 if ii >= stop:
                     break
-                elif val == value:
+                elif val is value or val == value:
                     return ii
         else:
             for (ii,val) in enumerate(self):
@@ -449,7 +449,7 @@ class TransientSequence(Transient, MutableSequence):
                     break
                 elif ii < start:
                     pass
-                elif val == value:
+                elif val is value or val == value:
                     return ii
         raise ValueError(f"{value} is not in {type(self)}")
     def __iadd__(self, obj):
-- 
2.43.0


From 5ded1d27436955966b3152d0b07b02fd7a4e5a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 43/45] fix: lists whose first differing items have no order
 are neither before nor after each other

---
 pcollections/abc/_seq.py   | 16 ++++++++--------
 pcollections/util/_core.py |  5 ++++-
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index d110a97..5f1ff8c 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -146,22 +146,22 @@ class PersistentSequence(Persistent, Sequence):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'<' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) < 0
+        return seqcmp(self, other) == -1
     def __le__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'<=' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) <= 0
+        return seqcmp(self, other) in (-1, 0)
     def __gt__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'>' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) > 0
+        return seqcmp(self, other) == 1
     def __ge__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'>=' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) >= 0
+        return seqcmp(self, other) in (0, 1)
     def __hash__(self):
         return hash(tuple(self)) + 1
     def __contains__(self, value):
@@ -389,22 +389,22 @@ class TransientSequence(Transient, MutableSequence):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'<' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) < 0
+        return seqcmp(self, other) == -1
     def __le__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'<=' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) <= 0
+        return seqcmp(self, other) in (-1, 0)
     def __gt__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'>' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) > 0
+        return seqcmp(self, other) == 1
     def __ge__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'>=' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) >= 0
+        return seqcmp(self, other) in (0, 1)
     def __contains__(self, value):
         for el in self:
             if el is value or el == value:
diff --git a/pcollections/util/_core.py b/pcollections/util/_core.py
index a773ff3..0c78a8b 100644
--- a/pcollections/util/_core.py
+++ b/pcollections/util/_core.py
@@ -52,7 +52,8 @@ def seqcmp(seq1, seq2):
     """Compares one sequence to another.
 
     `seqcmp(a, b)` returns -1 if `a` sorts before `b`, 0 if `a` is equal to
-    `b`, and 1 if `a` sorts after `b`.
+    `b`, and 1 if `a` sorts after `b`. If neither of the first elements that
+    differ sorts before the other, then `None` is returned.
     """
     if not isinstance(seq1, Sequence):
         msg = f"unsupported operand type for compare: {type(seq1)}"
@@ -67,6 +68,8 @@ def seqcmp(seq1, seq2):
             return -1
         elif b < a:
             return 1
+        else:
+            return None
     n1 = len(seq1)
     n2 = len(seq2)
     if n1 < n2:
-- 
2.43.0


From ab0a5b3cd73050eb9b3a8d8cb4ed7be8040024ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:06 +0000
Subject: [PATCH 44/45] fix: keyword arguments may have any name, self, cls and
 fn included, as for dict and partial

---
 pcollections/_dict.py    |  8 ++++++--
 pcollections/_lazy.py    | 18 +++++++++++++++---
 pcollections/abc/_map.py |  8 ++++++--
 3 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 446da36..2dd9d30 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -107,7 +107,9 @@ class pdict(PersistentMapping):
         object.__setattr__(new_pdict, '_hashcode', None)
         return new_pdict
     __slots__ = ("_els", "_idx", "_top", "_hashcode")
-    def __new__(cls, *args, **kw):
+    def __new__(*args, **kw):
+        # Any name may be a keyword, so the class is not a named parameter.
+        (cls, *args) = args
         n = len(args)
         if n == 1:
             arg = args[0]
@@ -404,7 +406,9 @@ class tdict(TransientMapping):
         """Returns an empty tdict."""
         return cls._new(THAMT(PHAMT.empty), THAMT(PHAMT.empty), 0)
     __slots__ = ("_els", "_idx", "_top","_version")
-    def __new__(cls, *args, **kw):
+    def __new__(*args, **kw):
+        # Any name may be a keyword, so the class is not a named parameter.
+        (cls, *args) = args
         n = len(args)
         if n == 1:
             arg = args[0]
diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 2234cd3..d19d96b 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -64,7 +64,15 @@ class lazy:
     forgotten.
     """
     __slots__ = ('partial', 'value')
-    def __new__(cls, fn, *args, **kw):
+    def __new__(*args, **kw):
+        # Any name may be a keyword of fn, so there are no named parameters.
+        (cls, args) = (args[0], args[1:])
+        if args:
+            (fn, args) = (args[0], args[1:])
+        elif 'fn' in kw:
+            fn = kw.pop('fn')
+        else:
+            raise TypeError("lazy expects a function as its first argument")
         # Make sure the function is callable.
         if not callable(fn):
             raise TypeError(f"lazy({fn}) must be given a callable function")
@@ -335,7 +343,9 @@ class ldict(pdict):
     """
     empty = None
     __slots__ = ()
-    def __new__(cls, *args, **kw):
+    def __new__(*args, **kw):
+        # Any name may be a keyword, so the class is not a named parameter.
+        (cls, *args) = args
         # The lazy values of lazy dicts are carried over unevaluated.
         if kw and len(args) == 1 and isinstance(args[0], (ldict, tldict)):
             args = (args[0].__holdlazy__(),)
@@ -449,7 +459,9 @@ class tldict(tdict):
     keys instead of the `lazy` objects themselves.
     """
     __slots__ = ()
-    def __new__(cls, *args, **kw):
+    def __new__(*args, **kw):
+        # Any name may be a keyword, so the class is not a named parameter.
+        (cls, *args) = args
         # The lazy values of lazy dicts are carried over unevaluated.
         if len(args) == 1 and isinstance(args[0], (ldict, tldict)):
             args = (args[0].__holdlazy__(),)
diff --git a/pcollections/abc/_map.py b/pcollections/abc/_map.py
index 230b4b7..043dc4b 100644
--- a/pcollections/abc/_map.py
+++ b/pcollections/abc/_map.py
@@ -170,13 +170,15 @@ class PersistentMapping(Mapping, Persistent):
                 raise
             else:
                 return (args[0], self)
-    def update(self, *args, **kw):
+    def update(*args, **kw):
         """Returns a copy of the persistent mapping with the key-value pairs in
         the iterable/mapping `arg` and the keyword arguments included.
 
         Multiple arguments may be provided, but they must each be a mapping or
         an iterable of items.
         """
+        # Any name may be a keyword, so self is not a named parameter.
+        (self, *args) = args
         t = self.transient()
         for arg in args:
             for (k,v) in (arg.items() if isinstance(arg, Mapping) else arg):
@@ -295,13 +297,15 @@ class TransientMapping(MutableMapping, Transient):
             raise KeyError(key)
         else:
             return args[0]
-    def update(self, *args, **kw):
+    def update(*args, **kw):
         """Updates the transient mapping with items from the arguments and
         options.
 
         Multiple arguments may be provided, but they must each be either a
         mapping or an iterable of items.
         """
+        # Any name may be a keyword, so self is not a named parameter.
+        (self, *args) = args
         for arg in args:
             for (k,v) in (arg.items() if isinstance(arg, Mapping) else arg):
                 self[k] = v
-- 
2.43.0


From 8e3bc5cb1e2468e7399347776899fd42a5bd19c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:51 +0000
Subject: [PATCH 45/45] fix: survive comparisons that edit the tset or tdict
 being searched

Adding, discarding or looking up an element calls the equality of elements with
equal hashes. When that edited the very set or dict, the search went on with
entries that were gone: KeyErrors for keys nobody asked for, removed elements
that came back, values that had been replaced. Like the builtin set and dict,
start the search over.
---
 pcollections/_dict.py | 55 ++++++++++++++++++++++++++++++++++++-------
 pcollections/_set.py  | 34 ++++++++++++++++++++++----
 2 files changed, 76 insertions(+), 13 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 2dd9d30..32b196c 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -450,7 +450,10 @@ class tdict(TransientMapping):
         ii_prev = None
         while ii is not None:
             (kv, ii_next) = self._els[ii]
-            if kv[0] is k or kv[0] == k:
+            same = kv[0] is k or self._same(k, ii, ii_prev)
+            if same is None:
+                return tdict.__setitem__(self, k, v)
+            elif same:
                 if kv[1] is not v:
                     self._els[ii] = ((k,v), ii_next)
                     # The object has changed, so make sure we aren't tracking
@@ -477,13 +480,33 @@ class tdict(TransientMapping):
         object.__setattr__(self, '_orig', None)
     def __len__(self):
         return len(self._els)
+    def _same(self, k, ii, ii_prev=None):
+        """Returns `True` if `k` equals the key of entry `ii`, else `False`.
+
+        Comparing them may run code that edits this very tdict. If that changed
+        the entry or the one before it in its chain, then `None` is returned,
+        and the search that made the comparison must start over.
+        """
+        els = self._els
+        ent = els[ii]
+        prev = None if ii_prev is None else els[ii_prev]
+        same = bool(k == ent[0][0])
+        if self._els is els and els.get(ii, None) is ent \
+           and (prev is None or els.get(ii_prev, None) is prev):
+            return same
+        else:
+            return None
     def __contains__(self, k):
         h = hash(k)
         ii = self._idx.get(h, None)
         while ii is not None:
-            ((kk,vv),ii) = self._els[ii]
-            if k is kk or k == kk:
+            ((kk,vv),ii_next) = self._els[ii]
+            same = k is kk or self._same(k, ii)
+            if same is None:
+                return tdict.__contains__(self, k)
+            elif same:
                 return True
+            ii = ii_next
         return False
     def __reversed__(self):
         return reversed(self.keys())
@@ -491,17 +514,25 @@ class tdict(TransientMapping):
         h = hash(key)
         ii = self._idx.get(h, None)
         while ii is not None:
-            (kv,ii) = self._els[ii]
-            if key is kv[0] or key == kv[0]:
+            (kv,ii_next) = self._els[ii]
+            same = key is kv[0] or self._same(key, ii)
+            if same is None:
+                return tdict.__getitem__(self, key)
+            elif same:
                 return kv[1]
+            ii = ii_next
         raise KeyError(key)
     def get(self, key, default=None):
         h = hash(key)
         ii = self._idx.get(h, None)
         while ii is not None:
-            (kv,ii) = self._els[ii]
-            if key is kv[0] or key == kv[0]:
+            (kv,ii_next) = self._els[ii]
+            same = key is kv[0] or self._same(key, ii)
+            if same is None:
+                return tdict.get(self, key, default)
+            elif same:
                 return kv[1]
+            ii = ii_next
         return default
     def __iter__(self):
         # We iterate over a persistent copy of the elements because replacing a
@@ -517,7 +548,10 @@ class tdict(TransientMapping):
         while ii is not None:
             (kv,ii_next) = self._els[ii]
             (k,v) = kv
-            if key is k or key == k:
+            same = key is k or self._same(key, ii, ii_prev)
+            if same is None:
+                return tdict.__delitem__(self, key)
+            elif same:
                 # We remove this entry!
                 if ii_prev is None:
                     # We're removing from the front of the list.
@@ -565,7 +599,10 @@ class tdict(TransientMapping):
         while ii is not None:
             (kv,ii_next) = self._els[ii]
             (k,v) = kv
-            if key is k or key == k:
+            same = key is k or self._same(key, ii, ii_prev)
+            if same is None:
+                return tdict.pop(self, key, *args)
+            elif same:
                 # We remove this entry!
                 if ii_prev is None:
                     # We're removing from the front of the list.
diff --git a/pcollections/_set.py b/pcollections/_set.py
index cb2e9ce..5cd6503 100644
--- a/pcollections/_set.py
+++ b/pcollections/_set.py
@@ -202,13 +202,33 @@ class tset(TransientSet):
         return t
     def __len__(self):
         return len(self._els)
+    def _same(self, el, ii, ii_prev=None):
+        """Returns `True` if `el` equals the element of entry `ii`, else `False`.
+
+        Comparing them may run code that edits this very tset. If that changed
+        the entry or the one before it in its chain, then `None` is returned,
+        and the search that made the comparison must start over.
+        """
+        els = self._els
+        ent = els[ii]
+        prev = None if ii_prev is None else els[ii_prev]
+        same = bool(el == ent[0])
+        if self._els is els and els.get(ii, None) is ent \
+           and (prev is None or els.get(ii_prev, None) is prev):
+            return same
+        else:
+            return None
     def __contains__(self, el):
         h = hash(el)
         ii = self._idx.get(h, None)
         while ii is not None:
-            (x,ii) = self._els[ii]
-            if el is x or el == x:
+            (x,ii_next) = self._els[ii]
+            same = el is x or self._same(el, ii)
+            if same is None:
+                return tset.__contains__(self, el)
+            elif same:
                 return True
+            ii = ii_next
         return False
     def __iter__(self):
         return _tset_iter(self, self._els, iter(self._els))
@@ -228,7 +248,10 @@ class tset(TransientSet):
             ii_prev = None
             while ii is not None:
                 (x,ii_next) = self._els[ii]
-                if obj is x or obj == x:
+                same = obj is x or self._same(obj, ii, ii_prev)
+                if same is None:
+                    return tset.add(self, obj)
+                elif same:
                     return None
                 ii_prev = ii
                 x_prev = x
@@ -252,7 +275,10 @@ class tset(TransientSet):
         x_prev = None
         while ii is not None:
             (x,ii_next) = self._els[ii]
-            if obj is x or obj == x:
+            same = obj is x or self._same(obj, ii, ii_prev)
+            if same is None:
+                return tset.discard(self, obj)
+            elif same:
                 # We remove this object!
                 if ii_prev is None:
                     # We're removing from the front of the list.
-- 
2.43.0

