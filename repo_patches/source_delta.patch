From 5df0d8a933b2cd95d0fbd6dbf359346b4c78dad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:38 +0000
Subject: [PATCH 01/30] fix: the range validators accepted NaN

---
 openquake/commonlib/valid.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/openquake/commonlib/valid.py b/openquake/commonlib/valid.py
index 2a6a7e2..f045f00 100644
--- a/openquake/commonlib/valid.py
+++ b/openquake/commonlib/valid.py
@@ -70,13 +70,21 @@ class Regex(object):
 name = Regex(r'^[a-zA-Z_]\w*$')
 
 
+def _notnan(text):
+    """String -> float different from NaN"""
+    f = float(text)
+    if f != f:
+        raise ValueError('%r is not a number' % text)
+    return f
+
+
 class FloatRange(object):
     def __init__(self, minrange, maxrange):
         self.minrange = minrange
         self.maxrange = maxrange
 
     def __call__(self, value):
-        f = float(value)
+        f = _notnan(value)
         if f > self.maxrange:
             raise ValueError('%r is bigger than the max, %r' %
                              (f, self.maxrange))
@@ -103,7 +111,7 @@ def namelist(text):
 
 def longitude(text):
     """String -> longitude float"""
-    lon = float(text)
+    lon = _notnan(text)
     if lon > 180.:
         raise ValueError('longitude %s > 180' % lon)
     elif lon < -180.:
@@ -113,7 +121,7 @@ def longitude(text):
 
 def latitude(text):
     """String -> latitude float"""
-    lat = float(text)
+    lat = _notnan(text)
     if lat > 90.:
         raise ValueError('latitude %s > 90' % lat)
     elif lat < -90.:
@@ -131,7 +139,7 @@ def positiveint(text):
 
 def positivefloat(text):
     """String -> positive float"""
-    f = float(text)
+    f = _notnan(text)
     if f < 0:
         raise ValueError('float %d < 0' % f)
     return f
-- 
2.43.0


From 91c1e8ebaa03812c7af15cc08034562afd80231c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:38 +0000
Subject: [PATCH 02/30] fix: positivefloat('-inf') raised OverflowError instead
 of ValueError

---
 openquake/commonlib/valid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/valid.py b/openquake/commonlib/valid.py
index f045f00..1af7452 100644
--- a/openquake/commonlib/valid.py
+++ b/openquake/commonlib/valid.py
@@ -141,7 +141,7 @@ def positivefloat(text):
     """String -> positive float"""
     f = _notnan(text)
     if f < 0:
-        raise ValueError('float %d < 0' % f)
+        raise ValueError('float %s < 0' % f)
     return f
 
 
-- 
2.43.0


From 5ec11238685b8a385a8913483569ecd9d744861d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:38 +0000
Subject: [PATCH 03/30] fix: IMTstr and name accepted strings with trailing
 garbage

---
 openquake/commonlib/valid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/valid.py b/openquake/commonlib/valid.py
index 1af7452..e121909 100644
--- a/openquake/commonlib/valid.py
+++ b/openquake/commonlib/valid.py
@@ -67,7 +67,7 @@ class Regex(object):
                              (value, self.rx.pattern))
         return value
 
-name = Regex(r'^[a-zA-Z_]\w*$')
+name = Regex(r'^[a-zA-Z_]\w*\Z')
 
 
 def _notnan(text):
@@ -170,7 +170,7 @@ IMT = collections.namedtuple('IMT', 'imt saPeriod saDamping')
 
 def IMTstr(text):
     """String -> namedtuple with fields imt, saPeriod, saDamping"""
-    mo = re.match(r'PGA|PGV|PGD|IA|RSD|MMI|SA\((\d+\.?\d*)\)', text)
+    mo = re.match(r'(?:PGA|PGV|PGD|IA|RSD|MMI|SA\((\d+\.?\d*)\))\Z', text)
     if mo is None:
         raise ValueError('%r is not a valid IMT' % text)
     period = mo.group(1)
-- 
2.43.0


From 30b051654813629883368b22f26a1682065a3d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:38 +0000
Subject: [PATCH 04/30] fix: a rejected Table.insert left its other unique keys
 registered

---
 openquake/commonlib/record.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/openquake/commonlib/record.py b/openquake/commonlib/record.py
index 664c75c..aa5469d 100644
--- a/openquake/commonlib/record.py
+++ b/openquake/commonlib/record.py
@@ -461,17 +461,16 @@ class Table(collections.MutableSequence):
         """
         for name, unique in self._unique_data.iteritems():
             key = getattr(rec, name)
-            try:
-                rec = unique.dict[key]
-            except KeyError:  # not inserted yet
-                unique.dict[key] = rec
-            else:
+            if key in unique.dict:
                 msg = []
                 for k, name in zip(key, unique.names):
                     msg.append('%s=%s' % (name, k))
                 raise KeyError('%s:%d:Duplicated record:%s' %
                                (self.recordtype.__name__, position,
                                 ','.join(msg)))
+        # register the keys only when all the constraints are satisfied
+        for name, unique in self._unique_data.iteritems():
+            unique.dict[getattr(rec, name)] = rec
         self._records.insert(position, rec)
 
     def getrecord(self, *pkey):
-- 
2.43.0


From 743ca3d3035012024bdd80d35f9ae537c0dfd5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:38 +0000
Subject: [PATCH 05/30] fix: Table.__setitem__ did not check the unique
 constraints

---
 openquake/commonlib/record.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/record.py b/openquake/commonlib/record.py
index aa5469d..047c6e8 100644
--- a/openquake/commonlib/record.py
+++ b/openquake/commonlib/record.py
@@ -435,7 +435,11 @@ class Table(collections.MutableSequence):
     def __setitem__(self, i, new_record):
         """Set the i-th record"""
         # TODO: the fk dictionaries must be updated!
-        # TODO: there is no unique check here!
+        for name, unique in self._unique_data.iteritems():
+            key = getattr(new_record, name)
+            if unique.dict.get(key, self._records[i]) is not self._records[i]:
+                raise KeyError('%s:%d:Duplicated record:%s' % (
+                    self.recordtype.__name__, i, ','.join(key)))
         for name, unique in self._unique_data.iteritems():
             old_key = getattr(self._records[i], name)
             new_key = getattr(new_record, name)
-- 
2.43.0


From 6a609758da43401226e6b09715cb436d223f5d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:38 +0000
Subject: [PATCH 06/30] fix: comparing records or tables of different length
 raised AssertionError

---
 openquake/commonlib/record.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/record.py b/openquake/commonlib/record.py
index 047c6e8..ba388bc 100644
--- a/openquake/commonlib/record.py
+++ b/openquake/commonlib/record.py
@@ -351,7 +351,8 @@ class Record(collections.Sequence):
         A record is equal to another sequence if they have the same
         length and content.
         """
-        assert len(self) == len(other)
+        if len(self) != len(other):
+            return False
         return all(x == y for x, y in zip(self, other))
 
     def __ne__(self, other):
@@ -493,7 +494,8 @@ class Table(collections.MutableSequence):
         A table is equal to another sequence if they have the same
         length and content.
         """
-        assert len(self) == len(other)
+        if len(self) != len(other):
+            return False
         return all(x == y for x, y in zip(self, other))
 
     def __ne__(self, other):
-- 
2.43.0


From 7090df559ea49777c6c9d48775fdebac1721c193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:05 +0000
Subject: [PATCH 07/30] fix: WeightedSequence.__eq__ ignored the length and !=
 was by identity

---
 openquake/commonlib/general.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index e38cebf..a74497f 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -107,8 +107,16 @@ class WeightedSequence(collections.MutableSequence):
         """
         Compare for equality the items contained in self
         """
+        if len(self) != len(other):
+            return False
         return all(x == y for x, y in zip(self, other))
 
+    def __ne__(self, other):
+        """
+        The opposite of equality
+        """
+        return not self == other
+
     def __repr__(self):
         """
         String representation of the sequence, including the weight
-- 
2.43.0


From 26354c95d0c86d7205bd58d24cb99ef97fdc4ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:05 +0000
Subject: [PATCH 08/30] fix: a zero-weight item of another kind let
 block_splitter mix kinds

---
 openquake/commonlib/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index a74497f..b684e42 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -189,7 +189,7 @@ def block_splitter(items, max_weight, weight=lambda item: 1,
             raise ValueError('The item %r got a negative weight %s!' %
                              (item, w))
         elif w == 0:  # ignore items with 0 weight
-            pass
+            continue
         elif ws.weight + w > max_weight or k != prev_kind:
             new_ws = WeightedSequence([(item, w)])
             if ws:
-- 
2.43.0


From a8ea607cd5074cbae402417c8a91ed75bc2d0d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:05 +0000
Subject: [PATCH 09/30] fix: deep_eq dropped the exclusions below the top
 level, KeyError on other keys

---
 openquake/commonlib/general.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index b684e42..d943947 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -271,7 +271,8 @@ def _deep_eq(a, b, decimal, exclude=None):
 
         for key in a:
             if not key in exclude:
-                _deep_eq(a[key], b[key], decimal)
+                assert key in b, "Key %s is missing in %s" % (key, b)
+                _deep_eq(a[key], b[key], decimal, exclude)
 
     def _test_seq(a, b):
         """Compare `list` or `tuple` types recursively."""
@@ -281,7 +282,7 @@ def _deep_eq(a, b, decimal, exclude=None):
             dict(a=a, b=b, len_a=len(a), len_b=len(b))
 
         for i, item in enumerate(a):
-            _deep_eq(item, b[i], decimal)
+            _deep_eq(item, b[i], decimal, exclude)
 
     # lists or tuples
     if isinstance(a, (list, tuple)):
@@ -307,7 +308,8 @@ def _deep_eq(a, b, decimal, exclude=None):
             "slots %s and %s are not the same") % (a.__slots__, b.__slots__)
         for slot in a.__slots__:
             if not slot in exclude:
-                _deep_eq(getattr(a, slot), getattr(b, slot), decimal)
+                _deep_eq(getattr(a, slot), getattr(b, slot), decimal,
+                         exclude)
     else:
         # Objects must be primitives
 
-- 
2.43.0


From 0a8f2514269f7bc55fe11a58a156f80ba37ec0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:05 +0000
Subject: [PATCH 10/30] fix: writetmp leaked the file descriptor when there was
 no content

---
 openquake/commonlib/general.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index d943947..bcc7b2a 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -335,8 +335,8 @@ def writetmp(content=None, dir=None, prefix="tmp", suffix="tmp"):
         if not os.path.exists(dir):
             os.makedirs(dir)
     fh, path = tempfile.mkstemp(dir=dir, prefix=prefix, suffix=suffix)
+    fh = os.fdopen(fh, "w")
     if content:
-        fh = os.fdopen(fh, "w")
         fh.write(content)
-        fh.close()
+    fh.close()
     return path
-- 
2.43.0


From 7a5042448b13b16c4bd95a0b0ef65ee30aa968f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:20 +0000
Subject: [PATCH 11/30] fix: TaskManager.wait passed self twice and always
 raised TypeError

---
 openquake/commonlib/parallel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/parallel.py b/openquake/commonlib/parallel.py
index 5da89ee..adb287e 100644
--- a/openquake/commonlib/parallel.py
+++ b/openquake/commonlib/parallel.py
@@ -257,7 +257,7 @@ class TaskManager(object):
 
         :returns: the total number of tasks that were spawned
         """
-        return self.aggregate_results(self, lambda acc, res: acc + 1, 0)
+        return self.aggregate_results(lambda acc, res: acc + 1, 0)
 
 
 def map_reduce(function, function_args, agg, acc, name=None):
-- 
2.43.0


From 1c09eded2c83d3cc3b4411c89f6e2495de9f79c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:20 +0000
Subject: [PATCH 12/30] fix: pickle_sequence mixed up temporary objects reusing
 the same id

---
 openquake/commonlib/parallel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openquake/commonlib/parallel.py b/openquake/commonlib/parallel.py
index adb287e..f944074 100644
--- a/openquake/commonlib/parallel.py
+++ b/openquake/commonlib/parallel.py
@@ -162,6 +162,7 @@ def pickle_sequence(objects):
     """
     cache = {}
     out = []
+    objects = list(objects)  # keep alive the objects, the cache is by id
     for obj in objects:
         obj_id = id(obj)
         if obj_id not in cache:
-- 
2.43.0


From 670d26cb195c2aaefa21ec8e8b35d33b0b68cb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:39 +0000
Subject: [PATCH 13/30] fix: the ordering of GMPE branches was not a strict
 weak order

---
 openquake/commonlib/logictree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index 10b58da..4dcc222 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -1145,8 +1145,8 @@ class GMPELogicTree(BaseLogicTree):
 
 BranchTuple = namedtuple('BranchTuple', 'bset, id, uncertainty, weight')
 BranchTuple.__lt__ = lambda self, other: (
-    self.bset['branchSetID'] < other.bset['branchSetID']
-    and self.id < other.id)
+    (self.bset['branchSetID'], self.id)
+    < (other.bset['branchSetID'], other.id))
 
 class InvalidLogicTree(Exception):
     pass
-- 
2.43.0


From 42482dfdd0e32f4622c4a54b0dae1c5ff5838a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:39 +0000
Subject: [PATCH 14/30] fix: a fully skipped branching level detached the
 following levels

---
 openquake/commonlib/logictree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index 4dcc222..f0fa470 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -464,8 +464,9 @@ class BaseLogicTree(object):
                 self.apply_branchset(branchset_node, branchset)
             for branch in branchset.branches:
                 new_open_ends.add(branch)
-        self.open_ends.clear()
-        self.open_ends.update(new_open_ends)
+        if new_open_ends:  # else all the branchsets were skipped
+            self.open_ends.clear()
+            self.open_ends.update(new_open_ends)
 
     def parse_branchset(self, branchset_node, depth, number, validate):
         """
-- 
2.43.0


From 46b319f2762596703fde0555d1e884651196b2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:56 +0000
Subject: [PATCH 15/30] fix: SourceCollector appended to the list of sources
 while iterating on it

---
 openquake/commonlib/source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index 5cd4065..9d9616e 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -50,11 +50,11 @@ class SourceCollector(object):
     def __init__(self, trt, sources=None, num_ruptures=0,
                  min_mag=None, max_mag=None):
         self.trt = trt
-        self.sources = sources or []
+        self.sources = []
         self.num_ruptures = num_ruptures
         self.min_mag = min_mag
         self.max_mag = max_mag
-        for src in self.sources:
+        for src in sources or ():
             self.update(src)
         self.filtered_sources = (0, 0)  # (filtered, total)
 
-- 
2.43.0


From bf33cdd704be4477e6618969198b0b263fa8dc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:56 +0000
Subject: [PATCH 16/30] fix: SourceCollector.gen_blocks truncated small weight
 limits to zero

---
 openquake/commonlib/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index 9d9616e..0011d05 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -133,7 +133,7 @@ class SourceCollector(object):
         assert num_sources, 'No sources for TRT=%s!' % self.trt
         return block_splitter(
             self._filter_and_split_sources(src_filter, discr),
-            max_weight * num_sources / (num_sources + 100),
+            max_weight * num_sources / (num_sources + 100.),
             self.update_num_ruptures)
 
     def __repr__(self):
-- 
2.43.0


From 8efead3413347b7ed6db6626ca6bfa1124593199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:56 +0000
Subject: [PATCH 17/30] fix: converting a characteristic source modified its
 planar surfaces

---
 openquake/commonlib/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index 0011d05..2f392fb 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -490,7 +490,7 @@ class NrmlHazardlibConverter(object):
             # A collection of planar surfaces
             planar_surfaces = []
             for planar_surface in src.surface:
-                kwargs = planar_surface.__dict__
+                kwargs = planar_surface.__dict__.copy()
                 kwargs.update(dict(mesh_spacing=self.rupture_mesh_spacing))
 
                 planar_surfaces.append(geo.PlanarSurface(**kwargs))
-- 
2.43.0


From 423f64a9e7b6c175a468e8902fc3327d4ca80b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:56 +0000
Subject: [PATCH 18/30] fix: split_fault_source repeated the previous source
 for zero rates

---
 openquake/commonlib/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index 2f392fb..56ba9b6 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -664,7 +664,7 @@ def split_fault_source(src):
                 min_mag=mag, bin_width=src.mfd.bin_width,
                 occurrence_rates=[rate])
             i += 1
-        yield new_src
+            yield new_src
 
 
 def split_source(src, area_source_discretization):
-- 
2.43.0


From b6c9cab50502733397400688a196bcde59cdd102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:16 +0000
Subject: [PATCH 19/30] fix: the managers of the single file groups ignored
 has_header=False

---
 openquake/commonlib/csvmanager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 8d58bd4..64cb3b6 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -315,7 +315,7 @@ class CSVManager(object):
             if recordtype is None:
                 continue
             if not prefix in managers:
-                man = self.__class__(self.archive, prefix)
+                man = self.__class__(self.archive, prefix, self.has_header)
                 man.convertertype = ct[recordtype.convertername]
                 managers[prefix] = man
         return managers.values()
@@ -395,7 +395,7 @@ class CSVManager(object):
         if prefix is None:
             man = self
         else:  # creates a new CSVManager for the given prefix
-            man = self.__class__(self.archive, prefix)
+            man = self.__class__(self.archive, prefix, self.has_header)
         convtype = converter.Converter.from_node(node)
         with man:
             for rec in convtype.node_to_records(node):
-- 
2.43.0


From 05c3fdc9a9b8fb169eda550c102a20bce2dd3742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:16 +0000
Subject: [PATCH 20/30] fix: zip and directory archives did not raise
 NotInArchive for missing files

---
 openquake/commonlib/csvmanager.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 64cb3b6..65597ee 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -168,7 +168,10 @@ class ZipArchive(Archive):
             return TempFile(self.zip, name, mode)
         else:
             # open for reading
-            return self.zip.open(name, mode)
+            try:
+                return self.zip.open(name, mode)
+            except KeyError:
+                raise NotInArchive(name)
 
     def extract_filenames(self, prefix=''):
         """
@@ -192,7 +195,13 @@ class DirArchive(Archive):
         self.opened = set()
 
     def _open(self, name, mode):
-        return open(os.path.join(self.name, name), mode)
+        path = os.path.join(self.name, name)
+        try:
+            return open(path, mode)
+        except IOError:
+            if not mode.startswith('r') or os.path.exists(path):
+                raise
+            raise NotInArchive(name)
 
     def extract_filenames(self, prefix=''):
         """
-- 
2.43.0


From 0e912c29d1614c8a16b3a7e136a1c9772951981a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:16 +0000
Subject: [PATCH 21/30] fix: after an invalid header a second read skipped the
 header check

---
 openquake/commonlib/csvmanager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 65597ee..751c505 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -419,13 +419,14 @@ class CSVManager(object):
         if reader is None:
             fname = '%s__%s.csv' % (self.prefix, recordtype.__name__)
             self.rt2file[recordtype] = f = self.archive.open(fname, 'r')
-            self.rt2reader[recordtype] = reader = csv.reader(f)
+            reader = csv.reader(f)
             if self.has_header:
                 header = reader.next()
                 if header != recordtype.fieldnames:
                     raise InvalidFile(
                         '%s: line 1: got %s as header, expected %s' %
                         (fname, header, recordtype.fieldnames))
+            self.rt2reader[recordtype] = reader
         for row in reader:
             yield recordtype(*row)
 
-- 
2.43.0


From a4bd459dc2c645d99e2370e2f6f02ce99aeb968e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:16 +0000
Subject: [PATCH 22/30] fix: entering a CSVManager forgot the files to close in
 its archive

---
 openquake/commonlib/csvmanager.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 751c505..2e32e1d 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -480,7 +480,6 @@ class CSVManager(object):
         self.rt2reader = {}
         self.rt2writer = {}
         self.rt2file = {}
-        self.archive.opened = set()
         return self
 
     def __exit__(self, etype, exc, tb):
-- 
2.43.0


From eaf88046a6543fd0f027b659fed5b335c1983e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:16 +0000
Subject: [PATCH 23/30] fix: NRMLconvert could not read zip archives and
 created missing inputs

---
 bin/NRMLconvert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/NRMLconvert.py b/bin/NRMLconvert.py
index 2d2b0a8..aff9e88 100644
--- a/bin/NRMLconvert.py
+++ b/bin/NRMLconvert.py
@@ -62,7 +62,7 @@ def main(input, output=None, limit=None):
         print_invalid(man, limit)
         return
     # csv -> nrml
-    inp_archive = mkarchive(input, 'r+')
+    inp_archive = mkarchive(input, 'r' if output else 'a')
     man = CSVManager(inp_archive, os.path.basename(input))
     print_invalid(man, limit)
     out_archive = mkarchive(output, 'a') if output else inp_archive
-- 
2.43.0


From d188f11e6a2bdc1897aa4ae82b52132208f346e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:59 +0000
Subject: [PATCH 24/30] fix: occupancies of periods missing in the first asset
 were lost

---
 openquake/commonlib/converter.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index e99d53c..f79e89f 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -387,10 +387,8 @@ class Exposure(Converter):
                 exp.nodes.insert(1, Node('conversions', {}, nodes=[
                     Node('area', {'type': area_type, 'unit': area_unit})]))
         if t.tableOccupancy:
-            # extract the occupancies corresponding to the first asset
-            _asset_ref, occupancies = groupby(
-                t.tableOccupancy, ['asset_ref']).next()
-            periods = sorted(occ.period for occ in occupancies)
+            # extract the periods of all the assets
+            periods = sorted(set(occ.period for occ in t.tableOccupancy))
         else:
             periods = []
         exp.assets.nodes = self._assetgenerator(
-- 
2.43.0


From da16a7ec7259233360a3bc5478b65f8db6e82ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:59 +0000
Subject: [PATCH 25/30] fix: the Gmf records of a single gmfSet referred to a
 missing set

---
 openquake/commonlib/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index f79e89f..8044eb8 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -452,7 +452,7 @@ class GmfCollection(Converter):
                 imt = gmf['IMT']
                 if imt == 'SA':
                     imt += '(%s)' % gmf['saPeriod']
-                yield records.Gmf(1, imt, '')
+                yield records.Gmf('0', imt, '')
                 for n in gmf:
                     yield records.GmfData(
                         '0', imt, '', n['lon'], n['lat'], n['gmv'])
-- 
2.43.0


From 57c6f0bff85702b075dfd56f4531dd68a9920f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:59 +0000
Subject: [PATCH 26/30] fix: the optional area of an exposure was lost or
 invented in conversion

---
 openquake/commonlib/converter.py | 18 ++++++++++--------
 openquake/commonlib/records.py   |  5 +++--
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index 8044eb8..06f7224 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -286,19 +286,19 @@ class Exposure(Converter):
         Convert the node into a sequence of Exposure records
         """
         taxonomysource = node.attrib.get('taxonomySource', 'UNKNOWN')
+        try:
+            area = node.conversions.area
+            area_type = area['type']
+            area_unit = area['unit']
+        except NameError:
+            area_type = ''
+            area_unit = ''
         if node['category'] == 'buildings':
             for c in node.conversions.costTypes:
                 yield records.CostType(c['name'], c['type'], c['unit'],
                                        c.attrib.get('retrofittedType', ''),
                                        c.attrib.get('retrofittedUnit', ''))
             conv = node.conversions
-            try:
-                area = conv.area
-                area_type = area['type']
-                area_unit = area['unit']
-            except NameError:
-                area_type = ''
-                area_unit = ''
             yield records.Exposure(
                 node['id'],
                 node['category'],
@@ -313,7 +313,9 @@ class Exposure(Converter):
                 node['id'],
                 node['category'],
                 taxonomysource,
-                node.description.text.strip())
+                node.description.text.strip(),
+                area_type,
+                area_unit)
 
         locations = {}  # location -> id
         loc_counter = itertools.count(1)
diff --git a/openquake/commonlib/records.py b/openquake/commonlib/records.py
index 5590e9f..8f4ede2 100644
--- a/openquake/commonlib/records.py
+++ b/openquake/commonlib/records.py
@@ -232,8 +232,9 @@ class Exposure(Record):
         node.append(Node('description', text=self['description']))
         if node['category'] == 'buildings':
             conv = Node('conversions')
-            conv.append(Node('area', dict(type=self['area_type'],
-                                          unit=self['area_unit'])))
+            if self['area_type']:
+                conv.append(Node('area', dict(type=self['area_type'],
+                                              unit=self['area_unit'])))
             conv.append(Node('costTypes'))
             conv.append(Node('deductible', dict(
                 isAbsolute=self['deductible_is_absolute'])))
-- 
2.43.0


From b4b56c29fcc2898fdf16bab896b1d57469bee832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:08 +0000
Subject: [PATCH 27/30] fix: source model paths with surrounding blanks were
 not trimmed

---
 openquake/commonlib/readini.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/readini.py b/openquake/commonlib/readini.py
index 1d1f574..38d3685 100644
--- a/openquake/commonlib/readini.py
+++ b/openquake/commonlib/readini.py
@@ -21,7 +21,7 @@ def _collect_source_model_paths(smlt):
             for branch in branch_set.xpath(
                     './nrml:logicTreeBranch/nrml:uncertaintyModel',
                     namespaces=nrmllib.PARSE_NS_MAP):
-                src_paths.append(branch.text)
+                src_paths.append(branch.text.strip())
     return sorted(set(src_paths))
 
 
-- 
2.43.0


From 3190fe1e35b873879e2fb77ca91a7f4bd7c94ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:31 +0000
Subject: [PATCH 28/30] fix: deep_eq missed a key of the second dictionary when
 the first has an excluded one

---
 openquake/commonlib/general.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index bcc7b2a..9c232c0 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -273,6 +273,9 @@ def _deep_eq(a, b, decimal, exclude=None):
             if not key in exclude:
                 assert key in b, "Key %s is missing in %s" % (key, b)
                 _deep_eq(a[key], b[key], decimal, exclude)
+        for key in b:
+            if not key in exclude:
+                assert key in a, "Key %s is missing in %s" % (key, a)
 
     def _test_seq(a, b):
         """Compare `list` or `tuple` types recursively."""
-- 
2.43.0


From e62f5d52ecfe4015bca50e8d5cac616196cce5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:30 +0000
Subject: [PATCH 29/30] fix: a GMPE branchset without a tectonic region type is
 a validation error

skip_branchset_condition raised a bare KeyError before validate_filters
could report the offending node, file and base path.
---
 openquake/commonlib/logictree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index f0fa470..476da95 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -1021,7 +1021,9 @@ class GMPELogicTree(BaseLogicTree):
 
         :param attrs: a dictionary with the attributes of the branchset
         """
-        return (attrs['applyToTectonicRegionType']
+        # a missing filter is reported by validate_filters
+        return ('applyToTectonicRegionType' in attrs and
+                attrs['applyToTectonicRegionType']
                 not in self.tectonic_region_types)
 
     def make_trt_to_gsim(self, branch_ids):
-- 
2.43.0


From 5e52891dd2544a09cbc8b31fff301c901d90378a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:30 +0000
Subject: [PATCH 30/30] fix: a missing source model file raises a ParsingError

as documented in the constructor of the logic trees; the IOError was
propagated instead.
---
 openquake/commonlib/logictree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index 476da95..aa0149e 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -926,7 +926,10 @@ class SourceModelLogicTree(BaseLogicTree):
                                for tagname in self.SOURCE_TYPES)
         sourcetype_slice = slice(len('{%s}' % self.NRML), - len('Source'))
 
-        fh = self._get_source_model(source_model)
+        try:
+            fh = self._get_source_model(source_model)
+        except IOError as exc:
+            raise ParsingError(source_model, self.basepath, str(exc))
         eventstream = etree.iterparse(fh, tag='{%s}*' % self.NRML,
                                       schema=self.get_xmlschema())
         while True:
-- 
2.43.0

