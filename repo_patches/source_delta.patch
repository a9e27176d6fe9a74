From 8986f9a37b7389e934df257d964ce4e843f53e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:51 +0000
Subject: [PATCH 01/64] fix: include dependencies when GdsLibrary.add gets an
 iterator

---
 gdspy/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index ad0b83a..0ab5e98 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -2363,7 +2363,7 @@ class GdsLibrary(object):
         else:
             cell_set = set(cell)
             if include_dependencies:
-                for c in cell:
+                for c in list(cell_set):
                     cell_set.update(c.get_dependencies(True))
         for c in cell_set:
             if (
-- 
2.43.0


From 7b1d12509ac649ab937f09a78e1cdf6073c16a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:51 +0000
Subject: [PATCH 02/64] fix: leave the library unchanged when GdsLibrary.add
 raises

---
 gdspy/library.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 0ab5e98..75b4bbf 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -2365,15 +2365,20 @@ class GdsLibrary(object):
             if include_dependencies:
                 for c in list(cell_set):
                     cell_set.update(c.get_dependencies(True))
+        if not overwrite_duplicate:
+            # Check everything before changing anything
+            added = {}
+            for c in cell_set:
+                if (
+                    self.cells.get(c.name, c) is not c
+                    or added.setdefault(c.name, c) is not c
+                ):
+                    raise ValueError(
+                        "[GDSPY] Cell named {0} already present in library.".format(
+                            c.name
+                        )
+                    )
         for c in cell_set:
-            if (
-                not overwrite_duplicate
-                and c.name in self.cells
-                and self.cells[c.name] is not c
-            ):
-                raise ValueError(
-                    "[GDSPY] Cell named {0} already present in library.".format(c.name)
-                )
             if (
                 overwrite_duplicate
                 and update_references
-- 
2.43.0


From f83800f30a893cc7a579338af90f23f4b59da5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:16 +0000
Subject: [PATCH 03/64] fix: compose reflections and scale array spacing in
 Cell.copy

---
 gdspy/library.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 75b4bbf..178d12e 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -258,7 +258,7 @@ class Cell(object):
                 path.transform(translation, rotation, scale, x_reflection)
 
             for lbl in new_cell.labels:
-                r0 = -1 if lbl.x_reflection is None else 1
+                r0 = -1 if lbl.x_reflection else 1
                 s0 = 1 if lbl.magnification is None else lbl.magnification
                 t0 = 0 if lbl.rotation is None else (lbl.rotation * numpy.pi / 180)
                 dx0, dy0 = lbl.position
@@ -275,7 +275,7 @@ class Cell(object):
                 lbl.x_reflection = r * r0 < 0
 
             for ref in new_cell.references:
-                r0 = -1 if ref.x_reflection is None else 1
+                r0 = -1 if ref.x_reflection else 1
                 s0 = 1 if ref.magnification is None else ref.magnification
                 t0 = 0 if ref.rotation is None else (ref.rotation * numpy.pi / 180)
                 dx0, dy0 = ref.origin
@@ -290,6 +290,8 @@ class Cell(object):
                 if ref.magnification == 1:
                     ref.magnification = None
                 ref.x_reflection = r * r0 < 0
+                if isinstance(ref, CellArray):
+                    ref.spacing = (s * ref.spacing[0], s * ref.spacing[1])
 
         return new_cell
 
-- 
2.43.0


From f6370a8420cbafde2a1dc439c889b0763a89db71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:16 +0000
Subject: [PATCH 04/64] fix: do not share attributes of references between deep
 copies of cells

---
 gdspy/library.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 178d12e..eb81d5c 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -234,7 +234,11 @@ class Cell(object):
         new_cell.polygons = libcopy.deepcopy(self.polygons)
         new_cell.paths = libcopy.deepcopy(self.paths)
         new_cell.labels = libcopy.deepcopy(self.labels)
-        new_cell.references = [libcopy.copy(ref) for ref in self.references]
+        # Everything is copied but the referenced cells
+        new_cell.references = [
+            libcopy.deepcopy(ref, {id(ref.ref_cell): ref.ref_cell})
+            for ref in self.references
+        ]
 
         if transform:
             r = -1 if x_reflection else 1
-- 
2.43.0


From 24b3df93645bc855726a4165efd72c55864009fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:16 +0000
Subject: [PATCH 05/64] fix: compose reflection and rotation in get_labels with
 set_transform

---
 gdspy/library.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index eb81d5c..1ac2d11 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -1490,8 +1490,10 @@ class CellReference(object):
                         lbl.magnification *= self.magnification
                     else:
                         lbl.magnification = self.magnification
-                if self.x_reflection is not None:
+                if self.x_reflection:
                     lbl.x_reflection = not lbl.x_reflection
+                    if lbl.rotation is not None:
+                        lbl.rotation = -lbl.rotation
                 if self.rotation is not None:
                     if lbl.rotation is not None:
                         lbl.rotation += self.rotation
@@ -2123,8 +2125,10 @@ class CellArray(object):
                                 lbl.magnification *= self.magnification
                             else:
                                 lbl.magnification = self.magnification
-                        if self.x_reflection is not None:
+                        if self.x_reflection:
                             lbl.x_reflection = not lbl.x_reflection
+                            if lbl.rotation is not None:
+                                lbl.rotation = -lbl.rotation
                         if self.rotation is not None:
                             if lbl.rotation is not None:
                                 lbl.rotation += self.rotation
-- 
2.43.0


From c5ab2bed68e1fcf82beaa6c5339f205159632782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:16 +0000
Subject: [PATCH 06/64] fix: layer and type queries with nested and unresolved
 references

---
 gdspy/library.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 1ac2d11..76ff7c6 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -492,7 +492,8 @@ class Cell(object):
         for element in itertools.chain(self.polygons, self.paths):
             layers.update(element.layers)
         for reference in self.references:
-            layers.update(reference.ref_cell.get_layers())
+            if isinstance(reference.ref_cell, Cell):
+                layers.update(reference.ref_cell.get_layers())
         for label in self.labels:
             layers.add(label.layer)
         return layers
@@ -510,7 +511,8 @@ class Cell(object):
         for element in itertools.chain(self.polygons, self.paths):
             datatypes.update(element.datatypes)
         for reference in self.references:
-            datatypes.update(reference.ref_cell.get_datatypes())
+            if isinstance(reference.ref_cell, Cell):
+                datatypes.update(reference.ref_cell.get_datatypes())
         return datatypes
 
     def get_texttypes(self):
@@ -524,7 +526,8 @@ class Cell(object):
         """
         texttypes = set()
         for reference in self.references:
-            texttypes.update(reference.ref_cell.get_textypes())
+            if isinstance(reference.ref_cell, Cell):
+                texttypes.update(reference.ref_cell.get_texttypes())
         for label in self.labels:
             texttypes.add(label.texttype)
         return texttypes
-- 
2.43.0


From 69912df4263a8d6c08ab9fa600fd70e6ce05bab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:16 +0000
Subject: [PATCH 07/64] fix: replace texttypes in Cell.flatten only if
 requested

---
 gdspy/library.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 76ff7c6..74ad3fa 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -830,14 +830,10 @@ class Cell(object):
             This cell.
         """
         self.labels = self.get_labels()
-        if single_layer is not None and single_datatype is not None:
-            for lbl in self.labels:
-                lbl.layer = single_layer
-                lbl.texttype = single_texttype
-        elif single_layer is not None:
+        if single_layer is not None:
             for lbl in self.labels:
                 lbl.layer = single_layer
-        elif single_datatype is not None:
+        if single_texttype is not None:
             for lbl in self.labels:
                 lbl.texttype = single_texttype
         self.polygons = self.get_polygonsets()
-- 
2.43.0


From 97dbd459fd84f28ba5f7b1679b3fc550d8e37379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:17 +0000
Subject: [PATCH 08/64] fix: recalculate bounding boxes after removals,
 flattening and rebinding

---
 gdspy/library.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 74ad3fa..0fce790 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -63,6 +63,9 @@ Globally disable add newly-created cells to the current_library.
 """
 
 
+_bb_stamp = itertools.count(1)
+
+
 class Cell(object):
     """
     Collection of polygons, paths, labels and raferences to other cells.
@@ -314,6 +317,7 @@ class Cell(object):
         out : `Cell`
             This cell.
         """
+        self._bb_valid = False
         if isinstance(element, PolygonSet):
             self.polygons.append(element)
         elif isinstance(element, RobustPath) or isinstance(element, FlexPath):
@@ -338,7 +342,6 @@ class Cell(object):
                         "`RobustPath`, `Label`, `CellReference`, and "
                         "`CellArray` can be added to `Cell`."
                     )
-        self._bb_valid = False
         return self
 
     def remove_polygons(self, test):
@@ -386,6 +389,7 @@ class Cell(object):
                 element.datatypes = dts
                 filtered_polys.append(element)
         self.polygons = filtered_polys
+        self._bb_valid = False
         return self
 
     def remove_paths(self, test):
@@ -413,6 +417,7 @@ class Cell(object):
                 self.paths.pop(ii)
             else:
                 ii += 1
+        self._bb_valid = False
         return self
 
     def remove_labels(self, test):
@@ -567,7 +572,10 @@ class Cell(object):
             Bounding box of this cell [[x_min, y_min], [x_max, y_max]],
             or None if the cell is empty.
         """
-        deps_still_valid = all(ref._bb_valid for ref in self.get_dependencies(True))
+        deps_still_valid = all(
+            ref._bb_valid and ref._bb_valid < self._bb_valid
+            for ref in self.get_dependencies(True)
+        )
         cached_bbox_still_valid = self._bb_valid and deps_still_valid
         if not cached_bbox_still_valid:
             bb = numpy.array(((1e300, 1e300), (-1e300, -1e300)))
@@ -589,7 +597,8 @@ class Cell(object):
                 self._bounding_box = bb
             else:
                 self._bounding_box = None
-            self._bb_valid = True
+            # Parents must have been calculated after their dependencies
+            self._bb_valid = next(_bb_stamp)
 
         if self._bounding_box is None:
             return None
@@ -856,6 +865,7 @@ class Cell(object):
             for path in self.paths:
                 path.datatypes = [single_datatype] * path.n
         self.references = []
+        self._bb_valid = False
         return self
 
     def to_svg(self, outfile, scaling, precision, attributes):
@@ -2436,6 +2446,7 @@ class GdsLibrary(object):
                     )
                 ]
                 removed -= len(c.references)
+                c._bb_valid = False
         return removed
 
     def write_gds(self, outfile, cells=None, timestamp=None, binary_cells=None):
@@ -2899,9 +2910,11 @@ class GdsLibrary(object):
                     if ref.ref_cell.name == old_name:
                         ref.ref_cell = new_cell
                         replacements += 1
+                        cell._bb_valid = False
                 elif ref.ref_cell == old_name:
                     ref.ref_cell = new_cell
                     replacements += 1
+                    cell._bb_valid = False
         return replacements
 
     def extract(self, cell, overwrite_duplicate=False):
-- 
2.43.0


From eeebf296d433ea20bfade68587f32e4071c1df08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:17 +0000
Subject: [PATCH 09/64] fix: keep lists and do not change other cells in
 Cell.remove_polygons

---
 gdspy/library.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 0fce790..ace5849 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -382,11 +382,15 @@ class Cell(object):
                    if not test(poly, l, dt)]
             if len(pld) == 0:
                 pass  # we don't need no empty polygons!
+            elif len(pld) == len(element.polygons):
+                filtered_polys.append(element)
             else:
-                polys, layers, dts = zip(*pld)
-                element.polygons = polys
-                element.layers = layers
-                element.datatypes = dts
+                # The original could be in use by other cells
+                element = libcopy.copy(element)
+                element.polygons = [numpy.array(poly) for poly, _, _ in pld]
+                element.layers = [l for _, l, _ in pld]
+                element.datatypes = [dt for _, _, dt in pld]
+                element.properties = libcopy.copy(element.properties)
                 filtered_polys.append(element)
         self.polygons = filtered_polys
         self._bb_valid = False
-- 
2.43.0


From b1a7a96f6af0b256dc53ba962f6286a86b850462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:17 +0000
Subject: [PATCH 10/64] fix: return a list for filtered queries of unresolved
 references

---
 gdspy/library.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index ace5849..fb84672 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -1382,7 +1382,7 @@ class CellReference(object):
         the result by computing their polygonal boundary.
         """
         if not isinstance(self.ref_cell, Cell):
-            return dict() if by_spec else []
+            return dict() if by_spec is True else []
         polygons = self.ref_cell.get_polygons(by_spec, depth)
         return self._transform_polygons(polygons)
 
@@ -1994,7 +1994,7 @@ class CellArray(object):
         the result by computing their polygonal boundary.
         """
         if not isinstance(self.ref_cell, Cell):
-            return dict() if by_spec else []
+            return dict() if by_spec is True else []
         cell_polygons = self.ref_cell.get_polygons(by_spec, depth)
         return self._transform_polygons(cell_polygons)
 
-- 
2.43.0


From d0bc1797ab0b61daf62aa95ed4f0134041a17f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:17 +0000
Subject: [PATCH 11/64] fix: scale custom ends in FlexPath.transform

---
 gdspy/path.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gdspy/path.py b/gdspy/path.py
index 20c02f7..dcb1415 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -1296,6 +1296,10 @@ class FlexPath(object):
             if self.width_transform or not self.gdsii_path:
                 self.widths = self.widths * scale
             self.offsets = self.offsets * scale
+            for i, end in enumerate(self.ends):
+                # CustomPlus created by bgnextn and endextn
+                if isinstance(end, tuple):
+                    self.ends[i] = tuple([e * scale for e in end])
         if x_reflection:
             cos[1] = -cos[1]
             sin[0] = -sin[0]
-- 
2.43.0


From f7456a82dcb63352029ac0383ac2415bbfef5583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:17 +0000
Subject: [PATCH 12/64] fix: return copies of the cached polygons of paths

---
 gdspy/path.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index dcb1415..0bf3d8a 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -913,7 +913,9 @@ class FlexPath(object):
         if by_spec:
             return libcopy.deepcopy(self._polygon_dict)
         else:
-            return list(itertools.chain.from_iterable(self._polygon_dict.values()))
+            return libcopy.deepcopy(
+                list(itertools.chain.from_iterable(self._polygon_dict.values()))
+            )
 
     def to_polygonset(self):
         """
@@ -2167,7 +2169,9 @@ class RobustPath(object):
         if by_spec:
             return libcopy.deepcopy(self._polygon_dict)
         else:
-            return list(itertools.chain.from_iterable(self._polygon_dict.values()))
+            return libcopy.deepcopy(
+                list(itertools.chain.from_iterable(self._polygon_dict.values()))
+            )
 
     def to_polygonset(self):
         """
-- 
2.43.0


From c0296c7f18f790ce9696c54e3d4b17f55d08b667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 13/64] fix: apply array_trans after scaling in
 RobustPath.transform

---
 gdspy/path.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gdspy/path.py b/gdspy/path.py
index 0bf3d8a..b9fe595 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2532,6 +2532,9 @@ class RobustPath(object):
         """
         self._polygon_dict = None
         if array_trans is not None:
+            if scale is not None:
+                # array_trans is not scaled with the path
+                array_trans = array_trans / scale
             self.x = self.x + array_trans
             for path in self.paths:
                 for sub in path:
-- 
2.43.0


From affef3980f18a8929bd580123f966513478a853b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 14/64] fix: scale custom ends of RobustPath

---
 gdspy/path.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gdspy/path.py b/gdspy/path.py
index b9fe595..bdfe07c 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2496,6 +2496,10 @@ class RobustPath(object):
         if self.width_transform or not self.gdsii_path:
             self.widths = [wid * scale for wid in self.widths]
         self.offsets = [off * scale for off in self.offsets]
+        for i, end in enumerate(self.ends):
+            # CustomPlus created by bgnextn and endextn
+            if isinstance(end, tuple):
+                self.ends[i] = tuple([e * scale for e in end])
         for path in self.paths:
             for sub in path:
                 sub.scale(scale)
@@ -2551,6 +2555,10 @@ class RobustPath(object):
             if self.width_transform or not self.gdsii_path:
                 self.widths = [wid * scale for wid in self.widths]
             self.offsets = [off * scale for off in self.offsets]
+            for i, end in enumerate(self.ends):
+                # CustomPlus created by bgnextn and endextn
+                if isinstance(end, tuple):
+                    self.ends[i] = tuple([e * scale for e in end])
             for path in self.paths:
                 for sub in path:
                     sub.scale(scale)
-- 
2.43.0


From b874471a172ffe2bc73a64b3dbfc2abb0eac4b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 15/64] fix: write the absolute value of the width of reflected
 RobustPath

---
 gdspy/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index bdfe07c..d62c428 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2240,7 +2240,7 @@ class RobustPath(object):
                     pathtype,
                     8,
                     0x0F03,
-                    sign * int(round(self.widths[ii] * multiplier)),
+                    sign * int(round(abs(self.widths[ii]) * multiplier)),
                 )
             )
             if pathtype == 4:
-- 
2.43.0


From e76c32e446aed5e7ecc8e0c2fd65336024e5aada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 16/64] fix: round the coordinates in RobustPath.to_gds

---
 gdspy/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index d62c428..43c8876 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2327,7 +2327,7 @@ class RobustPath(object):
                         points.append(px)
                     start = 0
             points.extend(self.paths[ii][-1].points(start, 1, 0))
-            points = (numpy.array(points) * multiplier).astype(">i4")
+            points = numpy.round(numpy.array(points) * multiplier).astype(">i4")
             if points.shape[0] > 8191:
                 warnings.warn(
                     "[GDSPY] Paths with more than 8191 are not supported "
-- 
2.43.0


From 468f6a8eac2cec916d870d04b558ca4b553fb51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 17/64] fix: transform elements repeated in a cell only once

---
 gdspy/library.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index fb84672..0ec3c8c 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -234,9 +234,10 @@ class Cell(object):
             new_cell.references = list(self.references)
             return new_cell
 
-        new_cell.polygons = libcopy.deepcopy(self.polygons)
-        new_cell.paths = libcopy.deepcopy(self.paths)
-        new_cell.labels = libcopy.deepcopy(self.labels)
+        # Elements can be repeated: each occurrence gets its own copy
+        new_cell.polygons = [libcopy.deepcopy(poly) for poly in self.polygons]
+        new_cell.paths = [libcopy.deepcopy(path) for path in self.paths]
+        new_cell.labels = [libcopy.deepcopy(lbl) for lbl in self.labels]
         # Everything is copied but the referenced cells
         new_cell.references = [
             libcopy.deepcopy(ref, {id(ref.ref_cell): ref.ref_cell})
@@ -736,7 +737,7 @@ class Cell(object):
             List containing the polygons in this cell and its
             references.
         """
-        polys = libcopy.deepcopy(self.polygons)
+        polys = [libcopy.deepcopy(poly) for poly in self.polygons]
         if depth is None or depth > 0:
             for reference in self.references:
                 if depth is None:
@@ -761,7 +762,7 @@ class Cell(object):
         out : list of `FlexPath` or `RobustPath`
             List containing the paths in this cell and its references.
         """
-        paths = libcopy.deepcopy(self.paths)
+        paths = [libcopy.deepcopy(path) for path in self.paths]
         if depth is None or depth > 0:
             for reference in self.references:
                 if depth is None:
@@ -789,7 +790,7 @@ class Cell(object):
         out : list of `Label`
             List containing the labels in this cell and its references.
         """
-        labels = libcopy.deepcopy(self.labels)
+        labels = [libcopy.deepcopy(lbl) for lbl in self.labels]
         if depth is None or depth > 0:
             for reference in self.references:
                 if depth is None:
-- 
2.43.0


From 4e78f0fb36fded50dc1f3d68e7af8106fb53a71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 18/64] fix: leave the cell unchanged when Cell.add raises

---
 gdspy/library.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 0ec3c8c..63035ad 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -328,21 +328,26 @@ class Cell(object):
         elif isinstance(element, CellReference) or isinstance(element, CellArray):
             self.references.append(element)
         else:
+            polygons, paths, labels, references = [], [], [], []
             for e in element:
                 if isinstance(e, PolygonSet):
-                    self.polygons.append(e)
+                    polygons.append(e)
                 elif isinstance(e, RobustPath) or isinstance(e, FlexPath):
-                    self.paths.append(e)
+                    paths.append(e)
                 elif isinstance(e, Label):
-                    self.labels.append(e)
+                    labels.append(e)
                 elif isinstance(e, CellReference) or isinstance(e, CellArray):
-                    self.references.append(e)
+                    references.append(e)
                 else:
                     raise ValueError(
                         "[GDSPY] Only instances of `PolygonSet`, `FlexPath`, "
                         "`RobustPath`, `Label`, `CellReference`, and "
                         "`CellArray` can be added to `Cell`."
                     )
+            self.polygons.extend(polygons)
+            self.paths.extend(paths)
+            self.labels.extend(labels)
+            self.references.extend(references)
         return self
 
     def remove_polygons(self, test):
-- 
2.43.0


From c0a2fd0705d045347ed79ec5f5dba1859b5c1c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 19/64] fix: do not twist the ends of reflected RobustPath

---
 gdspy/path.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gdspy/path.py b/gdspy/path.py
index 43c8876..df51457 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2044,10 +2044,18 @@ class RobustPath(object):
                                     + r
                                     * numpy.vstack((numpy.cos(ang), numpy.sin(ang))).T
                                 )
+                                w = path[i](u, -arm) - p
+                                if v[0] * w[1] > v[1] * w[0]:
+                                    # Sides are exchanged in reflected paths
+                                    endpts = endpts[::-1]
                                 poly.extend(endpts)
                             else:
                                 v /= (v[0] ** 2 + v[1] ** 2) ** 0.5
                                 w = v[::-1] * _pmone
+                                x = path[i](u, -arm) - p
+                                if w[0] * x[0] + w[1] * x[1] < 0:
+                                    # Sides are exchanged in reflected paths
+                                    w = -w
                                 d = r if end == "extended" else end[u]
                                 poly.append(p + d * v + r * w)
                                 poly.append(p + d * v - r * w)
-- 
2.43.0


From 27d2265cb1f7c2c1892e96a7e597844ad1d47c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 20/64] fix: recalculate polygons of paths moved to other
 layers by Cell.flatten

---
 gdspy/library.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gdspy/library.py b/gdspy/library.py
index 63035ad..e87d920 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -874,6 +874,8 @@ class Cell(object):
                 poly.datatypes = [single_datatype] * len(poly.polygons)
             for path in self.paths:
                 path.datatypes = [single_datatype] * path.n
+        for path in self.paths:
+            path._polygon_dict = None
         self.references = []
         self._bb_valid = False
         return self
-- 
2.43.0


From fa98926b48e0c6b45819f4995b49a6697eb29060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 21/64] fix: keep positions of labels as arrays in Cell.copy

---
 gdspy/library.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index e87d920..d779efd 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -270,9 +270,11 @@ class Cell(object):
                 s0 = 1 if lbl.magnification is None else lbl.magnification
                 t0 = 0 if lbl.rotation is None else (lbl.rotation * numpy.pi / 180)
                 dx0, dy0 = lbl.position
-                lbl.position = (
-                    dx + s * (dx0 * ct - r * dy0 * st),
-                    dy + s * (dx0 * st + r * dy0 * ct),
+                lbl.position = numpy.array(
+                    (
+                        dx + s * (dx0 * ct - r * dy0 * st),
+                        dy + s * (dx0 * st + r * dy0 * ct),
+                    )
                 )
                 lbl.rotation = (r * t0 + t) * 180 / numpy.pi
                 if lbl.rotation == 0:
-- 
2.43.0


From f964378a8d9e39ec676b0f9798e5f36bec67b44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 22/64] fix: keep all bits of GDSII reals just below a power of
 16

---
 gdspy/gdsiiformat.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/gdspy/gdsiiformat.py b/gdspy/gdsiiformat.py
index 3747391..d3c41d4 100644
--- a/gdspy/gdsiiformat.py
+++ b/gdspy/gdsiiformat.py
@@ -145,10 +145,7 @@ def _eight_byte_real(value):
         value = -value
     else:
         byte1 = 0x00
-    fexp = numpy.log2(value) / 4
-    exponent = int(numpy.ceil(fexp))
-    if fexp == exponent:
-        exponent += 1
+    exponent = -(-int(numpy.frexp(value)[1]) // 4)
     mantissa = int(value * 16.0 ** (14 - exponent))
     byte1 += exponent + 64
     byte2 = mantissa // 281474976710656
-- 
2.43.0


From ab75ebb6ddebcafc70192de723b8a84e3ceb3c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 23/64] fix: read empty GDSII strings as empty strings

---
 gdspy/gdsiiformat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/gdsiiformat.py b/gdspy/gdsiiformat.py
index d3c41d4..0487c5d 100644
--- a/gdspy/gdsiiformat.py
+++ b/gdspy/gdsiiformat.py
@@ -59,7 +59,7 @@ def _record_reader(stream):
         size, rec_type = struct.unpack(">HH", header)
         data_type = rec_type & 0x00FF
         rec_type = rec_type // 256
-        data = None
+        data = "" if data_type == 0x06 else None
         if size > 4:
             if data_type == 0x01:
                 data = numpy.array(
-- 
2.43.0


From 1e3d98b17859859a3286051a9c4f0783c2d0c0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 24/64] fix: ignore a short padding at the end of files in
 gdsii_hash

---
 gdspy/gdsiiformat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/gdsiiformat.py b/gdspy/gdsiiformat.py
index 0487c5d..d130814 100644
--- a/gdspy/gdsiiformat.py
+++ b/gdspy/gdsiiformat.py
@@ -206,7 +206,7 @@ def gdsii_hash(filename, engine=None):
         data = fin.read()
     contents = []
     start = pos = 0
-    while pos < len(data):
+    while pos + 4 <= len(data):
         size, rec = struct.unpack(">HH", data[pos : pos + 4])
         if rec == 0x0502:
             start = pos + 28
-- 
2.43.0


From 03f111664f1baa67231f186e62da3f7a8d8b0d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 25/64] fix: read GDSII paths without a WIDTH record

---
 gdspy/library.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gdspy/library.py b/gdspy/library.py
index d779efd..5e8912a 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -2782,6 +2782,7 @@ class GdsLibrary(object):
             kwargs["ends"] = (kwargs.pop("bgnextn", 0), kwargs.pop("endextn", 0))
         kwargs["points"] = xy.reshape((xy.size // 2, 2))
         kwargs["gdsii_path"] = True
+        kwargs.setdefault("width", 0)
         return FlexPath(**kwargs)
 
     def _create_label(self, xy, width=None, width_transform=None, ends=None, **kwargs):
-- 
2.43.0


From e57a93d4778806f7a686679623ae8f889c3e12e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 26/64] fix: read GDSII path type 4 without extensions as
 custom ends

---
 gdspy/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 5e8912a..227c61a 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -2309,7 +2309,7 @@ class GdsLibrary(object):
     _import_anchors = [
         "nw", "n", "ne", "o", "w", "o", "e", "o", "sw", "s", "se", "o", "o", "o", "o", "o"
     ]
-    _pathtype_dict = {0: "flush", 1: "round", 2: "extended"}
+    _pathtype_dict = {0: "flush", 1: "round", 2: "extended", 4: (0, 0)}
 
     __slots__ = "name", "cells", "unit", "precision", "_references"
 
-- 
2.43.0


From 7929a705d36d2ba55c2bb12a06af330a493a81ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 27/64] fix: drop the properties of unsupported elements when
 reading GDSII

---
 gdspy/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 227c61a..7e90eee 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -2643,9 +2643,9 @@ class GdsLibrary(object):
                     el = create_element(**kwargs)
                     if len(properties) > 0:
                         el.properties = properties
-                        properties = {}
                     cell.add(el)
                     create_element = None
+                properties = {}
                 kwargs = {}
             # BOUNDARY
             elif record[0] == 0x08:
-- 
2.43.0


From 6266520e2a750f2edeb63a48e2978e6f4011c00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:14 +0000
Subject: [PATCH 28/64] fix: accept FlexPath in lists of operands

---
 gdspy/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/operation.py b/gdspy/operation.py
index ff5d351..f8f38f2 100644
--- a/gdspy/operation.py
+++ b/gdspy/operation.py
@@ -72,7 +72,7 @@ def _gather_polys(args):
             polys.extend(p.polygons)
         elif (
             isinstance(p, RobustPath)
-            or isinstance(args, FlexPath)
+            or isinstance(p, FlexPath)
             or isinstance(p, CellReference)
             or isinstance(p, CellArray)
         ):
-- 
2.43.0


From fd7043bd00392ddb9790638adfdfddf2b9c2013b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:14 +0000
Subject: [PATCH 29/64] fix: boolean operations with empty operands

---
 gdspy/operation.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/gdspy/operation.py b/gdspy/operation.py
index f8f38f2..65f00d0 100644
--- a/gdspy/operation.py
+++ b/gdspy/operation.py
@@ -250,12 +250,6 @@ def boolean(
     """
     poly1 = _gather_polys(operand1)
     poly2 = _gather_polys(operand2)
-    if len(poly2) == 0:
-        if operation in ["not", "xor"]:
-            if len(poly1) == 0:
-                return None
-            return PolygonSet(poly1, layer, datatype).fracture(max_points, precision)
-        poly2.append(poly1.pop())
     result = clipper.clip(poly1, poly2, operation, 1 / precision)
     if len(result) == 0:
         return None
-- 
2.43.0


From 768ac6ec44ff55187d9e61954342fc53a99796bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:15 +0000
Subject: [PATCH 30/64] fix: make sure that the cuts of fracture divide the
 polygon

---
 gdspy/polygon.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index ab37ab3..4435898 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -355,6 +355,10 @@ class PolygonSet(object):
                             pts0[int(i * len(pts0) / (ncuts + 1.0) + 0.5)]
                             for i in range(1, ncuts + 1)
                         ]
+                        # Cuts at the extremes do not divide the polygon
+                        cuts = [x for x in cuts if pts0[0] < x < pts0[-1]]
+                        if len(cuts) == 0:
+                            cuts.append(0.5 * (pts0[0] + pts0[-1]))
                         chopped = clipper._chop(
                             self.polygons[ii], cuts, 0, 1 / precision
                         )
@@ -364,6 +368,10 @@ class PolygonSet(object):
                             pts1[int(i * len(pts1) / (ncuts + 1.0) + 0.5)]
                             for i in range(1, ncuts + 1)
                         ]
+                        # Cuts at the extremes do not divide the polygon
+                        cuts = [x for x in cuts if pts1[0] < x < pts1[-1]]
+                        if len(cuts) == 0:
+                            cuts.append(0.5 * (pts1[0] + pts1[-1]))
                         chopped = clipper._chop(
                             self.polygons[ii], cuts, 1, 1 / precision
                         )
-- 
2.43.0


From b169a9c390bd01ddba4759f0c508b96c069dcb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:57 +0000
Subject: [PATCH 31/64] fix: inside with no polygons or empty groups of points

---
 gdspy/clipper.cpp  | 21 +++++++++++----------
 gdspy/operation.py |  2 +-
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index f5a599e..1a3b1c7 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -4882,6 +4882,13 @@ PyObject* build_polygon_tuple(Paths &polygons, double scaling)
 
 cInt bounding_box(Path& points, cInt* bb)
 {
+  if (points.empty())
+  {
+    // Empty: contains no point
+    bb[0] = bb[2] = 0;
+    bb[1] = bb[3] = -1;
+    return 0;
+  }
   bb[0] = points[0].X;
   bb[1] = points[0].X;
   bb[2] = points[0].Y;
@@ -5038,12 +5045,9 @@ static PyObject* inside(PyObject *self, PyObject *args)
   {
     // No short-circuit
     unsigned long numpoints = groups[0].size();
-    cInt all_bb[4];
+    cInt all_bb[4] = {0, -1, 0, -1};
 
-    all_bb[0] = polygons_bb[0][0];
-    all_bb[1] = polygons_bb[0][1];
-    all_bb[2] = polygons_bb[0][2];
-    all_bb[3] = polygons_bb[0][3];
+    for (unsigned long k = 0; k < 4 && numpolygons > 0; ++k) all_bb[k] = polygons_bb[0][k];
     for (unsigned long p = 1; p < numpolygons; ++p)
     {
       if (all_bb[0] > polygons_bb[p][0]) all_bb[0] = polygons_bb[p][0];
@@ -5092,12 +5096,9 @@ static PyObject* inside(PyObject *self, PyObject *args)
   else
   {
     // Short-circuit: ALL
-    cInt all_bb[4];
+    cInt all_bb[4] = {0, -1, 0, -1};
 
-    all_bb[0] = polygons_bb[0][0];
-    all_bb[1] = polygons_bb[0][1];
-    all_bb[2] = polygons_bb[0][2];
-    all_bb[3] = polygons_bb[0][3];
+    for (unsigned long k = 0; k < 4 && numpolygons > 0; ++k) all_bb[k] = polygons_bb[0][k];
     for (unsigned long p = 1; p < numpolygons; ++p)
     {
       if (all_bb[0] > polygons_bb[p][0]) all_bb[0] = polygons_bb[p][0];
diff --git a/gdspy/operation.py b/gdspy/operation.py
index 65f00d0..ca74d9d 100644
--- a/gdspy/operation.py
+++ b/gdspy/operation.py
@@ -284,7 +284,7 @@ def inside(points, polygons, short_circuit="any", precision=0.001):
         groups is inside the set of polygons.
     """
     polys = _gather_polys(polygons)
-    if numpy.isscalar(points[0][0]):
+    if len(points) > 0 and len(points[0]) > 0 and numpy.isscalar(points[0][0]):
         pts = (points,)
         sc = 0
     else:
-- 
2.43.0


From 7af3d22506582be96627c368ce86065e5e3a2eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:25 +0000
Subject: [PATCH 32/64] fix: shrink overlapping polygons one at a time in
 offset

---
 gdspy/clipper.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index 1a3b1c7..3e89699 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -4998,6 +4998,23 @@ static PyObject* offset(PyObject *self, PyObject *args)
     clprof_join.Execute(intermediate, 0);
     clprof.AddPaths(intermediate, jt, etClosedPolygon);
   }
+  else if (distance < 0)
+  {
+    // Shrink one polygon at a time: the corners removed from one must not be
+    // removed from those overlapping it
+    Paths shrunk;
+    Clipper clpr;
+    for (Paths::size_type i = 0; i < subj.size(); ++i)
+    {
+      clprof.Clear();
+      clprof.AddPath(subj[i], jt, etClosedPolygon);
+      clprof.Execute(shrunk, distance * scaling);
+      clpr.AddPaths(shrunk, ptSubject, true);
+    }
+    clpr.Execute(ctUnion, solution, pftNonZero, pftNonZero);
+    tree2paths(solution, result);
+    return build_polygon_tuple(result, scaling);
+  }
   else
   {
     clprof.AddPaths(subj, jt, etClosedPolygon);
-- 
2.43.0


From f77ed499aa94c9cda2e5487fa49502e979c476bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 33/64] fix: leave out unresolved references in SVG output

---
 gdspy/library.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 7e90eee..3d96285 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -1248,10 +1248,9 @@ class CellReference(object):
         precision : positive integer or `None`
             Maximal number of digits for coordinates after scaling.
         """
-        if isinstance(self.ref_cell, Cell):
-            name = self.ref_cell.name
-        else:
-            name = self.ref_cell
+        if not isinstance(self.ref_cell, Cell):
+            return
+        name = self.ref_cell.name
         transform = "translate({} {})".format(
             numpy.format_float_positional(
                 scaling * self.origin[0], trim="0", precision=precision
@@ -1826,10 +1825,9 @@ class CellArray(object):
         precision : positive integer or `None`
             Maximal number of digits for coordinates after scaling.
         """
-        if isinstance(self.ref_cell, Cell):
-            name = self.ref_cell.name
-        else:
-            name = self.ref_cell
+        if not isinstance(self.ref_cell, Cell):
+            return
+        name = self.ref_cell.name
         transform = "translate({} {})".format(
             numpy.format_float_positional(
                 scaling * self.origin[0], trim="0", precision=precision
-- 
2.43.0


From c240c8da5a7b32f237f8f7118034d8814175aa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:24 +0000
Subject: [PATCH 34/64] fix: final section of L1Path in the -y direction

---
 gdspy/polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index 4435898..5d5fdd8 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -2267,7 +2267,7 @@ class L1Path(PolygonSet):
                 d0 = (number_of_paths - 1) * distance * 0.5 - ii * distance
                 paths[ii][0].append((paths[ii][0][-1][0], self.y - length[-1]))
                 paths[ii][1].append((paths[ii][1][-1][0], self.y - length[-1]))
-            self.y -= length[jj]
+            self.y -= length[-1]
         self.direction = ["+x", "+y", "-x", "-y"][direction]
         self.polygons.extend(numpy.array(p[0] + p[1][::-1]) for p in paths)
         self.layers.extend(layer)
-- 
2.43.0


From c6af23e061952363eab08d60072424844dc7014f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:24 +0000
Subject: [PATCH 35/64] fix: update the end of L1Path when translated, scaled
 or mirrored

---
 gdspy/polygon.py | 79 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 79 insertions(+)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index 5d5fdd8..65081f0 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -2284,6 +2284,85 @@ class L1Path(PolygonSet):
             list(set(self.datatypes)),
         )
 
+    def translate(self, dx, dy):
+        """
+        Translate this object.
+
+        Parameters
+        ----------
+        dx : number
+            Distance to move in the x-direction.
+        dy : number
+            Distance to move in the y-direction.
+
+        Returns
+        -------
+        out : `L1Path`
+            This object.
+        """
+        super(L1Path, self).translate(dx, dy)
+        self.x += dx
+        self.y += dy
+        return self
+
+    def scale(self, scalex, scaley=None, center=(0, 0)):
+        """
+        Scale this object.
+
+        Parameters
+        ----------
+        scalex : number
+            Scaling factor along the first axis.
+        scaley : number or None
+            Scaling factor along the second axis.  If None, same as
+            `scalex`.
+        center : array-like[2]
+            Center point for the scaling operation.
+
+        Returns
+        -------
+        out : `L1Path`
+            This object.
+
+        Notes
+        -----
+        The direction of the path is not modified by this method.
+        """
+        super(L1Path, self).scale(scalex, scaley, center)
+        self.x = (self.x - center[0]) * scalex + center[0]
+        self.y = (self.y - center[1]) * (
+            scalex if scaley is None else scaley
+        ) + center[1]
+        return self
+
+    def mirror(self, p1, p2=(0, 0)):
+        """
+        Mirror the polygons over a line through points 1 and 2
+
+        Parameters
+        ----------
+        p1 : array-like[2]
+            first point defining the reflection line
+        p2 : array-like[2]
+            second point defining the reflection line
+
+        Returns
+        -------
+        out : `L1Path`
+            This object.
+        """
+        super(L1Path, self).mirror(p1, p2)
+        origin = numpy.array(p1)
+        vec = numpy.array(p2) - origin
+        vec_r = vec * (2 / numpy.inner(vec, vec))
+        dot = (self.x - origin[0]) * vec_r[0] + (self.y - origin[1]) * vec_r[1]
+        self.x = dot * vec[0] - self.x + 2 * origin[0]
+        self.y = dot * vec[1] - self.y + 2 * origin[1]
+        if isinstance(self.direction, basestring):
+            self.direction = _directions_dict[self.direction] * numpy.pi
+        self.direction = 2 * numpy.arctan2(vec[1], vec[0]) - self.direction
+        return self
+
     def rotate(self, angle, center=(0, 0)):
         """
         Rotate this object.
-- 
2.43.0


From 08a9c454d7bda21d3436363e0fcb10e970f95de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:24 +0000
Subject: [PATCH 36/64] fix: scale distance and length of Path

---
 gdspy/polygon.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index 65081f0..9d6bb87 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -1193,7 +1193,7 @@ class Path(PolygonSet):
         Notes
         -----
         The direction of the path is not modified by this method and
-        its width is scaled only by `scalex`.
+        its width, distance and length are scaled only by `scalex`.
         """
         c0 = numpy.array(center)
         s = scalex if scaley is None else numpy.array((scalex, scaley))
@@ -1201,6 +1201,8 @@ class Path(PolygonSet):
         self.x = (self.x - c0[0]) * scalex + c0[0]
         self.y = (self.y - c0[1]) * (scalex if scaley is None else scaley) + c0[1]
         self.w *= scalex
+        self.distance *= scalex
+        self.length *= abs(scalex)
         return self
 
     def mirror(self, p1, p2=(0, 0)):
-- 
2.43.0


From 04528b1efb9d8565a97e70bde74951323a506780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:24 +0000
Subject: [PATCH 37/64] fix: keep the side of parallel paths in arcs and
 parametric sections

---
 gdspy/polygon.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index 9d6bb87..2f60478 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -1413,6 +1413,8 @@ class Path(PolygonSet):
             self.direction = final_angle + numpy.pi * 0.5
         else:
             self.direction = final_angle - numpy.pi * 0.5
+        # Parallel paths are numbered from the left to the right side
+        side = 1 if final_angle > initial_angle else -1
         old_w = self.w
         old_distance = self.distance
         if final_width is not None:
@@ -1458,14 +1460,9 @@ class Path(PolygonSet):
             for jj in range(pieces):
                 for ii in range(self.n):
                     self.polygons.append(numpy.zeros((number_of_points, 2)))
-                    r0 = (
-                        radius
-                        + ii * distances[jj + 1]
-                        - (self.n - 1) * distances[jj + 1] * 0.5
-                    )
-                    old_r0 = (
-                        radius + ii * distances[jj] - (self.n - 1) * distances[jj] * 0.5
-                    )
+                    offset = side * (ii - (self.n - 1) * 0.5)
+                    r0 = radius + offset * distances[jj + 1]
+                    old_r0 = radius + offset * distances[jj]
                     pts2 = number_of_points // 2
                     pts1 = number_of_points - pts2
                     ang = numpy.linspace(angles[jj], angles[jj + 1], pts1)
@@ -1784,13 +1781,11 @@ class Path(PolygonSet):
         while i0 < np - 1:
             i1 = min(i0 + max_points, np)
             for ii in range(self.n):
-                p1 = x0[i0:i1] + dx[i0:i1] * (
-                    dist[i0:i1] * (ii - (self.n - 1) * 0.5) + width[i0:i1]
-                )
+                # Parallel paths are numbered from the left to the right side
+                offset = (self.n - 1) * 0.5 - ii
+                p1 = x0[i0:i1] + dx[i0:i1] * (dist[i0:i1] * offset + width[i0:i1])
                 p2 = (
-                    x0[i0:i1]
-                    + dx[i0:i1]
-                    * (dist[i0:i1] * (ii - (self.n - 1) * 0.5) - width[i0:i1])
+                    x0[i0:i1] + dx[i0:i1] * (dist[i0:i1] * offset - width[i0:i1])
                 )[::-1]
                 if width[i1 - 1, 0] == 0:
                     p2 = p2[1:]
-- 
2.43.0


From cbc2403fd5634eefe0cad15bad3d01c27b71cefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:39 +0000
Subject: [PATCH 38/64] fix: tolerance of arcs in paths with negative width or
 distance

---
 gdspy/polygon.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index 2f60478..76313df 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -1433,8 +1433,8 @@ class Path(PolygonSet):
         if number_of_points is None:
             r = (
                 radius
-                + max(old_distance, self.distance) * (self.n - 1) * 0.5
-                + max(old_w, self.w)
+                + max(abs(old_distance), abs(self.distance)) * (self.n - 1) * 0.5
+                + max(abs(old_w), abs(self.w))
             )
             number_of_points = max(
                 6,
-- 
2.43.0


From 1a47ba48a163794e83c7cae27e0a3d3bf32e4732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:39 +0000
Subject: [PATCH 39/64] fix: error message of fillet with the wrong number of
 radii

---
 gdspy/polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index 76313df..182b70e 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -436,7 +436,7 @@ class PolygonSet(object):
                             raise ValueError(
                                 "[GDSPY] Wrong length in fillet radius list.  "
                                 "Found {} radii for polygon with {} vertices.".format(
-                                    len(r), len(p.shape[0])
+                                    len(r), p.shape[0]
                                 )
                             )
                         radii.append(r)
-- 
2.43.0


From 06c08f8c0ac1df584fbb161bb5bfcf6700acd656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:04 +0000
Subject: [PATCH 40/64] fix: elliptical Round with angles beyond pi

---
 gdspy/polygon.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index 182b70e..1377d9c 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -729,10 +729,9 @@ class Round(PolygonSet):
             radius = max(radius)
 
             def outer_transform(a):
-                r = a - ((a + numpy.pi) % (2 * numpy.pi) - numpy.pi)
-                t = numpy.arctan2(orx * numpy.sin(a), ory * numpy.cos(a)) + r
-                t[a == numpy.pi] = numpy.pi
-                return t
+                # The transformed angle is in the same quadrant as the original
+                t = numpy.arctan2(orx * numpy.sin(a), ory * numpy.cos(a))
+                return t + 2 * numpy.pi * numpy.round((a - t) / (2 * numpy.pi))
 
         else:
             orx = ory = radius
@@ -745,10 +744,9 @@ class Round(PolygonSet):
             inner_radius = max(inner_radius)
 
             def inner_transform(a):
-                r = a - ((a + numpy.pi) % (2 * numpy.pi) - numpy.pi)
-                t = numpy.arctan2(irx * numpy.sin(a), iry * numpy.cos(a)) + r
-                t[a == numpy.pi] = numpy.pi
-                return t
+                # The transformed angle is in the same quadrant as the original
+                t = numpy.arctan2(irx * numpy.sin(a), iry * numpy.cos(a))
+                return t + 2 * numpy.pi * numpy.round((a - t) / (2 * numpy.pi))
 
         else:
             irx = iry = inner_radius
-- 
2.43.0


From e8f2f518151a1fe888680a40eeeac51f7db6bc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:04 +0000
Subject: [PATCH 41/64] fix: number of points in sections of elliptical Round

---
 gdspy/polygon.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index 1377d9c..b907e1e 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -768,7 +768,11 @@ class Round(PolygonSet):
             full_angle = (
                 2 * numpy.pi
                 if final_angle == initial_angle
-                else abs(final_angle - initial_angle)
+                else abs(
+                    numpy.diff(
+                        outer_transform(numpy.array((initial_angle, final_angle)))
+                    )[0]
+                )
             )
             number_of_points = max(
                 3,
-- 
2.43.0


From 62c585c74805b57afa28e8044c514ab28c6d28e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:48 +0000
Subject: [PATCH 42/64] fix: interpolation between two points without angles

---
 gdspy/hobby.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gdspy/hobby.py b/gdspy/hobby.py
index cb1923e..de5af63 100644
--- a/gdspy/hobby.py
+++ b/gdspy/hobby.py
@@ -210,7 +210,11 @@ def _hobby(points, angles=None, curl_start=1, curl_end=1, t_in=1, t_out=1, cycle
                 coef[2 * nn - 1] = phi[j - 1]
                 m[2 * nn - 1, nn - 1] = 0
                 m[2 * nn - 1, 2 * nn - 1] = 1
-            if nn > 1 or angles[i] is None or angles[j] is None:
+            if nn == 1 and angles[i] is None and angles[j] is None:
+                # Single segment with free ends: straight
+                theta[i] = 0
+                phi[i] = 0
+            elif nn > 1 or angles[i] is None or angles[j] is None:
                 # print("range:", i, j)
                 # print("A =", m)
                 # print("b =", coef)
-- 
2.43.0


From befd035fdca951b66bc191a0c6c9c83450a79b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:51 +0000
Subject: [PATCH 43/64] fix: rounded shapes and arcs smaller than the tolerance

---
 gdspy/curve.py   |  7 ++++++-
 gdspy/polygon.py | 10 ++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/gdspy/curve.py b/gdspy/curve.py
index 4559be9..0a76a97 100644
--- a/gdspy/curve.py
+++ b/gdspy/curve.py
@@ -275,7 +275,12 @@ class Curve(object):
         number_of_points = max(
             3,
             1
-            + int(0.5 * full_angle / numpy.arccos(1 - self.tol ** 0.5 / radius) + 0.5),
+            + int(
+                0.5
+                * full_angle
+                / numpy.arccos(max(-1, 1 - self.tol ** 0.5 / radius))
+                + 0.5
+            ),
         )
         angles = numpy.linspace(
             initial_angle - rotation, final_angle - rotation, number_of_points
diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index b907e1e..796b45c 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -776,7 +776,13 @@ class Round(PolygonSet):
             )
             number_of_points = max(
                 3,
-                1 + int(0.5 * full_angle / numpy.arccos(1 - tolerance / radius) + 0.5),
+                1
+                + int(
+                    0.5
+                    * full_angle
+                    / numpy.arccos(max(-1, 1 - tolerance / radius))
+                    + 0.5
+                ),
             )
             if inner_radius > 0:
                 number_of_points *= 2
@@ -1445,7 +1451,7 @@ class Path(PolygonSet):
                 * int(
                     0.5
                     * abs(final_angle - initial_angle)
-                    / numpy.arccos(1 - tolerance / r)
+                    / numpy.arccos(max(-1, 1 - tolerance / r))
                     + 0.5
                 ),
             )
-- 
2.43.0


From 60cf17c957dc44e0ddae201eb494b3ec4c4e7cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:51 +0000
Subject: [PATCH 44/64] fix: number of rows of FlexPath starting from a single
 point

---
 gdspy/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index df51457..1360f3a 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -330,8 +330,8 @@ class FlexPath(object):
         self.points = numpy.array(points)
         if self.points.shape == (2,):
             self.points.resize((1, 2))
-        self.widths = numpy.tile(self.widths, (len(points), 1))
-        self.offsets = numpy.tile(self.offsets, (len(points), 1))
+        self.widths = numpy.tile(self.widths, (len(self.points), 1))
+        self.offsets = numpy.tile(self.offsets, (len(self.points), 1))
         if isinstance(ends, list):
             self.ends = [ends[i % len(ends)] for i in range(self.n)]
         else:
-- 
2.43.0


From 2d74664c25543473e288ee47a7c7e616529a6567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:16 +0000
Subject: [PATCH 45/64] fix: round ends, joins and bends with radius near zero

---
 gdspy/path.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 1360f3a..d0cb678 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -49,6 +49,17 @@ _mpone = numpy.array((-1.0, 1.0))
 _pmone = numpy.array((1.0, -1.0))
 
 
+def _half_step(tolerance, radius):
+    """
+    Half of the angle between points in a circular arc, such that the
+    distance from their chord to the arc is equal to the tolerance.
+    """
+    radius = abs(radius)
+    if 2 * radius <= tolerance:
+        return numpy.pi
+    return numpy.arccos(1 - tolerance / radius)
+
+
 def _func_const(c, nargs=1):
     if nargs == 1:
         return lambda u: c
@@ -485,7 +496,7 @@ class FlexPath(object):
                                 5,
                                 1
                                 + int(
-                                    _halfpi / numpy.arccos(1 - self.tolerance / r) + 0.5
+                                    _halfpi / _half_step(self.tolerance, r) + 0.5
                                 ),
                             )
                             ang = numpy.linspace(_halfpi, -_halfpi, np) + numpy.arctan2(
@@ -500,7 +511,7 @@ class FlexPath(object):
                                 5,
                                 1
                                 + int(
-                                    _halfpi / numpy.arccos(1 - self.tolerance / r) + 0.5
+                                    _halfpi / _half_step(self.tolerance, r) + 0.5
                                 ),
                             )
                             ang = numpy.linspace(_halfpi, -_halfpi, np) + numpy.arctan2(
@@ -704,7 +715,7 @@ class FlexPath(object):
                                         2,
                                         1
                                         + int(
-                                            da / numpy.arccos(1 - self.tolerance / r)
+                                            da / _half_step(self.tolerance, r)
                                             + 0.5
                                         ),
                                     )
@@ -761,7 +772,7 @@ class FlexPath(object):
                                         + int(
                                             0.5
                                             * abs(a1 - a0)
-                                            / numpy.arccos(1 - self.tolerance / half_w)
+                                            / _half_step(self.tolerance, half_w)
                                             + 0.5
                                         ),
                                     )
@@ -844,7 +855,7 @@ class FlexPath(object):
                                     5,
                                     1
                                     + int(
-                                        _halfpi / numpy.arccos(1 - self.tolerance / r)
+                                        _halfpi / _half_step(self.tolerance, r)
                                         + 0.5
                                     ),
                                 )
@@ -1070,8 +1081,8 @@ class FlexPath(object):
                             1
                             + int(
                                 da
-                                / numpy.arccos(
-                                    1 - self.tolerance / (r + 0.5 * self.widths[0, ii])
+                                / _half_step(
+                                    self.tolerance, r + 0.5 * self.widths[0, ii]
                                 )
                                 + 0.5
                             ),
@@ -1416,7 +1427,7 @@ class FlexPath(object):
             + int(
                 0.5
                 * abs(final_angle - initial_angle)
-                / numpy.arccos(1 - self.tolerance / rmax)
+                / _half_step(self.tolerance, rmax)
                 + 0.5
             ),
         )
@@ -2032,7 +2043,7 @@ class RobustPath(object):
                                     5,
                                     1
                                     + int(
-                                        _halfpi / numpy.arccos(1 - self.tolerance / r)
+                                        _halfpi / _half_step(self.tolerance, r)
                                         + 0.5
                                     ),
                                 )
-- 
2.43.0


From dcd213f27b9a32f714e1ad89c1055a3d556b1b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:16 +0000
Subject: [PATCH 46/64] fix: scale the bend radii of FlexPath

---
 gdspy/path.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gdspy/path.py b/gdspy/path.py
index d0cb678..357749c 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -1257,6 +1257,7 @@ class FlexPath(object):
         if self.width_transform or not self.gdsii_path:
             self.widths = self.widths * scale
         self.offsets = self.offsets * scale
+        self.bend_radius = [r and r * scale for r in self.bend_radius]
         for i, end in enumerate(self.ends):
             # CustomPlus created by bgnextn and endextn
             if isinstance(end, tuple):
@@ -1309,6 +1310,7 @@ class FlexPath(object):
             if self.width_transform or not self.gdsii_path:
                 self.widths = self.widths * scale
             self.offsets = self.offsets * scale
+            self.bend_radius = [r and r * scale for r in self.bend_radius]
             for i, end in enumerate(self.ends):
                 # CustomPlus created by bgnextn and endextn
                 if isinstance(end, tuple):
-- 
2.43.0


From d8a454faaea427d89eb17bd860a0d296aff7f64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:16 +0000
Subject: [PATCH 47/64] fix: negative factors in FlexPath.scale

---
 gdspy/path.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gdspy/path.py b/gdspy/path.py
index 357749c..8513b16 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -1254,6 +1254,8 @@ class FlexPath(object):
         self._polygon_dict = None
         c0 = numpy.array(center) * (1 - scale)
         self.points = self.points * scale + c0
+        # Widths, offsets and lengths do not change sign with a half turn
+        scale = abs(scale)
         if self.width_transform or not self.gdsii_path:
             self.widths = self.widths * scale
         self.offsets = self.offsets * scale
-- 
2.43.0


From df6234398a9f69939c7db549566ca9f2d1c89e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:49 +0000
Subject: [PATCH 48/64] fix: FlexPath with no sections

---
 gdspy/path.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 8513b16..79b7482 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -415,13 +415,13 @@ class FlexPath(object):
             polygon, or dictionary with the list of polygons (if
             `by_spec` is True).
         """
+        if not (self.points != self.points[:1]).any():
+            return {} if by_spec else []
         if self._polygon_dict is None:
             self._polygon_dict = {}
             if self.points.shape[0] == 2:
                 # Common case: single path with 2 points
                 un = self.points[1] - self.points[0]
-                if un[0] == 0 and un[1] == 0:
-                    return {} if by_spec else []
                 un = un[::-1] * _mpone / (un[0] ** 2 + un[1] ** 2) ** 0.5
                 for kk in range(self.n):
                     end = self.ends[kk]
@@ -975,7 +975,9 @@ class FlexPath(object):
         if self.gdsii_path:
             sign = 1 if self.width_transform else -1
         else:
-            self.to_polygonset().to_gds(outfile, multiplier)
+            polygonset = self.to_polygonset()
+            if polygonset is not None:
+                polygonset.to_gds(outfile, multiplier)
             return
         un = self.points[1:] - self.points[:-1]
         un2 = un[:, 0] ** 2 + un[:, 1] ** 2
@@ -1185,7 +1187,10 @@ class FlexPath(object):
         out : number, dictionary
             Area of this object.
         """
-        return self.to_polygonset().area(by_spec)
+        polygonset = self.to_polygonset()
+        if polygonset is None:
+            return {} if by_spec else 0
+        return polygonset.area(by_spec)
 
     def translate(self, dx, dy):
         """
-- 
2.43.0


From da4b7a72094702d47defbe1ce9e68489c6ba33a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:05 +0000
Subject: [PATCH 49/64] fix: fracture of FlexPath and RobustPath never ended
 for some outlines

---
 gdspy/path.py | 115 +++++++-------------------------------------------
 1 file changed, 15 insertions(+), 100 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 79b7482..42c2c69 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -37,7 +37,6 @@ import warnings
 import itertools
 import struct
 
-from gdspy import clipper
 from gdspy.hobby import _hobby
 from gdspy.polygon import PolygonSet
 
@@ -552,39 +551,11 @@ class FlexPath(object):
                                         poly[3],
                                     )
                                 )
-                    polygons = [poly]
-                    if self.max_points > 4 and poly.shape[0] > self.max_points:
-                        ii = 0
-                        while ii < len(polygons):
-                            if len(polygons[ii]) > self.max_points:
-                                pts0 = sorted(polygons[ii][:, 0])
-                                pts1 = sorted(polygons[ii][:, 1])
-                                ncuts = len(pts0) // self.max_points
-                                if pts0[-1] - pts0[0] > pts1[-1] - pts1[0]:
-                                    # Vertical cuts
-                                    cuts = [
-                                        pts0[int(i * len(pts0) / (ncuts + 1.0) + 0.5)]
-                                        for i in range(1, ncuts + 1)
-                                    ]
-                                    chopped = clipper._chop(
-                                        polygons[ii], cuts, 0, 1 / self.precision
-                                    )
-                                else:
-                                    # Horizontal cuts
-                                    cuts = [
-                                        pts1[int(i * len(pts1) / (ncuts + 1.0) + 0.5)]
-                                        for i in range(1, ncuts + 1)
-                                    ]
-                                    chopped = clipper._chop(
-                                        polygons[ii], cuts, 1, 1 / self.precision
-                                    )
-                                polygons.pop(ii)
-                                polygons.extend(
-                                    numpy.array(x)
-                                    for x in itertools.chain.from_iterable(chopped)
-                                )
-                            else:
-                                ii += 1
+                    polygons = (
+                        PolygonSet([poly])
+                        .fracture(self.max_points, self.precision)
+                        .polygons
+                    )
                     key = (self.layers[kk], self.datatypes[kk])
                     if key in self._polygon_dict:
                         self._polygon_dict[key].extend(polygons)
@@ -883,39 +854,11 @@ class FlexPath(object):
                     poly.extend(arms[0])
                     poly.extend(caps[1])
                     poly.extend(arms[1][::-1])
-                    polygons = [numpy.array(poly)]
-                    if self.max_points > 4 and polygons[0].shape[0] > self.max_points:
-                        ii = 0
-                        while ii < len(polygons):
-                            if len(polygons[ii]) > self.max_points:
-                                pts0 = sorted(polygons[ii][:, 0])
-                                pts1 = sorted(polygons[ii][:, 1])
-                                ncuts = len(pts0) // self.max_points
-                                if pts0[-1] - pts0[0] > pts1[-1] - pts1[0]:
-                                    # Vertical cuts
-                                    cuts = [
-                                        pts0[int(i * len(pts0) / (ncuts + 1.0) + 0.5)]
-                                        for i in range(1, ncuts + 1)
-                                    ]
-                                    chopped = clipper._chop(
-                                        polygons[ii], cuts, 0, 1 / self.precision
-                                    )
-                                else:
-                                    # Horizontal cuts
-                                    cuts = [
-                                        pts1[int(i * len(pts1) / (ncuts + 1.0) + 0.5)]
-                                        for i in range(1, ncuts + 1)
-                                    ]
-                                    chopped = clipper._chop(
-                                        polygons[ii], cuts, 1, 1 / self.precision
-                                    )
-                                polygons.pop(ii)
-                                polygons.extend(
-                                    numpy.array(x)
-                                    for x in itertools.chain.from_iterable(chopped)
-                                )
-                            else:
-                                ii += 1
+                    polygons = (
+                        PolygonSet([poly])
+                        .fracture(self.max_points, self.precision)
+                        .polygons
+                    )
                     key = (self.layers[kk], self.datatypes[kk])
                     if key in self._polygon_dict:
                         self._polygon_dict[key].extend(polygons)
@@ -2156,39 +2099,11 @@ class RobustPath(object):
                             start = 0
                     path_arm.extend(path[-1].points(start, 1, arm))
                     poly.extend(path_arm[::arm])
-                polygons = [numpy.array(poly)]
-                if self.max_points > 4 and polygons[0].shape[0] > self.max_points:
-                    ii = 0
-                    while ii < len(polygons):
-                        if len(polygons[ii]) > self.max_points:
-                            pts0 = sorted(polygons[ii][:, 0])
-                            pts1 = sorted(polygons[ii][:, 1])
-                            ncuts = len(pts0) // self.max_points
-                            if pts0[-1] - pts0[0] > pts1[-1] - pts1[0]:
-                                # Vertical cuts
-                                cuts = [
-                                    pts0[int(i * len(pts0) / (ncuts + 1.0) + 0.5)]
-                                    for i in range(1, ncuts + 1)
-                                ]
-                                chopped = clipper._chop(
-                                    polygons[ii], cuts, 0, 1 / self.precision
-                                )
-                            else:
-                                # Horizontal cuts
-                                cuts = [
-                                    pts1[int(i * len(pts1) / (ncuts + 1.0) + 0.5)]
-                                    for i in range(1, ncuts + 1)
-                                ]
-                                chopped = clipper._chop(
-                                    polygons[ii], cuts, 1, 1 / self.precision
-                                )
-                            polygons.pop(ii)
-                            polygons.extend(
-                                numpy.array(x)
-                                for x in itertools.chain.from_iterable(chopped)
-                            )
-                        else:
-                            ii += 1
+                polygons = (
+                    PolygonSet([poly])
+                    .fracture(self.max_points, self.precision)
+                    .polygons
+                )
                 key = (layer, datatype)
                 if key in self._polygon_dict:
                     self._polygon_dict[key].extend(polygons)
-- 
2.43.0


From 95d2cba21e4a5a69d1aa4baf74328e8e58e5a065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:34 +0000
Subject: [PATCH 50/64] fix: smooth corners of tapering FlexPath

---
 gdspy/path.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 42c2c69..8c74a69 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -722,7 +722,14 @@ class FlexPath(object):
                                     arms[ii].append(p)
                                 elif u0 <= 0 and u1 >= 0:
                                     arms[ii].append(p)
-                                elif corner == "bevel":
+                                elif corner == "bevel" or (
+                                    # The curve needs a step forward
+                                    corner == "smooth"
+                                    and (
+                                        numpy.dot(p1 - p0, v0) <= 0
+                                        or numpy.dot(p1 - p0, v1) <= 0
+                                    )
+                                ):
                                     arms[ii].append(p0)
                                     arms[ii].append(p1)
                                 elif corner == "round":
-- 
2.43.0


From 0104a122bc03b96b641b64f9a9dd1943a5a96c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:46 +0000
Subject: [PATCH 51/64] fix: tolerance of FlexPath arcs with negative offsets

---
 gdspy/path.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 8c74a69..310ac95 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -1378,7 +1378,8 @@ class FlexPath(object):
         else:
             off = self.offsets[-1] + offset
         rmax = radius + max(
-            (self.offsets[-1] + self.widths[-1]).max(), (off + wid).max()
+            (numpy.abs(self.offsets[-1]) + self.widths[-1]).max(),
+            (numpy.abs(off) + wid).max(),
         )
         np = max(
             3,
-- 
2.43.0


From 92d9b1303f21e654fd963282d513cce4ee26ef73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:27 +0000
Subject: [PATCH 52/64] fix: holes that touch a horizontal edge of their
 outline

---
 gdspy/clipper.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index 3e89699..e722e78 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -4782,12 +4782,14 @@ void link_holes(PolyNode *node, Paths &out)
         {
           xnew = x;
           p1 = pnext;
-        } else if ((pnext->Y == p->Y && pprev->Y == p->Y) && ((pnext->X <= p->X && p->X <= pprev->X) || (pprev->X <= p->X && p->X <= pnext->X))) {
-          xnew = p->X;
-          p1 = pnext;
-          break;
         }
       }
+      else if ((pnext->Y == p->Y && pprev->Y == p->Y) && ((pnext->X <= p->X && p->X <= pprev->X) || (pprev->X <= p->X && p->X <= pnext->X)))
+      {
+        xnew = p->X;
+        p1 = pnext;
+        break;
+      }
     }
 
     IntPoint pnew(xnew, p->Y);
-- 
2.43.0


From fb883735c3c05c752ee0ec908b392cd599397758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:51 +0000
Subject: [PATCH 53/64] fix: holes that poke out of their outline by rounding

---
 gdspy/clipper.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index e722e78..30d6e09 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -4793,6 +4793,21 @@ void link_holes(PolyNode *node, Paths &out)
     }
 
     IntPoint pnew(xnew, p->Y);
+    if (p1 == result.end())
+    {
+      // because of rounding, the hole lies to the left of its parent: link it to the closest vertex
+      double dmin = -1;
+      for (pnext = result.begin(); pnext != result.end(); ++pnext)
+      {
+        double dx = (double)(pnext->X - p->X), dy = (double)(pnext->Y - p->Y), d = dx * dx + dy * dy;
+        if (dmin < 0 || d < dmin)
+        {
+          dmin = d;
+          p1 = pnext;
+        }
+      }
+      pnew = *p1;
+    }
     if (pnew.X != p1->X || pnew.Y != p1->Y) result.insert(p1, pnew);
     result.insert(p1, h->begin(), p+1);
     result.insert(p1, p, h->end());
-- 
2.43.0


From ded98c173e51841006bf2a5f5e4792529ea65186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:06 +0000
Subject: [PATCH 54/64] fix: RobustPath changed the lists of widths and offsets
 given

---
 gdspy/path.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 310ac95..bd9964f 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -1801,9 +1801,9 @@ class RobustPath(object):
         self._polygon_dict = None
         if isinstance(width, list):
             self.n = len(width)
-            self.widths = width
+            self.widths = list(width)
             if isinstance(offset, list):
-                self.offsets = offset
+                self.offsets = list(offset)
             else:
                 self.offsets = [
                     (i - 0.5 * (self.n - 1)) * offset for i in range(self.n)
@@ -1811,7 +1811,7 @@ class RobustPath(object):
         else:
             if isinstance(offset, list):
                 self.n = len(offset)
-                self.offsets = offset
+                self.offsets = list(offset)
             else:
                 self.n = 1
                 self.offsets = [offset]
-- 
2.43.0


From 74d78d971ca9994d97297dd3a8146a1fb52bca24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:06 +0000
Subject: [PATCH 55/64] fix: RobustPath with no sections

---
 gdspy/path.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index bd9964f..93d4729 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -1960,6 +1960,8 @@ class RobustPath(object):
         """
         if self._polygon_dict is None:
             self._polygon_dict = {}
+            if len(self.paths[0]) == 0:
+                return {} if by_spec else []
             for path, end, layer, datatype in zip(
                 self.paths, self.ends, self.layers, self.datatypes
             ):
@@ -2366,7 +2368,10 @@ class RobustPath(object):
         out : number, dictionary
             Area of this object.
         """
-        return self.to_polygonset().area(by_spec)
+        path_area = self.to_polygonset()
+        if path_area is None:
+            return {} if by_spec else 0
+        return path_area.area(by_spec)
 
     def translate(self, dx, dy):
         """
-- 
2.43.0


From 141af0cb99baf71544899a3fa308c145304a6814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:06 +0000
Subject: [PATCH 56/64] fix: negative factors in RobustPath.scale

---
 gdspy/path.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 93d4729..b0daec1 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2450,12 +2450,12 @@ class RobustPath(object):
         c0 = numpy.array(center) * (1 - scale)
         self.x = self.x * scale + c0
         if self.width_transform or not self.gdsii_path:
-            self.widths = [wid * scale for wid in self.widths]
-        self.offsets = [off * scale for off in self.offsets]
+            self.widths = [wid * abs(scale) for wid in self.widths]
+        self.offsets = [off * abs(scale) for off in self.offsets]
         for i, end in enumerate(self.ends):
             # CustomPlus created by bgnextn and endextn
             if isinstance(end, tuple):
-                self.ends[i] = tuple([e * scale for e in end])
+                self.ends[i] = tuple([e * abs(scale) for e in end])
         for path in self.paths:
             for sub in path:
                 sub.scale(scale)
-- 
2.43.0


From f530c5353552c8475e2f4c56c938fb3bb87dbdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:14 +0000
Subject: [PATCH 57/64] fix: direction of turns of RobustPath

---
 gdspy/path.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index b0daec1..0bb360f 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2715,11 +2715,15 @@ class RobustPath(object):
                 "empty RobustPath."
             )
         angle = _angle_dict.get(angle, angle)
-        initial_angle = 0
-        for p in self.paths:
-            v = p[i].grad(1, 0, False)
-            initial_angle += numpy.arctan2(v[1], v[0])
-        initial_angle = initial_angle / len(self.paths) + (
+        v0 = self.paths[0][i].grad(1, 0)
+        initial_angle = numpy.arctan2(v0[1], v0[0])
+        for p in self.paths[1:]:
+            # Angles with respect to the first path, which do not wrap around
+            v = p[i].grad(1, 0)
+            initial_angle += numpy.arctan2(
+                v0[0] * v[1] - v0[1] * v[0], v0[0] * v[0] + v0[1] * v[1]
+            ) / len(self.paths)
+        initial_angle += (
             _halfpi if angle < 0 else -_halfpi
         )
         self.arc(radius, initial_angle, initial_angle + angle, width, offset)
-- 
2.43.0


From fdf18fefb8c4a99466680f97ec3ebf4f25314c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:14 +0000
Subject: [PATCH 58/64] fix: Numpy scalars as widths and offsets of RobustPath

---
 gdspy/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 0bb360f..0318fb0 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2535,7 +2535,7 @@ class RobustPath(object):
     def _parse_offset(self, arg, idx):
         if arg is None:
             return _func_const(self.offsets[idx])
-        elif hasattr(arg, "__getitem__"):
+        elif hasattr(arg, "__len__"):
             if callable(arg[idx]):
                 return arg[idx]
             return _func_linear(self.offsets[idx], arg[idx])
@@ -2552,7 +2552,7 @@ class RobustPath(object):
                     stacklevel=3,
                 )
             return _func_const(self.widths[idx])
-        elif hasattr(arg, "__getitem__"):
+        elif hasattr(arg, "__len__"):
             if callable(arg[idx]):
                 return arg[idx]
             return _func_linear(self.widths[idx], arg[idx])
-- 
2.43.0


From 675278617c42e6e331035f9c8f8a6f47f9367d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:14 +0000
Subject: [PATCH 59/64] fix: widths of sections added to reflected RobustPath

---
 gdspy/path.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 0318fb0..9b4480c 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -75,6 +75,10 @@ def _func_offset(f, a):
     return lambda u: f(u) + a
 
 
+def _func_scaled(f, a):
+    return lambda u: f(u) * a
+
+
 def _func_bezier(ctrl, nargs=1):
     if nargs == 1:
 
@@ -2501,11 +2505,12 @@ class RobustPath(object):
                     sub.translate(array_trans)
         if x_reflection:
             self.x = numpy.array((self.x[0], -self.x[1]))
-            self.widths = [wid * -1 for wid in self.widths]
             self.offsets = [off * -1 for off in self.offsets]
             for path in self.paths:
                 for sub in path:
                     sub.scale(1, -1)
+                    # Keep the boundaries on their sides
+                    sub.wid = _func_scaled(sub.wid, -1)
         if scale is not None:
             self.x = self.x * scale
             if self.width_transform or not self.gdsii_path:
-- 
2.43.0


From d6077fd190161687566fa11b518450a4280ab255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:14 +0000
Subject: [PATCH 60/64] fix: keep the width of GDSII RobustPath that should not
 scale

---
 gdspy/path.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gdspy/path.py b/gdspy/path.py
index 9b4480c..5496e6c 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2464,6 +2464,8 @@ class RobustPath(object):
             for sub in path:
                 sub.scale(scale)
                 sub.translate(c0)
+                if self.gdsii_path and not self.width_transform:
+                    sub.wid = _func_scaled(sub.wid, 1 / abs(scale))
         return self
 
     def transform(self, translation, rotation, scale, x_reflection, array_trans=None):
@@ -2523,6 +2525,8 @@ class RobustPath(object):
             for path in self.paths:
                 for sub in path:
                     sub.scale(scale)
+                    if self.gdsii_path and not self.width_transform:
+                        sub.wid = _func_scaled(sub.wid, 1 / abs(scale))
         if rotation is not None:
             ca = numpy.cos(rotation)
             sa = numpy.sin(rotation) * _mpone
-- 
2.43.0


From 1e27dbdf72f88c4738a8d90d5d95a4035eed4c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:10 +0000
Subject: [PATCH 61/64] fix: viewers keep their own list of hidden layers

---
 gdspy/viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/viewer.py b/gdspy/viewer.py
index c9bd6fa..5edb14e 100644
--- a/gdspy/viewer.py
+++ b/gdspy/viewer.py
@@ -219,7 +219,7 @@ class LayoutViewer(tkinter.Frame):
         self.depth = tkinter.IntVar()
         self.depth.set(depth)
 
-        self.hidden_layers = hidden_types
+        self.hidden_layers = [tuple(i) for i in hidden_types]
 
         self.color = ColorDict(color.get("default", None))
         self.color.update(color)
-- 
2.43.0


From 18f38d6d80af1b198d5ee61a3412c127e14f00f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:10 +0000
Subject: [PATCH 62/64] fix: In and Out buttons of the viewer when nothing is
 visible

---
 gdspy/viewer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gdspy/viewer.py b/gdspy/viewer.py
index 5edb14e..f59c6df 100644
--- a/gdspy/viewer.py
+++ b/gdspy/viewer.py
@@ -885,6 +885,8 @@ class LayoutViewer(tkinter.Frame):
         self.canvas.x_rl *= s
         self.canvas.y_rl *= s
         bb = self.canvas.bbox(tkinter.ALL)
+        if bb is None:
+            return
         w = (bb[2] - bb[0]) * 1.2
         h = (bb[3] - bb[1]) * 1.2
         bb = (bb[0] - w, bb[1] - h, bb[2] + w, bb[3] + h)
@@ -909,6 +911,8 @@ class LayoutViewer(tkinter.Frame):
         self.canvas.x_rl *= s
         self.canvas.y_rl *= s
         bb = self.canvas.bbox(tkinter.ALL)
+        if bb is None:
+            return
         w = (bb[2] - bb[0]) * 1.2
         h = (bb[3] - bb[1]) * 1.2
         bb = (bb[0] - w, bb[1] - h, bb[2] + w, bb[3] + h)
-- 
2.43.0


From 26115bf04ea78f2aecd98a5a184f80aec5b30b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:10 +0000
Subject: [PATCH 63/64] fix: In and Out buttons of the viewer keep the centre
 of the view

---
 gdspy/viewer.py | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/gdspy/viewer.py b/gdspy/viewer.py
index f59c6df..bad914f 100644
--- a/gdspy/viewer.py
+++ b/gdspy/viewer.py
@@ -881,6 +881,10 @@ class LayoutViewer(tkinter.Frame):
     def _zoom_in(self):
         s = 1.5
         self.scale /= s
+        x0 = 0.5 * self.canvas.winfo_width()
+        y0 = 0.5 * self.canvas.winfo_height()
+        x0 = s * self.canvas.canvasx(x0) - x0
+        y0 = s * self.canvas.canvasy(y0) - y0
         self.canvas.scale(tkinter.ALL, 0, 0, s, s)
         self.canvas.x_rl *= s
         self.canvas.y_rl *= s
@@ -891,22 +895,16 @@ class LayoutViewer(tkinter.Frame):
         h = (bb[3] - bb[1]) * 1.2
         bb = (bb[0] - w, bb[1] - h, bb[2] + w, bb[3] + h)
         self.canvas["scrollregion"] = bb
-        x0 = self.xscroll.get()
-        x0 = 0.5 * (x0[1] + x0[0]) - 0.5 * (
-            (float(self.canvas.winfo_width()) - self.canvas_margins[0])
-            / (bb[2] - bb[0])
-        )
-        y0 = self.yscroll.get()
-        y0 = 0.5 * (y0[1] + y0[0]) - 0.5 * (
-            (float(self.canvas.winfo_height()) - self.canvas_margins[1])
-            / (bb[3] - bb[1])
-        )
-        self.canvas.xview(tkinter.MOVETO, x0)
-        self.canvas.yview(tkinter.MOVETO, y0)
+        self.canvas.xview(tkinter.MOVETO, (x0 - bb[0]) / (bb[2] - bb[0]))
+        self.canvas.yview(tkinter.MOVETO, (y0 - bb[1]) / (bb[3] - bb[1]))
 
     def _zoom_out(self):
         s = 1 / 1.5
         self.scale /= s
+        x0 = 0.5 * self.canvas.winfo_width()
+        y0 = 0.5 * self.canvas.winfo_height()
+        x0 = s * self.canvas.canvasx(x0) - x0
+        y0 = s * self.canvas.canvasy(y0) - y0
         self.canvas.scale(tkinter.ALL, 0, 0, s, s)
         self.canvas.x_rl *= s
         self.canvas.y_rl *= s
@@ -917,18 +915,8 @@ class LayoutViewer(tkinter.Frame):
         h = (bb[3] - bb[1]) * 1.2
         bb = (bb[0] - w, bb[1] - h, bb[2] + w, bb[3] + h)
         self.canvas["scrollregion"] = bb
-        x0 = self.xscroll.get()
-        x0 = 0.5 * (x0[1] + x0[0]) - 0.5 * (
-            (float(self.canvas.winfo_width()) - self.canvas_margins[0])
-            / (bb[2] - bb[0])
-        )
-        y0 = self.yscroll.get()
-        y0 = 0.5 * (y0[1] + y0[0]) - 0.5 * (
-            (float(self.canvas.winfo_height()) - self.canvas_margins[1])
-            / (bb[3] - bb[1])
-        )
-        self.canvas.xview(tkinter.MOVETO, x0)
-        self.canvas.yview(tkinter.MOVETO, y0)
+        self.canvas.xview(tkinter.MOVETO, (x0 - bb[0]) / (bb[2] - bb[0]))
+        self.canvas.yview(tkinter.MOVETO, (y0 - bb[1]) / (bb[3] - bb[1]))
 
     def _zoom_rect_mark(self, evt):
         self.canvas.x_zr = float(self.canvas.canvasx(evt.x))
-- 
2.43.0


From 238fc8b2a2d18eb2eed4318b080d1519d6925852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:02 +0000
Subject: [PATCH 64/64] fix: extents of the viewer after a change of depth

---
 gdspy/viewer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gdspy/viewer.py b/gdspy/viewer.py
index bad914f..f1b0cb9 100644
--- a/gdspy/viewer.py
+++ b/gdspy/viewer.py
@@ -402,6 +402,7 @@ class LayoutViewer(tkinter.Frame):
         if d != self.shown_depth:
             self.shown_cell = self.current_cell.get()
             self.shown_depth = d
+            self.cell_bb = dict([(s, None) for s in self.cells])
             self._update_data()
 
     def _update_canvas(self, *args):
-- 
2.43.0

