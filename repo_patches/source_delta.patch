From f63e56a8b4530b368337d00633798b9a274c8423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:54 +0000
Subject: [PATCH 01/53] fix: angle between (nearly) parallel segments no longer
 raises math domain error

---
 geometry/SR_line.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index 60ff6ea..4e2b9ca 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -517,7 +517,8 @@ class LineSegment(object):
         assert other.isvalid
 
         # return atan2(norm(self.cross_product(other)), self.dot_product(other))
-        _ret = degrees(acos(self.dotproduct(other) / (self.norm * other.norm)))
+        _cos = self.dotproduct(other) / (self.norm * other.norm)
+        _ret = degrees(acos(max(-1., min(1., _cos))))  # rounding may yield a value slightly outside of [-1, 1]
         return _ret
 
     def angle_from_start_point(self, p=EMPTY):
-- 
2.43.0


From 140ac53615ea935b81609852d44b9d1fb970cbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:56 +0000
Subject: [PATCH 02/53] fix: opposite_direction tolerates rounding of the
 directions

---
 geometry/SR_line.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index 4e2b9ca..ec9ce9e 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -229,7 +229,8 @@ class LineSegment(object):
         """
         assert other.isvalid
 
-        if (self.direction + 180) % 360 == other.direction:
+        # the directions are rounded individually, an exact comparison would miss even a segment and its reverse
+        if abs((self.direction - other.direction) % 360 - 180) < EPS * 1e3:
             return True
         else:
             return False
-- 
2.43.0


From db1923d5d77936484a281bd6a9fd6fd21c123c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:50 +0000
Subject: [PATCH 03/53] fix: parallel segments with decimal coordinates are
 recognised as parallel

---
 geometry/SR_line.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index ec9ce9e..d9deb59 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -242,7 +242,9 @@ class LineSegment(object):
         """
         assert other.isvalid
 
-        if self.crossproduct(other) == 0:
+        # the sine of the angle between the segments is compared with EPS: differences of decimal coordinates carry
+        # rounding errors, an exact comparison with zero would miss parallel segments like these
+        if abs(self.crossproduct(other)) <= EPS * self.norm * other.norm:
             return True
         else:
             return False
-- 
2.43.0


From 8edfa061c40ed348040d9d989bc2e2bcd66cff9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:53 +0000
Subject: [PATCH 04/53] fix: overlapping segments with a common end point are
 recognised despite rounded directions

---
 geometry/SR_line.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index d9deb59..6e70708 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -344,7 +344,7 @@ class LineSegment(object):
             # two linesegments are created. since these are collinear, if their direction is the same: there is overlap
             l1 = LineSegment(cp, otherpoints[0])
             l2 = LineSegment(cp, otherpoints[1])
-            if l1.direction == l2.direction:  # the two segments are in the same direction and cp is common point
+            if l1.dotproduct(l2) > 0:  # the two segments are in the same direction and cp is common point
                 # print('overlapping segment')
                 return True, sorted([l1, l2], key=lambda x: x.norm)[0]
             else:
-- 
2.43.0


From a9677a56679a29240ceaac3e43a205098663e592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:22 +0000
Subject: [PATCH 05/53] fix: motions move every point of a polygon line exactly
 once, whatever was appended after purging

---
 geometry/SR_polygon.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 7bc403f..3676090 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -308,6 +308,11 @@ class PolygonLine(object):
         return sorted(list(set(self.all_points)), key=lambda z: (z.x, z.y))
         # return sorted(list(set(itertools.chain(*[s.ij for s in self.segments]))), key=lambda z: (z.x, z.y))
 
+    @property
+    def _point_objects(self):
+        """ All distinct Point objects. These are to be transformed once each, even if some of them are equal """
+        return list({id(p): p for p in itertools.chain(*[s.ij for s in self.segments])}.values())
+
     @property
     def crossing_lines(self):
         """ gives a list of tuples of lines that cross each other """
@@ -565,7 +570,7 @@ class PolygonLine(object):
         _cp = math.cos(math.radians(phi))  # sin(phi) shorthand
         _sp = math.sin(math.radians(phi))  # cos(phi) shorthand
         self.purge()
-        for _p in self.point_set:
+        for _p in self._point_objects:
             _c = (_p.x * _cp - _p.y * _sp, _p.x * _sp + _p.y * _cp)  # "exact values"
             _c = tuple([round(x, int(PRECISION)) for x in _c])  # rounding to "PRRECISION" number of decimals
             _p._set_coords(coords=_c)
@@ -573,7 +578,7 @@ class PolygonLine(object):
     def mirror_vertical(self, x0):
         """ Mirrors the segment on a vertical line located at x0 """
         self.purge()
-        for _p in self.point_set:
+        for _p in self._point_objects:
             _p._set_coords(coords=(_p.x - 2 * (_p.x - x0), _p.y))
 
     def move(self, x0=None, y0=None):
@@ -581,7 +586,7 @@ class PolygonLine(object):
         self.purge()
         # for s in self._segments:
         #     s.move(x0=x0, y0=y0)
-        for _p in self.point_set:
+        for _p in self._point_objects:
             _p._set_coords(coords=(_p.x + x0, _p.y + y0))
 
     def rotate_about_xy(self, x0=None, y0=None, phi=None):
-- 
2.43.0


From 945b8b365e4d586e30c7b7592b78c4f356ca128f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:24 +0000
Subject: [PATCH 06/53] fix: ordered_copy returns the ordered copy

---
 geometry/SR_polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 3676090..7465a6c 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -186,7 +186,7 @@ class PolygonLine(object):
     def ordered_copy(self):
         import copy
         _ = copy.deepcopy(self)
-        return _.order()
+        return _ if _.order() else False
 
     def order(self):
         """
-- 
2.43.0


From bb54627ecc2b9cb00b425475dea086261f485569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:24 +0000
Subject: [PATCH 07/53] fix: polygons with more than 250 segments can be
 ordered

---
 geometry/SR_polygon.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 7465a6c..dfd5e83 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -239,9 +239,6 @@ class PolygonLine(object):
             _end = _nxt.j
             _akt = _nxt
 
-            if count > 500:
-                raise Exception('WTF')
-
         # finished ordering the polygon
         # making sure the resulting polygon is always the same: sorting the segments so that the first is the one
         # that has its i endpoint the closest to the origin
-- 
2.43.0


From 960bac4740f87cbd2ca64c5c30802a766757b626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:58 +0000
Subject: [PATCH 08/53] fix: point-in-polygon test works for polygons that do
 not reach the positive quadrant

---
 geometry/SR_polygon.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index dfd5e83..8cd764a 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -496,12 +496,13 @@ class PolygonLine(object):
 
         _bb = self.bounding_box()
         _x, _y = _bb[0][1], _bb[1][1]
+        _size = max(_bb[0][1] - _bb[0][0], _bb[1][1] - _bb[1][0])
         _finished = False
         _inters = []
         while not _finished:
             for i in range(ctrlpkt):
-                # # old solution - a Point somewhere to the north east is taken
-                P = Point((random.uniform(_x, 500 * _x), random.uniform(_y, 30 * _y)))
+                # # old solution - a Point somewhere to the north east is taken. This must be off the bounding box
+                P = Point((random.uniform(_x + _size, _x + 500 * _size), random.uniform(_y + _size, _y + 30 * _size)))
                 ls = LineSegment(p, P)  # from p draw line in random direction
 
                 # # new solution: a Line towards the center of gravity and then to infinity
-- 
2.43.0


From 489b178d978f75c7c3d03277715b9c34ffb4c9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:58 +0000
Subject: [PATCH 09/53] fix: is_on_boundary recognises points on the boundary

---
 geometry/SR_polygon.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 8cd764a..cdc0c55 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -538,8 +538,6 @@ class PolygonLine(object):
 
     def is_on_boundary(self, p=EMPTY):
         """ Tells if the point is on the Polygonline """
-        if self.is_internal_point(p=p) or self.is_external_point(p=p):
-            return False
         if p in self.point_set:
             return True
         if any([x.is_internal_point(p=p) and x.is_point_on_line(p=p) for x in self.segments]):
-- 
2.43.0


From 8d873c814a8b57a5ae14a7a95da7ddde44710283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:58 +0000
Subject: [PATCH 10/53] fix: add connects polygon lines that do not meet and
 leaves its arguments alone

---
 geometry/SR_polygon.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index cdc0c55..ad81fe9 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1828,8 +1828,10 @@ def add(self, *other):
     assert self.isvalid and all([x.isvalid for x in other])
     assert not (self.isclosed and all([x.isclosed for x in other]))
 
-    _sum = self.segments
+    _sum = list(self.segments)
     for s in other:
+        if _sum[-1].j != s.first_point:  # not attached, to be connected
+            _sum.append(LineSegment(_sum[-1].j, s.first_point))
         _sum += s.segments
 
     _ret = PolygonLine(_sum)
-- 
2.43.0


From 56af22a4a983b8b3d7f526335c8341f953a8976f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:10 +0000
Subject: [PATCH 11/53] fix: triangulation and area follow the polygon when it
 is moved, rotated, mirrored or extended

---
 geometry/SR_polygon.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index ad81fe9..942dede 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -99,7 +99,9 @@ class PolygonLine(object):
         return self._triangles
 
     def _delete_triangles(self):
+        """ deletes everything calculated by triangulation - to be called if the geometry changes """
         self._triangles = set()
+        self.__dict__.pop('area', None)  # the cached value
 
     @property
     def segments(self):
@@ -259,6 +261,7 @@ class PolygonLine(object):
         assert p.isvalid  # a Point object
 
         self._segments.append(LineSegment(self.last_point, p))
+        self._delete_triangles()
 
     def append_point_at_beginning(self, p=EMPTY):
         """
@@ -269,6 +272,7 @@ class PolygonLine(object):
         assert p.isvalid  # a Point object
 
         self._segments.insert(0, LineSegment(p, self.first_point))
+        self._delete_triangles()
 
     def add_internal_point(self, p=EMPTY, segment=None):
         """ add a point that is for sure on the inside of the polygon """
@@ -432,6 +436,7 @@ class PolygonLine(object):
         """ adds a segment to close the plygon """
         if self.isopen:
             self._segments.append(LineSegment(self.last_point, self.first_point))
+            self._delete_triangles()
         else:
             pass
 
@@ -570,12 +575,14 @@ class PolygonLine(object):
             _c = (_p.x * _cp - _p.y * _sp, _p.x * _sp + _p.y * _cp)  # "exact values"
             _c = tuple([round(x, int(PRECISION)) for x in _c])  # rounding to "PRRECISION" number of decimals
             _p._set_coords(coords=_c)
+        self._delete_triangles()
 
     def mirror_vertical(self, x0):
         """ Mirrors the segment on a vertical line located at x0 """
         self.purge()
         for _p in self._point_objects:
             _p._set_coords(coords=(_p.x - 2 * (_p.x - x0), _p.y))
+        self._delete_triangles()
 
     def move(self, x0=None, y0=None):
         """ Moves the polygon by x0, y0 units """
@@ -584,6 +591,7 @@ class PolygonLine(object):
         #     s.move(x0=x0, y0=y0)
         for _p in self._point_objects:
             _p._set_coords(coords=(_p.x + x0, _p.y + y0))
+        self._delete_triangles()
 
     def rotate_about_xy(self, x0=None, y0=None, phi=None):
         """ Rotates polygon by phi degrees about given x, y point """
-- 
2.43.0


From 27d3a1ee8fa59aaca6193878b714b159942a7da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:22 +0000
Subject: [PATCH 12/53] fix: corners of 180 degrees with rounded coordinates do
 not make a polygon concave

---
 geometry/SR_polygon.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 942dede..4c5ffe0 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -457,7 +457,10 @@ class PolygonLine(object):
         assert self.isvalid
 
         # criterium is: sign of cross product of consequtive segments is the same
-        if all([x >= 0 for x in self.cps]) or all([x <= 0 for x in self.cps]):  # Zero: 180 degree
+        # the coordinates are rounded, thus a 180 degree corner yields only nearly zero
+        _norms = [x.norm for x in self.segments]
+        _tols = [2 * EPS * (x + y) for x, y in zip(_norms, _norms[1:] + _norms[:1])]
+        if all([x >= -t for x, t in zip(self.cps, _tols)]) or all([x <= t for x, t in zip(self.cps, _tols)]):
             return True
         else:
             return False
-- 
2.43.0


From 6d25adf024fac12191633aaa89909f38ed6713e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:37 +0000
Subject: [PATCH 13/53] fix: orientation of concave polygons by the signed area

---
 geometry/SR_polygon.py | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 4c5ffe0..0f12e9e 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -468,23 +468,11 @@ class PolygonLine(object):
     @property
     def iscw(self):
         """ Tells if point order is cw """
-        if self.isconvex:  # pure positive or negative values
-            if sum(self.cps) > 0:  # positive means ccw
-                return False
-            else:
-                return True
+        assert self.isvalid
 
-        else:  # positive and negative values mixed
-            _ps = len([x for x in self.cps if x >= 0])
-            _ns = len([x for x in self.cps if x <= 0])
-            if _ps > _ns:
-                return False
-            elif _ps < _ns:
-                return True
-            else:
-                print(_ps)
-                print(_ns)
-                raise Exception("This shouldn't happen")
+        # the sign of the signed area decides; the sum is taken relative to the first point for better accuracy
+        _o = self.first_point
+        return sum([(x.i.x - _o.x) * (x.j.y - _o.y) - (x.j.x - _o.x) * (x.i.y - _o.y) for x in self.segments]) <= 0
 
     @property
     def isccw(self):
-- 
2.43.0


From 04da36fbf2b88ef4a481b1dcef47b95945bfc028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:57 +0000
Subject: [PATCH 14/53] fix: points on a segment of the polygon are not
 internal, whichever side of the polygon it is

---
 geometry/SR_polygon.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 0f12e9e..c1352be 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -486,8 +486,8 @@ class PolygonLine(object):
 
         ctrlpkt = 3
 
-        # if the point is one of the Points of the polygon - False.
-        if p in self.point_set:
+        # if the point is one of the Points of the polygon or lies on one of the segments - False.
+        if self.is_on_boundary(p=p):
             return False
 
         _bb = self.bounding_box()
-- 
2.43.0


From a48e1b018e14f94e23a9c6d596b6d910f82c7ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:24 +0000
Subject: [PATCH 15/53] fix: overlap of triangles is decided by separating
 sides

---
 geometry/SR_polygon.py | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index c1352be..7923e37 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1085,28 +1085,15 @@ class Triangle(PolygonLine):
         """ partial or total overlap, works vica versa """
         assert isinstance(self, Triangle) and isinstance(other, Triangle)
 
-        # some points of self are inside the other or vica versa
-        if any(self.is_internal_point(x) for x in other.point_set) or \
-                any(other.is_internal_point(x) for x in self.point_set):
-            return True
-
-        # there are intersecting lines but the intersection_point is not on an endpoint
-        _common_parts = set()
-        pairs = set()
-        for ss in self.segments:
-            for os in other.segments:
-                if (ss, os) not in pairs and (os, ss) not in pairs:
-                    pairs.add((ss, os))
-
-        for pair in pairs:
-            cp = pair[0].common_part(pair[1])
-            cp_type = pair[0].common_part_type(pair[1])
-            if cp_type == 'Point' and cp is not None and cp not in self.point_set + other.point_set:
-                _common_parts.add(cp)
-        if _common_parts:
-            return True
+        # the triangles overlap if none of their sides separates them
+        for a, b in ((self, other), (other, self)):
+            for s in a.segments:
+                _corner = [p for p in a.point_set if p not in s.ij][0]
+                _side = 1 if s.crossproduct(LineSegment(s.i, _corner)) > 0 else -1
+                if all(_side * s.crossproduct(LineSegment(s.i, p)) <= 2 * EPS * s.norm for p in b.point_set if p != s.i):
+                    return False
 
-        return False
+        return True
 
     def touch(self, other):
         """ whatever is found in common_part, the points are all on the boundary """
-- 
2.43.0


From a65032a36cee5655f6add13cf0f91b6f50e0e31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:24 +0000
Subject: [PATCH 16/53] fix: polygons that have not been triangulated yet are
 not reported as disjunct

---
 geometry/SR_polygon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 7923e37..513d21b 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -143,6 +143,8 @@ class PolygonLine(object):
         """
         two polygons are disjunct if none of their triangles (from triangulation) overlap or are congruent
         """
+        for x in [self, other]:
+            x.triangulate()  # does nothing if this has been done already
         _all_tri_pairs = itertools.combinations(itertools.chain.from_iterable([x.triangles for x in [self, other]]), 2)
         if any(x[0].overlap(x[1]) or x[0].congruent(x[1]) for x in _all_tri_pairs):
             return False
-- 
2.43.0


From 500d1795304e3d71a599c51bc3ccbf64d76b5325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:50 +0000
Subject: [PATCH 17/53] fix: equal polygon lines have equal hash values

---
 geometry/SR_polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 513d21b..41efe8d 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -92,7 +92,7 @@ class PolygonLine(object):
         return not self.__eq__(other)
 
     def __hash__(self):
-        return hash((s.ij for s in self._segments))
+        return hash(tuple([s.ij for s in self._segments]))
 
     @property
     def triangles(self):
-- 
2.43.0


From d2dab9161ecb6f62ea5d4aadbec60e27ea61c360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:50 +0000
Subject: [PATCH 18/53] fix: loose_equal with direction_matters does not raise
 a TypeError

---
 geometry/SR_polygon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 41efe8d..2974ba3 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -85,8 +85,9 @@ class PolygonLine(object):
                     # is there in other.segments, straight or reversed
                     _eq.append(any([z.loose_equal(x) for z in [y, y.line_reversed]]))
                 segment_loose_equality.append(any(_eq))
+            segment_loose_equality = all(segment_loose_equality)
 
-        return all(segment_loose_equality)
+        return segment_loose_equality
 
     def __ne__(self, other):
         return not self.__eq__(other)
-- 
2.43.0


From 363306f59d47a3d37a473cde140e6aa4f03337d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:50 +0000
Subject: [PATCH 19/53] fix: intersection of a sphere and a tangent line does
 not raise a NameError

---
 geometry/additional_stuff.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/geometry/additional_stuff.py b/geometry/additional_stuff.py
index 95ec420..f781a14 100644
--- a/geometry/additional_stuff.py
+++ b/geometry/additional_stuff.py
@@ -34,8 +34,6 @@ def sphere_line_intersection(l1, l2, sp, r):
         pass  # no intersections
     elif i == 0.0:
         # one intersection
-        p[0] = 1.0
-
         mu = -b / (2.0 * a)
         p1 = (l1[0] + mu * (l2[0] - l1[0]),
               l1[1] + mu * (l2[1] - l1[1]),
-- 
2.43.0


From 631153eb42f3f51ee0c40ec6a5b439301e961ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:48 +0000
Subject: [PATCH 20/53] fix: a polygon line is continuous only if every segment
 starts where the previous one ends

---
 geometry/SR_polygon.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 2974ba3..724a3d6 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -347,7 +347,7 @@ class PolygonLine(object):
     def discontinuity(self):
         _ret = []
         for x, y in zip(self.segments, self.segments[1:]):
-            if not x.continuous(y):
+            if not x.continuous(y) or x.j != y.i:  # y has to start where x ends
                 _ret.append(y)
         return _ret
 
@@ -356,7 +356,7 @@ class PolygonLine(object):
         """ This checks if the polyline is continuous """
         # doesn't check for validity, as continuity is necessary for validity
 
-        return all(x.continuous(y) for x, y in zip(self.segments, self.segments[1:]))
+        return not self.discontinuity
 
     def fix(self):
         """
-- 
2.43.0


From 180bee3f3cf70702193822cb18f4f2e88f7d0041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:42 +0000
Subject: [PATCH 21/53] fix: clockwise arcs are continuous

---
 geometry/SR_polygon.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 724a3d6..470a7f0 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1737,7 +1737,9 @@ def arc(P=None, r=None, alpha_start=0, alpha_end=360, n=10, cw=False):
     for st in range(n+1):
         _deg = (st * degstep) % 360
         nodes.append([r * math.cos(math.radians(_deg)), r * math.sin(math.radians(_deg))])
-    pl = polygon_from_nodes(nodes=nodes, cw=cw)
+    if cw:
+        nodes = nodes[::-1]  # the same arc, walked from alpha_end to alpha_start
+    pl = polygon_from_nodes(nodes=nodes)
     pl.rotate_about_origin(phi=alpha_start)
     if isinstance(P, Point):
         pl.move(x0=P.x, y0=P.y)
-- 
2.43.0


From b7d24e75668388227f5482cbd9e63cc88932371f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:38 +0000
Subject: [PATCH 22/53] fix: a chamber is only dropped if the others really
 make it up, not for an equal area

---
 geometry/SR_polygon_group.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 915f40d..61d460e 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -651,7 +651,10 @@ class BehalterGraph(PolygonGroup):
                 for comb in combs:
                     _all_tris = list(itertools.chain.from_iterable([x.triangles for x in comb]))
                     for p in polygons:
-                        if abs(p.area - sum([tri.area for tri in _all_tris])) < EPS:
+                        # equal area alone is not enough: the others must lie inside and may not overlap
+                        if abs(p.area - sum([tri.area for tri in _all_tris])) < EPS and \
+                                all(p.is_internal_point(p=tri.midpoint) for tri in _all_tris) and \
+                                all(x[0].disjunct(x[1]) for x in itertools.combinations(comb, 2)):
                             _removed_polygons.add(p)
                             polygons.remove(p)
 
-- 
2.43.0


From 081d9a2eb60271108f81181a4550eeb10f1187f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:42 +0000
Subject: [PATCH 23/53] fix: the walls of a room's neighbour are not inner
 walls of the room

---
 SR_Vessel/SR_hauptteile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index af68e05..a88ba09 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -287,6 +287,9 @@ class Behalter(PolygonGroup):
                     _iw = []  # innere Wandung
                     _visited = []
                     for k, v in self.overlaps_in_cycles.items():  # k: tuple of cycles that have common segment, eg. (0, 1)
+                        # only pairs inside of this room, not e.g. the room itself and its neighbour
+                        if not all(x in self.contained_cycles[c] for x in k):
+                            continue
                         # first run
                         if not _visited:
                             _iw.append([])
-- 
2.43.0


From 444f4bc9dbf876de77e7d77fe55809925e6eefcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:07 +0000
Subject: [PATCH 24/53] fix: vessels with more than one enclosing room are no
 longer refused

---
 geometry/SR_polygon_group.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 61d460e..1c86178 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -711,9 +711,8 @@ class BehalterGraph(PolygonGroup):
 
                 # the polygons that are not included in _rret; this is the outer shell or the inner shell
                 _left_out = [x for x in polygons if x not in _rret and not any([x.loose_equal(y) for y in _rret])]
-                if len(_left_out) != 1:
+                if not _left_out:
                     raise Exception('WTF')
-                _left_out = _left_out[0]  # there is only one
 
                 # _rret is a list of polygon-combinations.
                 # for non-double-walled behalters _ret is a list, where the elements may not be overlapping
@@ -734,7 +733,7 @@ class BehalterGraph(PolygonGroup):
                     # oc[1].plot(show=True, title='%r' % [x.area for x in oc])
                     # print([x in _left_out for x in oc])
                     # if any([x in _left_out for x in oc]):  # that contain one from the polygons left out previously
-                    if _left_out == oc[0]:  # that contain one from the polygons left out previously
+                    if oc[0] in _left_out:  # that contain one from the polygons left out previously
                         if all((oc[0].is_internal_point(p=x) for x in oc[1].point_set)) and \
                                         oc[0] not in _to_add and oc[0] not in _rret:
                             # oc[0].plot(show=True, title='thisis, oc[0], %.2f' % oc[0].area)
-- 
2.43.0


From 4487e94121acbfe22ff90c17e36d9a963724a6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:34 +0000
Subject: [PATCH 25/53] fix: walls of a vessel inside of an enclosed vessel do
 not bound the outermost room

---
 SR_Vessel/SR_hauptteile.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index a88ba09..31a7fa1 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -282,13 +282,16 @@ class Behalter(PolygonGroup):
 
                     # print('there are internal walls')
 
-                    _cycles_to_check = self.contained_cycles[c]
+                    # only what is directly inside, not what is inside of a contained cycle
+                    _contained = self.contained_cycles
+                    _cycles_to_check = [x for x in _contained[c] if not any(x in _contained[y] for y in _contained[c])]
+                    _direct = list(_cycles_to_check)
                     # first, check the cycles that are overlapping (if any)
                     _iw = []  # innere Wandung
                     _visited = []
                     for k, v in self.overlaps_in_cycles.items():  # k: tuple of cycles that have common segment, eg. (0, 1)
                         # only pairs inside of this room, not e.g. the room itself and its neighbour
-                        if not all(x in self.contained_cycles[c] for x in k):
+                        if not all(x in _direct for x in k):
                             continue
                         # first run
                         if not _visited:
-- 
2.43.0


From 68576689809d525ce0f3364ca45174e19692085e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:02 +0000
Subject: [PATCH 26/53] fix: a room beside a concave room is not contained in
 it

---
 geometry/SR_polygon_group.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 1c86178..ce28629 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -1,7 +1,7 @@
 # -*- coding: utf-8 -*-
 
 from geometry.SR_point import EPS
-from geometry.SR_polygon import PolygonLine, convex_hull, remove_outlier_segments, walk_segments
+from geometry.SR_polygon import PolygonLine, remove_outlier_segments, walk_segments
 from cached_property import cached_property
 import itertools
 from geometry.SR_polygon import TRIANGULATION_ALGORITHM
@@ -414,18 +414,14 @@ class BehalterGraph(PolygonGroup):
 
             _ret[e] = []
             for z in [x for x in _cycles.keys() if x != e]:  # keys, except for "e"
-                # _ch = itertools.chain.from_iterable([x.ij for x in _cycles[e]])
-                _ch = sum([x.point_set for x in _cycles[e]], [])  # all points in cycle "e"
-                _convhull = convex_hull([w.xy for w in _ch])  # as tuples for the convex hull
-                # check if the points of z inside the convex hull of e are
+                # check if the points of z are inside of e. The convex hull would not do: e may be concave
                 # _ch = itertools.chain.from_iterable([x.ij for x in _cycles[z]])
                 _ch = sum([x.point_set for x in _cycles[z]], [])  # all points in cycle "z"
-                # internal points for the convex hull
-                _internals = [p for p in _ch if _convhull.is_internal_point(p)]
+                # internal points of the cycle
+                _internals = [p for p in _ch if self.cycles[e].is_internal_point(p)]
 
                 if set(_internals) == set(_ch):  # totally contained
                     _ret[e].append(z)
-                    # _convhull.plot(also_plot=_ch, show=True)  # plots the hull and the internal points
                 elif not _internals:  # empty
                     pass
                 # else:  # partial overlap
-- 
2.43.0


From 81999afc545917bbea90bc8c742d6be6751c55e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:35 +0000
Subject: [PATCH 27/53] fix: branches are noticed whatever the direction of the
 segments that meet there

---
 geometry/SR_polygon.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 470a7f0..c64892f 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1848,13 +1848,14 @@ def walk_segments(segments=(), startingpoint=None):
     _visited = {_aktsegment}
     _aktpt = startingpoint
     while len(_not_visited) > 0:
-        _nextsegment = [x for x in _not_visited if _aktpt == x.i and x != _aktsegment]  # lets hope for an ordered polygon
-        if not _nextsegment:  # no ordered solution
-            _nextsegment = [x for x in _not_visited if _aktpt in x.ij and x != _aktsegment]  # non-ordered solution
-            if not _nextsegment:
-                return False
-        if len(_nextsegment) > 1:
+        _all_next = [x for x in _not_visited if _aktpt in x.ij and x != _aktsegment]  # whatever the direction
+        if not _all_next:
+            return False
+        if len(_all_next) > 1:
             _has_branch = True
+        _nextsegment = [x for x in _all_next if _aktpt == x.i]  # lets hope for an ordered polygon
+        if not _nextsegment:  # no ordered solution
+            _nextsegment = _all_next  # non-ordered solution
         _nextsegment = _nextsegment[0]
 
         _visited.add(_aktsegment)
-- 
2.43.0


From a5365825b3f8fd62f6180e35c196d738ac5db42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:37 +0000
Subject: [PATCH 28/53] fix: a shell course partly covered by a jacket bounds
 the jacket room, whatever the direction of the walk

---
 geometry/SR_polygon_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index ce28629..7f72487 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -533,7 +533,7 @@ class BehalterGraph(PolygonGroup):
             # the originals but may be slightly different (order, direction etc.)
             # any(): partial overlap, e.g. when one of the original polygons is split by a raumende
             _ret[k] = [x for x in self.polygons if v.loose_subset(other=x)
-                       or any([y in x.segments for y in v.segments])]
+                       or any([y.loose_equal(z) for y in v.segments for z in x.segments])]
 
         return _ret
 
-- 
2.43.0


From 61f363d85f603659fa5194352b541865e4d3d6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:35 +0000
Subject: [PATCH 29/53] fix: the pieces of a cut room end are in order along
 it, whatever side of the part was cut before

---
 SR_Vessel/SR_hauptteile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index 31a7fa1..514e4d2 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -606,6 +606,7 @@ class Hauptteil(PolygonLine):
             _pts = list(_cl.ij)  # endpoints of the cutter line
             for _i in [x for x in cut_lines if _cl in x]:
                 _pts.insert(1, _i[0].intersection_point(_i[1]))  # intersection_point Points are inserted
+            _pts.sort(key=_cl.i.distance)  # along the cutter line, whatever the order of the cut segments
 
             # currently the only possibility is to have a ring-formed raumende.
             # the two outer parts are kept as Wall, the internal as NonWall
-- 
2.43.0


From 82c925f189b0973251057f9c4aba03894bde7424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:32 +0000
Subject: [PATCH 30/53] fix: a segment without reference points does not make
 every room an inner room of a skirt

---
 SR_Vessel/SR_hauptteile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index 514e4d2..b0dbcb7 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -400,7 +400,7 @@ class Behalter(PolygonGroup):
                     for s in ht_graph.segments:
                         # print(s)
                         _internal = [x for x in ht_graph.internal if x.segment == s]
-                        if all((raum_graph.is_internal_point(p=P) for P in _internal)):
+                        if _internal and all((raum_graph.is_internal_point(p=P) for P in _internal)):
                             _ret[ht.name]['innenraum'].add(r.name)
                             # print(ht.name + '-hoz ' + r.name + ' mint internal')
                         # ht_graph.plot(show=True, also_plot=_internal)
@@ -414,7 +414,7 @@ class Behalter(PolygonGroup):
                     for s in ht_graph.segments:
                         # print(s)
                         _external = [x for x in ht_graph.external if x.segment == s]
-                        if all((raum_graph.is_internal_point(p=P) for P in _external)):
+                        if _external and all((raum_graph.is_internal_point(p=P) for P in _external)):
                             _ret[ht.name]['aussenraum'].add(r.name)
                             # print(ht.name + '-hoz ' + r.name + ' mint external')
                         # else:
-- 
2.43.0


From 0a4f09b57ed653558e34e5440bcd2c24a9c12b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:50 +0000
Subject: [PATCH 31/53] fix: a shell is not invalid because of the rounding of
 its coordinates

---
 SR_Vessel/SR_hauptteile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index b0dbcb7..748d6ff 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -1,6 +1,6 @@
 # -*- coding: utf-8 -*-
 
-from geometry.SR_point import Point
+from geometry.SR_point import Point, EPS
 from geometry.SR_line import LineSegment, point_on_line_at_ratio
 from geometry.SR_polygon import PolygonLine, arc, intersecting_lines, simplify
 from geometry.SR_polygon_group import PolygonGroup, BehalterGraph, Graph
@@ -714,7 +714,7 @@ class Mantel(Hauptteil):
         _ok = []
         _ok.append((_s[0].i.y == _s[1].j.y))  # lower points y coordinates
         _ok.append((_s[0].j.y == _s[1].i.y))  # upper points y coordinates
-        _ok.append((_s[0].i.x + _s[1].j.x) / 2 == (_s[0].j.x + _s[1].i.x) / 2)  # axis vertical
+        _ok.append(abs((_s[0].i.x + _s[1].j.x) / 2 - (_s[0].j.x + _s[1].i.x) / 2) < EPS * 1e3)  # axis vertical, tolerance as for Points
         if not all(_ok):
             return False
 
-- 
2.43.0


From da65e666d09966cea1ce7bb0827cdac1000c0d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:32 +0000
Subject: [PATCH 32/53] fix: the bottom wall of a skirt does not make it
 invalid

---
 SR_Vessel/SR_hauptteile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index 748d6ff..1590250 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -705,7 +705,7 @@ class Mantel(Hauptteil):
     def isvalid(self):
 
         # checking if the graph is valid
-        _s = self.graph.segments  # shorthand
+        _s = [x for x in self.graph.segments if x.i.y != x.j.y]  # shorthand, without the bottom of a StandZarge
         # two segments
         if len(_s) != 2:
             return False
-- 
2.43.0


From e0392a0399d569ac06b60d2b1f59f5bad34b1d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:07 +0000
Subject: [PATCH 33/53] fix: a skirt made from a dict is a skirt, not a shell
 without bottom

---
 SR_Vessel/SR_hauptteile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index 1590250..d3395e6 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -635,7 +635,7 @@ class Mantel(Hauptteil):
     @classmethod
     def from_dict(cls, adict):
         try:
-            mantel = Mantel(
+            mantel = cls(  # also for the StandZarge
                 name=adict['name'],
                 pos_v=adict['pos_v'],
                 pos_h=adict['pos_h'],
-- 
2.43.0


From f8a8abc4a6cad2a2c16f201b61f6c0d35e5bba32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:31 +0000
Subject: [PATCH 34/53] fix: points on a line are recognised whatever its
 length (rounded coordinates), so valid cone knuckles are not refused

---
 geometry/SR_line.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index 6e70708..e9fe6ad 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -187,7 +187,8 @@ class LineSegment(object):
             return True
 
         # print(abs(self.cross_product(LineSegment(self.i, p))))
-        if abs(self.crossproduct_commonstart(LineSegment(self.i, p))) < EPS:
+        # crossproduct: distance to the line times length. the coordinates are all rounded, so the line can't be missed by less
+        if abs(self.crossproduct_commonstart(LineSegment(self.i, p))) < EPS * max(1., 10. * self.norm):
 
             return True
         else:
-- 
2.43.0


From e6194360de5307674bd60fa935e5f952979f5905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 35/53] fix: points between the ends of a segment are
 recognised with the tolerance of rounded coordinates, so valid cone knuckles
 are not refused

---
 geometry/SR_line.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index e9fe6ad..c0c6adf 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -170,8 +170,9 @@ class LineSegment(object):
         _i = self.i
         _j = self.j
 
-        if min(_i.x, _j.x) - EPS < p.x <= max(_i.x, _j.x) + EPS\
-                and min(_i.y, _j.y) - EPS <= p.y <= max(_i.y, _j.y) + EPS:
+        # the coordinates are all rounded: the same tolerance as for is_point_on_line
+        if min(_i.x, _j.x) - 10. * EPS <= p.x <= max(_i.x, _j.x) + 10. * EPS\
+                and min(_i.y, _j.y) - 10. * EPS <= p.y <= max(_i.y, _j.y) + 10. * EPS:
             return True
         else:
             return False
-- 
2.43.0


From d022fc5fd39fb50bd4b57b40dc351223f7d1599c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 36/53] fix: raum_dict_checker does not lose rooms of the
 pattern that the dict does not have

---
 SR_Vessel/SR_hauptteile.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index d3395e6..2f59287 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -60,9 +60,11 @@ def raum_dict_checker(dict_to_comapare=None, basedict=None):
         for p in pair:
             _repldict[-1][p[0]] = p[1]
 
-    # converting the result dict once
+    # converting the result dict once. it has its own rooms: none of them may get lost
     _basedict = copy.deepcopy(basedict)
-    _basedict = convert(dtc=_basedict, _rs=_raums, p=_repldict[0])
+    _baseraums = sorted(set(itertools.chain.from_iterable(vv for v in basedict.values() for vv in v.values())))
+    _baserepl = dict(zip(_baseraums, (chr(97+x) for x in range(len(_baseraums)))))
+    _basedict = convert(dtc=_basedict, _rs=_baseraums, p=_baserepl)
 
     # converting and checking for all pairs
     _res = []
-- 
2.43.0


From fd24f05bb3bd565419e1718a89f5eaea64175502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 37/53] fix: valid cone knuckles are not refused for the
 rounding of their coordinates; points on a line are decided as before

---
 SR_Vessel/SR_hauptteile.py | 8 ++++++--
 geometry/SR_line.py        | 8 +++-----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index 2f59287..6e1f482 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -1177,8 +1177,12 @@ class KegelKrempe(Hauptteil):
         # checked is if this is true, in any order of ht_oben and ht_unten
         _fp = _kre_re.first_point
         _lp = _kre_re.last_point
-        _e = (x.segments[0].is_point_on_line(_fp) and x.segments[0].is_internal_point(_fp) for x in [self.kegel, self.ht_oben])
-        _z = (x.segments[0].is_point_on_line(_lp) and x.segments[0].is_internal_point(_lp) for x in [self.kegel, self.ht_oben])
+        # the coordinates are all rounded, thus the tolerance, same as for the equality of Points
+        def on_wall(s, p):
+            return s.line_point_distance(p) < EPS * 1e3 and p.distance(s.i) + p.distance(s.j) < s.norm + EPS * 1e3
+
+        _e = (on_wall(x.segments[0], _fp) for x in [self.kegel, self.ht_oben])
+        _z = (on_wall(x.segments[0], _lp) for x in [self.kegel, self.ht_oben])
         assert all(x or y for x, y in zip(_e, _z))
 
         # the arc on the 'left' side. This is done by copying the right side and mirroring
diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index c0c6adf..6e70708 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -170,9 +170,8 @@ class LineSegment(object):
         _i = self.i
         _j = self.j
 
-        # the coordinates are all rounded: the same tolerance as for is_point_on_line
-        if min(_i.x, _j.x) - 10. * EPS <= p.x <= max(_i.x, _j.x) + 10. * EPS\
-                and min(_i.y, _j.y) - 10. * EPS <= p.y <= max(_i.y, _j.y) + 10. * EPS:
+        if min(_i.x, _j.x) - EPS < p.x <= max(_i.x, _j.x) + EPS\
+                and min(_i.y, _j.y) - EPS <= p.y <= max(_i.y, _j.y) + EPS:
             return True
         else:
             return False
@@ -188,8 +187,7 @@ class LineSegment(object):
             return True
 
         # print(abs(self.cross_product(LineSegment(self.i, p))))
-        # crossproduct: distance to the line times length. the coordinates are all rounded, so the line can't be missed by less
-        if abs(self.crossproduct_commonstart(LineSegment(self.i, p))) < EPS * max(1., 10. * self.norm):
+        if abs(self.crossproduct_commonstart(LineSegment(self.i, p))) < EPS:
 
             return True
         else:
-- 
2.43.0


From 94c2bac812f540ac453db0775f98050eabb5c4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:40 +0000
Subject: [PATCH 38/53] fix: reference points of both halves of a head whose
 axis is not at a round coordinate

---
 SR_Vessel/SR_hauptteile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index 6e1f482..df4feda 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -761,10 +761,10 @@ class TorispherischesBoden(Hauptteil):
         _res = {}
         for s in self._graph.segments:
             _res[s] = {'internal': [], 'external': [], 'indifferent': []}
-            _pts = sorted(s.ij, key=lambda x: x.x)
-            if min([x.x for x in _pts]) < self.pos_h:
+            _mid = (s.i.x + s.j.x) / 2.  # one end is on the axis, but rounded
+            if _mid < self.pos_h:
                 _vorient = -1
-            elif max([x.x for x in _pts]) > self.pos_h:
+            elif _mid > self.pos_h:
                 _vorient = 1
             else:
                 raise Exception('WTF')
-- 
2.43.0


From c21705030c48b6d317a4b7faa2890dadecf56724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 39/53] fix: loop search does not raise an IndexError when the
 first walk uses up all walls (e.g. cones that run to a tip)

---
 geometry/SR_polygon_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 7f72487..7288e8c 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -561,7 +561,7 @@ class BehalterGraph(PolygonGroup):
         while _polygon and _polygon not in cycles:  # a loop without branch
             cycles.append(_polygon)  # returns just a polygon
             graph = [x for x in graph if x not in _polygon.segments and x.line_reversed not in _polygon.segments]
-            _polygon = walk_segments(segments=graph)
+            _polygon = walk_segments(segments=graph) if graph else False  # nothing left to walk
 
         # some loops may have been found
         comblen = 1
-- 
2.43.0


From 2b79e6208fdccef7fcc7b1353e08ae1c061335e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 40/53] fix: the loops found do not share segments, so ordering
 one does not reverse parts of another

---
 geometry/SR_polygon_group.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 7288e8c..98f0a7a 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -3,6 +3,7 @@
 from geometry.SR_point import EPS
 from geometry.SR_polygon import PolygonLine, remove_outlier_segments, walk_segments
 from cached_property import cached_property
+import copy
 import itertools
 from geometry.SR_polygon import TRIANGULATION_ALGORITHM
 from collections import Counter
@@ -578,7 +579,8 @@ class BehalterGraph(PolygonGroup):
                     continue
 
                 # make a polygonline from the current segments and order it
-                _polygon = PolygonLine(list(p))
+                # ordering may reverse segments: neither the other loops nor the polygons may notice
+                _polygon = PolygonLine(copy.deepcopy(list(p)))
                 # if it can be ordered then its is at least a closed loop
                 if not _polygon.order():
                     print('cont: unorderable')
-- 
2.43.0


From 3f5a2be404f0a626398a174866331d80c6884899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 41/53] fix: a part is on a cycle if it has a wall on it, not
 if it merely ends at points of it

---
 geometry/SR_polygon_group.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 98f0a7a..99e71cd 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -530,11 +530,11 @@ class BehalterGraph(PolygonGroup):
             # p.plot(show=True)
 
             # finding the polygons that make up a segment
-            # loose_subset: during finding the cycles some PolyGonlines are generated, these have the same segments as
+            # loose_equal: during finding the cycles some PolyGonlines are generated, these have the same segments as
             # the originals but may be slightly different (order, direction etc.)
             # any(): partial overlap, e.g. when one of the original polygons is split by a raumende
-            _ret[k] = [x for x in self.polygons if v.loose_subset(other=x)
-                       or any([y.loose_equal(z) for y in v.segments for z in x.segments])]
+            # the endpoints alone would not do: a wall may connect two points of the cycle outside of it
+            _ret[k] = [x for x in self.polygons if any([y.loose_equal(z) for y in v.segments for z in x.segments])]
 
         return _ret
 
-- 
2.43.0


From 4c7c00211f38dca578afd2553a7f376f8196f088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 42/53] fix: reference points of a cone whose tip is below are
 not on its wall

---
 SR_Vessel/SR_hauptteile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index df4feda..499deb6 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -666,13 +666,13 @@ class Mantel(Hauptteil):
             _res[s] = {'internal': [], 'external': [], 'indifferent': []}
             # the endpoints of a segment in ascending order vertically; lower, upper points
             _lp, _up = sorted(s.ij, key=lambda x: x.y)
-            # "unit" for _lp, _up
-            _e = [abs(min((_up.y - _lp.y) / 10., min((_p.x - self.pos_h) / 50000., .0020))) for _p in (_lp, _up)]
+            # "unit": by the wider end, as the other one may be the tip of a cone
+            _e = min((_up.y - _lp.y) / 10., max(abs(_p.x - self.pos_h) for _p in (_lp, _up)) / 50000., .0020)
             # we create four points, two at each end of the segments
             for ratio in [0.01, 0.99]:
                 _tp = point_on_line_at_ratio(line=s, ratio=ratio)
-                _ret.append(Point((_tp.x + _e[0], _tp.y)))
-                _ret.append(Point((_tp.x - _e[0], _tp.y)))
+                _ret.append(Point((_tp.x + _e, _tp.y)))
+                _ret.append(Point((_tp.x - _e, _tp.y)))
                 # _tp.plot(show=False, style='k.')
 
             # _ret.append(Point((_lp.x + _e[0], _lp.y + 2 * _e[1])))
-- 
2.43.0


From 58bf7bf5c1fdb03f29a0b0c73bcf2ab56efd25b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 43/53] fix: Delaunay2d keeps points on the line of the first
 two and makes no triangles without area

---
 geometry/SR_polygon.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index c64892f..618b76f 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1239,19 +1239,12 @@ class Delaunay2d:
 
         self.points.sort(key=distanceSquare)  # sorting the points by their distance from the centroid
 
-        # create first triangle, make sure we're getting a non-zero detailled_area otherwise
-        # drop the points
-        area = 0.0
+        # create first triangle, make sure we're getting a non-zero detailled_area: the third point is the nearest one
+        # that is not on a line with the first two. No point is dropped.
         index = 0
-        stop = False
-        while not stop and index + 2 < len(points):
-            area = self.getArea(index, index + 1, index + 2)
-            if abs(area) < EPS:
-                del self.points[index]
-            else:
-                stop = True
-
-        if index <= len(self.points) - 3:
+        _third = [x for x in range(2, len(points)) if abs(self.getArea(0, 1, x)) >= EPS]
+        if _third:
+            self.points.insert(2, self.points.pop(_third[0]))
             tri = [index, index + 1, index + 2]
             self.makeCounterClockwise(tri)
             self.triangles.append(tri)
@@ -1312,7 +1305,7 @@ class Delaunay2d:
         @return True if visible
         """
         area = self.getArea(ip, edge[0], edge[1])
-        if area < EPS:
+        if area < -EPS:  # points on the line of the edge would make a triangle without area
             return True
         return False
 
-- 
2.43.0


From f3973bc43b9dc96c7a415c10c4564a9ce773649a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:35 +0000
Subject: [PATCH 44/53] fix: parts of a segment with decimal coordinates were
 not on its line, not parallel, not overlapping

---
 geometry/SR_line.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index 6e70708..02d0daf 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -186,8 +186,8 @@ class LineSegment(object):
         if p == self.i or p == self.j:
             return True
 
-        # print(abs(self.cross_product(LineSegment(self.i, p))))
-        if abs(self.crossproduct_commonstart(LineSegment(self.i, p))) < EPS:
+        # the coordinates of all three points are rounded, the tolerance is that of the cross product with this rounding
+        if abs(self.crossproduct_commonstart(LineSegment(self.i, p))) <= 2 * EPS * (self.norm + distance(self.i, p)):
 
             return True
         else:
@@ -229,8 +229,9 @@ class LineSegment(object):
         """
         assert other.isvalid
 
-        # the directions are rounded individually, an exact comparison would miss even a segment and its reverse
-        if abs((self.direction - other.direction) % 360 - 180) < EPS * 1e3:
+        # the directions are rounded individually, an exact comparison would miss even a segment and its reverse.
+        # the rounding of the coordinates turns a short segment by more than that
+        if self.dotproduct(other) < 0 and self.is_parallel(other):
             return True
         else:
             return False
@@ -243,8 +244,9 @@ class LineSegment(object):
         assert other.isvalid
 
         # the sine of the angle between the segments is compared with EPS: differences of decimal coordinates carry
-        # rounding errors, an exact comparison with zero would miss parallel segments like these
-        if abs(self.crossproduct(other)) <= EPS * self.norm * other.norm:
+        # rounding errors, an exact comparison with zero would miss parallel segments like these. The rounding of the
+        # coordinates themselves turns a short segment by more than that
+        if abs(self.crossproduct(other)) <= max(EPS * self.norm * other.norm, 2 * EPS * (self.norm + other.norm)):
             return True
         else:
             return False
-- 
2.43.0


From ea615556dc04be283e353a4834148707aea849ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:35 +0000
Subject: [PATCH 45/53] fix: points on the line of a segment (but for rounding)
 were to the right of it

---
 geometry/SR_line.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index 02d0daf..9bd4fd4 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -200,6 +200,9 @@ class LineSegment(object):
         """
         assert p.isvalid
 
+        if self.is_point_on_line(p=p):
+            return False
+
         # _val = self.crossproduct_commonstart(other=LineSegment(self.i, p))
         _val = self.crossproduct(other=LineSegment(self.i, p))
         if _val < 0:
-- 
2.43.0


From 0f5c00dbd506a12a32c806af8202218efbf275d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:35 +0000
Subject: [PATCH 46/53] fix: an end point on another segment was no
 intersection if the calculated point is rounded off the end

---
 geometry/SR_line.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index 9bd4fd4..ace3efb 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -494,8 +494,11 @@ class LineSegment(object):
         else:
             if self.is_internal_point(p=_inters) and other.is_internal_point(p=_inters):
                 return True
-            else:
-                return False
+            # an endpoint of one segment is on the other one: the calculated point may miss this endpoint by its rounding
+            for a, b in ((self, other), (other, self)):
+                if any([a.is_internal_point(p=x) and a.is_point_on_line(p=x) for x in b.ij]):
+                    return True
+            return False
 
     def mirror_vertical(self, x0=0):
         """ Mirrors the segment on a vertical line located at x0 """
-- 
2.43.0


From cf3fb0b9f29dae1fb3387d3b6a0fb2895b2c7dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:35 +0000
Subject: [PATCH 47/53] fix: Delaunay2d made triangles without area of decimal
 coordinates on a line

---
 geometry/SR_polygon.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 618b76f..5cb16dd 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1242,7 +1242,7 @@ class Delaunay2d:
         # create first triangle, make sure we're getting a non-zero detailled_area: the third point is the nearest one
         # that is not on a line with the first two. No point is dropped.
         index = 0
-        _third = [x for x in range(2, len(points)) if abs(self.getArea(0, 1, x)) >= EPS]
+        _third = [x for x in range(2, len(points)) if abs(self.getArea(0, 1, x)) > self.areaTolerance(0, 1, x)]
         if _third:
             self.points.insert(2, self.points.pop(_third[0]))
             tri = [index, index + 1, index + 2]
@@ -1297,6 +1297,12 @@ class Delaunay2d:
         d2 = self.points[ip2] - self.points[ip0]
         return d1.x * d2.y - d1.y * d2.x
 
+    def areaTolerance(self, ip0, ip1, ip2):
+        """
+        The area that the rounding of the coordinates makes of three points on a line
+        """
+        return 2 * EPS * (distance(self.points[ip0], self.points[ip1]) + distance(self.points[ip0], self.points[ip2]))
+
     def isEdgeVisible(self, ip, edge):
         """
         Return true iff the point lies to its right when the edge points down
@@ -1305,7 +1311,7 @@ class Delaunay2d:
         @return True if visible
         """
         area = self.getArea(ip, edge[0], edge[1])
-        if area < -EPS:  # points on the line of the edge would make a triangle without area
+        if area < -self.areaTolerance(ip, edge[0], edge[1]):  # points on the line of the edge would make a triangle without area
             return True
         return False
 
@@ -1324,7 +1330,7 @@ class Delaunay2d:
         Re-order nodes to ensure positive detailled_area (in-place operation)
         """
         area = self.getArea(ips[0], ips[1], ips[2])
-        if area < -EPS:
+        if area < -self.areaTolerance(ips[0], ips[1], ips[2]):
             ip1, ip2 = ips[1], ips[2]
             # swap
             ips[1], ips[2] = ip2, ip1
-- 
2.43.0


From 026fd6846a21b67bb16ef4017e4f973bdc5ced5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:35 +0000
Subject: [PATCH 48/53] fix: ends of flat ends were rounded twice and missed
 the walls that end there

---
 SR_Vessel/SR_hauptteile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index 499deb6..4c5db3c 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -907,8 +907,8 @@ class Flachboden(Hauptteil):
         self.d = d
         self.pos_h = pos_h
         self.pos_v = pos_v
-        fb = Wall(Point((-self.d/2., 0)), Point((self.d/2., 0)))
-        fb.move(x0=pos_h, y0=pos_v)
+        # rounded only once, like the ends of the other parts that meet here
+        fb = Wall(Point((pos_h - self.d/2., pos_v)), Point((pos_h + self.d/2., pos_v)))
         super(Flachboden, self).__init__(typ='flachboden', segments=[fb])
         self._graph = Graph(hauptteil=self)
         self.graph.add_intex_points()
@@ -1324,8 +1324,8 @@ class RaumEnde(Hauptteil):
         self.d = d
         self.pos_h = pos_h
         self.pos_v = pos_v
-        fb = Wall(Point((-self.d/2., 0)), Point((self.d/2., 0)))
-        fb.move(x0=pos_h, y0=pos_v)
+        # rounded only once, like the ends of the other parts that meet here
+        fb = Wall(Point((pos_h - self.d/2., pos_v)), Point((pos_h + self.d/2., pos_v)))
         super(RaumEnde, self).__init__(typ='raumende', segments=[fb])
         self._graph = Graph(hauptteil=self)
         self.graph.add_intex_points()
-- 
2.43.0


From 4b23f727025940aeaf5004ed12bf4ff2bf2cb74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:35 +0000
Subject: [PATCH 49/53] fix: unions of rooms were kept as rooms of large
 vessels because of the rounding of areas

---
 geometry/SR_polygon_group.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 99e71cd..2cc7f63 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -649,8 +649,10 @@ class BehalterGraph(PolygonGroup):
                 for comb in combs:
                     _all_tris = list(itertools.chain.from_iterable([x.triangles for x in comb]))
                     for p in polygons:
-                        # equal area alone is not enough: the others must lie inside and may not overlap
-                        if abs(p.area - sum([tri.area for tri in _all_tris])) < EPS and \
+                        # equal area (but for the rounding of the coordinates) alone is not enough: the others must lie
+                        # inside and may not overlap
+                        _tol = 2 * EPS * max(1., sum([s.norm for x in comb for s in x.segments]))
+                        if abs(p.area - sum([tri.area for tri in _all_tris])) < _tol and \
                                 all(p.is_internal_point(p=tri.midpoint) for tri in _all_tris) and \
                                 all(x[0].disjunct(x[1]) for x in itertools.combinations(comb, 2)):
                             _removed_polygons.add(p)
-- 
2.43.0


From 7b5c69e55527a5a80dbb2c3bd336301640888010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:21 +0000
Subject: [PATCH 50/53] fix: Delaunay2d dropped points because they were not
 added in the order of their distance

---
 geometry/SR_polygon.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 5cb16dd..6d88714 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1269,10 +1269,9 @@ class Delaunay2d:
             # all the points fall on a line
             return
 
-        # add additional points
-        _pts = set(range(3, len(self.points)))
+        # add additional points in the order of their distance: a point inside of what we have so far would be dropped
         for i in range(3, len(self.points)):
-            self.addPoint(_pts.pop())
+            self.addPoint(i)
 
     def getTriangles(self):
         """
-- 
2.43.0


From a0cba7f3f4c600d3414dbd499b7dc2fc9dd197df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:19 +0000
Subject: [PATCH 51/53] fix: walls of loops found were searched again if the
 loop runs through them in reverse

---
 geometry/SR_line.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index ace3efb..073e760 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -516,8 +516,8 @@ class LineSegment(object):
 
     @property
     def line_reversed(self):
-        """ Returns a LineSegment object with reserved endpoints """
-        return LineSegment(self.j, self.i)
+        """ Returns a segment of the same kind with reversed endpoints """
+        return type(self)(self.j, self.i)
 
     # def angle_at_point(self):
     #     """ The angle between two segments that connect to the same point """
-- 
2.43.0


From 0311ff7d43842d8e9b3e470c142bb0ff9c65de53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:38 +0000
Subject: [PATCH 52/53] fix: order() dropped the segments that are not on the
 ring it found and reported success

---
 geometry/SR_polygon.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 6d88714..019a4ff 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -244,6 +244,10 @@ class PolygonLine(object):
             _end = _nxt.j
             _akt = _nxt
 
+        # segments that are not on the ring: they do not constitute a polygon
+        if not all(x in _ret or x.line_reversed in _ret for x in self._segments):
+            return False
+
         # finished ordering the polygon
         # making sure the resulting polygon is always the same: sorting the segments so that the first is the one
         # that has its i endpoint the closest to the origin
-- 
2.43.0


From 0cd311598842d93b4beceeaef5d2ff76a62bbaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:09 +0000
Subject: [PATCH 53/53] fix: walls of vessels with several rooms were listed
 several times as inner walls

---
 SR_Vessel/SR_hauptteile.py | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index 4c5db3c..fe7fff6 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -289,31 +289,21 @@ class Behalter(PolygonGroup):
                     _cycles_to_check = [x for x in _contained[c] if not any(x in _contained[y] for y in _contained[c])]
                     _direct = list(_cycles_to_check)
                     # first, check the cycles that are overlapping (if any)
-                    _iw = []  # innere Wandung
-                    _visited = []
-                    for k, v in self.overlaps_in_cycles.items():  # k: tuple of cycles that have common segment, eg. (0, 1)
+                    _groups = []  # sets of cycles that are connected by common segments
+                    for k in self.overlaps_in_cycles.keys():  # k: tuple of cycles that have common segment, eg. (0, 1)
                         # only pairs inside of this room, not e.g. the room itself and its neighbour
                         if not all(x in _direct for x in k):
                             continue
-                        # first run
-                        if not _visited:
-                            _iw.append([])
-                            for s in k:
-                                _iw[-1] += [x for x in sic[s] if x not in self.all_overlapping_segments]
-
-                        # later runs
-                        for vindex, _v in enumerate(_visited):
-                            if any([x in _v for x in k]):  # we saw this earlier!
-                                for s in k:
-                                    _iw[vindex] += [x for x in sic[s] if x not in self.all_overlapping_segments]
-                            else:
-                                _iw.append([])
-                                for s in k:
-                                    _iw[-1] += [x for x in sic[s] if x not in self.all_overlapping_segments]
-
-                        _visited.append(k)
+                        _met = [g for g in _groups if g & set(k)]
+                        _groups = [g for g in _groups if g not in _met] + [set(k).union(*_met)]
                         _cycles_to_check = [x for x in _cycles_to_check if x not in k]
 
+                    _iw = []  # innere Wandung. No wall is listed twice
+                    for g in _groups:
+                        _iw.append([])
+                        for s in sorted(g):
+                            _iw[-1] += [x for x in sic[s] if x not in self.all_overlapping_segments and x not in _iw[-1]]
+
                     _r.cycle.append(_iw)
                     _r._innere_wandung += _iw
 
-- 
2.43.0

