# -*- coding: utf-8 -*-
"""Exact reference geometry (integers / Fractions) and the enumerators of the bounded spaces."""
from fractions import Fraction as F
import itertools
import math


def frac(x):
    """exact value of a coordinate written with at most 8 decimals"""
    if isinstance(x, (int, F)):
        return F(x)
    return F(int(round(x * 10 ** 8)), 10 ** 8)


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def sgn(x):
    return (x > 0) - (x < 0)


def on_seg(p, a, b):
    """p on the closed segment ab"""
    return cross(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) \
        and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def line_ip(a, b, c, d):
    """intersection of the lines ab, cd; None if parallel"""
    rx, ry = b[0] - a[0], b[1] - a[1]
    sx, sy = d[0] - c[0], d[1] - c[1]
    den = rx * sy - ry * sx
    if den == 0:
        return None
    t = F((c[0] - a[0]) * sy - (c[1] - a[1]) * sx) / F(den)
    return (a[0] + t * rx, a[1] + t * ry)


def seg_common(a, b, c, d):
    """common part of two closed segments: None, ('P', p) or ('S', p, q) with p < q"""
    d1 = (b[0] - a[0]) * (d[1] - c[1]) - (b[1] - a[1]) * (d[0] - c[0])
    if d1 != 0:
        p = line_ip(a, b, c, d)
        if on_seg(p, a, b) and on_seg(p, c, d):
            return ('P', p)
        return None
    if cross(a, b, c) != 0:
        return None
    lo = max(min(a, b), min(c, d))
    hi = min(max(a, b), max(c, d))
    if lo > hi:
        return None
    if lo == hi:
        return ('P', lo)
    return ('S', lo, hi)


def area2(poly):
    return sum(poly[i][0] * poly[(i + 1) % len(poly)][1] - poly[(i + 1) % len(poly)][0] * poly[i][1]
               for i in range(len(poly)))


def edges(poly):
    n = len(poly)
    return [(poly[i], poly[(i + 1) % n]) for i in range(n)]


def locate(p, poly):
    """1 inside, 0 on the boundary, -1 outside (exact, simple polygon)"""
    inside = False
    for a, b in edges(poly):
        if on_seg(p, a, b):
            return 0
        if (a[1] > p[1]) != (b[1] > p[1]):
            # x of the edge at height p.y
            x = a[0] + F((p[1] - a[1]) * (b[0] - a[0])) / F(b[1] - a[1])
            if x > p[0]:
                inside = not inside
    return 1 if inside else -1


def is_simple(poly):
    es = edges(poly)
    n = len(es)
    if n < 3 or len(set(poly)) != n:
        return False
    for i in range(n):
        for j in range(i + 1, n):
            c = seg_common(es[i][0], es[i][1], es[j][0], es[j][1])
            if c is None:
                continue
            if c[0] == 'S':
                return False
            if j == i + 1 or (i == 0 and j == n - 1):
                continue   # the shared vertex (a point: anything else was 'S')
            return False
    return True


def simple_polygons(points, nmin, nmax, collinear=True):
    """every simple polygon with vertices in `points`, one representative per cyclic order and direction
    (smallest vertex first, second < last).  collinear=False: no 180 degree vertices."""
    points = sorted(points)
    out = []
    for n in range(nmin, nmax + 1):
        for sub in itertools.combinations(points, n):
            first = sub[0]
            for perm in itertools.permutations(sub[1:]):
                if perm[0] > perm[-1]:
                    continue
                poly = (first,) + perm
                if not is_simple(poly):
                    continue
                if not collinear and any(cross(poly[i - 1], poly[i], poly[(i + 1) % n]) == 0 for i in range(n)):
                    continue
                out.append(poly)
    return out


def grow_polygons(points, n, collinear=True):
    """as simple_polygons for one n, by backtracking (prunes crossing paths early); yields tuples"""
    points = sorted(points)
    for fi, first in enumerate(points):
        rest = points[fi + 1:]
        path = [first]

        def ok(a, b, closing=False):
            es = [(path[i], path[i + 1]) for i in range(len(path) - 1)]
            for k, (c, d) in enumerate(es):
                cm = seg_common(a, b, c, d)
                if cm is None:
                    continue
                if cm[0] == 'S':
                    return False
                if k == len(es) - 1 and cm[1] == a:
                    continue
                if closing and k == 0 and cm[1] == b:
                    continue
                return False
            return True

        def rec():
            if len(path) == n:
                if path[1] < path[-1] and ok(path[-1], first, True):
                    poly = tuple(path)
                    if collinear or all(cross(poly[i - 1], poly[i], poly[(i + 1) % n]) for i in range(n)):
                        yield poly
                return
            for q in rest:
                if q in path:
                    continue
                if ok(path[-1], q):
                    path.append(q)
                    for r in rec():
                        yield r
                    path.pop()

        for r in rec():
            yield r


def convex_hull(pts):
    """strictly convex hull, ccw, starting at the lexicographically smallest point"""
    pts = sorted(set(pts))
    if len(pts) <= 2:
        return pts
    lo = []
    for p in pts:
        while len(lo) >= 2 and cross(lo[-2], lo[-1], p) <= 0:
            lo.pop()
        lo.append(p)
    up = []
    for p in reversed(pts):
        while len(up) >= 2 and cross(up[-2], up[-1], p) <= 0:
            up.pop()
        up.append(p)
    return lo[:-1] + up[:-1]


def interior_disjoint(t1, t2):
    """two triangles (or strictly convex polygons): is the area of the intersection zero (separating line test)"""
    for A, B in ((t1, t2), (t2, t1)):
        s = sgn(area2(A))
        for a, b in edges(A):
            if all(s * cross(a, b, q) <= 0 for q in B):
                return True
    return False


def closed_disjoint(t1, t2):
    """no common point at all"""
    for a, b in edges(t1):
        for c, d in edges(t2):
            if seg_common(a, b, c, d) is not None:
                return False
    return locate(t2[0], t1) < 0 and locate(t1[0], t2) < 0


def close(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def ptclose(p, q, tol=1e-6):
    return abs(p[0] - q[0]) <= tol * max(1., abs(q[0])) and abs(p[1] - q[1]) <= tol * max(1., abs(q[1]))


def grid(nx, ny, x0=0, y0=0, step=1):
    return [(x0 + i * step, y0 + j * step) for i in range(nx) for j in range(ny)]


def canon_cycle(poly):
    """canonical form of a cyclic vertex sequence regardless of start and direction"""
    poly = list(poly)
    n = len(poly)
    best = None
    for d in (poly, poly[::-1]):
        for k in range(n):
            c = tuple(d[k:] + d[:k])
            if best is None or c < best:
                best = c
    return best


def big_polygons(deep=False):
    """simple lattice polygons of many corners: combs, stairs, spirals, convex arcs, stars, rings with many points on a side"""
    out = []
    for n in (2, 3, 5, 8) + ((13, 20) if deep else ()):
        comb = [(0, 0), (2 * n - 1, 0)]
        for i in range(n - 1, -1, -1):
            comb += [(2 * i + 1, 3 + i % 2), (2 * i, 3 + i % 3)] + ([(2 * i, 1), (2 * i - 1, 1)] if i else [])
        out.append(comb)
        stairs = [(n, 0)] + [p for i in range(n) for p in ((n - i, i + 1), (n - i - 1, i + 1))] + [(0, 0)]
        out.append(stairs)
        arc = [(x, x * x) for x in range(-n, n + 1)]                      # convex
        out.append(arc)
        out.append([(x * 3, x * x) for x in range(-n, n + 1)] + [(x, n * n + 2 * n * n - x * x) for x in range(n, -n - 1, -1)])
        side = [(i, 0) for i in range(n + 2)] + [(n + 1, i) for i in range(1, 4)] + [(i, 3) for i in range(n, -1, -1)] + [(0, 2), (0, 1)]
        out.append(side)                                                  # a rectangle with a point at every unit
        k = 2 * n
        star = []
        for i in range(k):
            t = 2 * math.pi * i / k
            r = 40 if i % 2 else 100
            star.append((int(round(r * math.cos(t))), int(round(r * math.sin(t)))))
        out.append(star)
    out.append([(0, 0), (7, 0), (7, 7), (0, 7), (0, 2), (5, 2), (5, 5), (2, 5), (2, 4), (4, 4), (4, 3), (1, 3), (1, 6), (6, 6), (6, 1), (0, 1)])
    assert all(is_simple(p) for p in out)
    return [tuple(p) for p in out]
    return [p for p in out if is_simple(p)]
