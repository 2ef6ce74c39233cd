# -*- coding: utf-8 -*-
"""The alternative triangulations: Delaunay triangulation of points, ear clipping of polygons."""
from mc.lib import *
from mc import ref, rnd
import itertools
import math

PID = 'G18'
RULE = '(D) a case is a set of lattice points: the triangles of Delaunay2d have corners in the set, use every point, have an area, do not overlap, fill ' \
       'the convex hull, have no other point in their circumcircle, and the edges are those of the triangles; (E) a case is a simple polygon: the ' \
       'triangles of ear clipping lie in the polygon and do not overlap, and fill it if success is reported; the polygon itself is unchanged'
BOUNDS = {'quick': 'D: all sets of 3-6 points of 3x3 and 4-5 of 4x3, 6 placements (also thirds and sevenths), 2 orders, 25 sets of up to 34 points; E: all simple polygons with 3-6 vertices on 3x3 (every 3rd with 6), 2 directions',
          'thorough': 'D: all sets of 3-9 points of 3x3, 4-6 of 4x3, 4-5 of 4x4, 6 placements (also thirds and sevenths), 3 orders; E: all simple polygons with 3-7 vertices on 3x3, 4-5 on 4x3, 2 directions, 3 variants of the random source'}
CHUNK = 16
ASSUMPTIONS = ['lattice points, scaled and moved', 'ear clipping may report failure (documented); it is then only required that its triangles lie in the polygon']
PL = [(1., 0., 0.), (1 / 3., 1 / 7., -2 / 9.), (1000 / 3., 1234.5 / 7, -50 / 3.), (.3, -.7, .4), (250., 1000., -40.), (1., -7., -9.)]


def cases(tier):
    q = tier == 'quick'
    for W, H, ks in ((3, 3, range(3, 7)), (4, 3, (4, 5))) if q else ((3, 3, range(3, 10)), (4, 3, (4, 5, 6)), (4, 4, (4, 5))):
        for k in ks:
            for ps in itertools.combinations(ref.grid(W, H), k):
                if any(ref.cross(ps[0], ps[1], p) for p in ps):
                    yield ['D', [list(p) for p in ps]]
    for p in ref.big_polygons(not q):
        yield ['D', [list(x) for x in p]]
        if len(p) < 13:
            yield ['E', [list(x) for x in p]]
    for n in range(3, 7 if q else 8):
        l = ref.grow_polygons(ref.grid(3, 3), n)
        for p in itertools.islice(l, 0, None, 3) if q and n == 6 else l:
            yield ['E', [list(x) for x in p]]
    if not q:
        for n in (4, 5):
            for p in ref.grow_polygons(ref.grid(4, 3), n):
                if min(x[0] for x in p) == 0 and max(x[0] for x in p) == 3:
                    yield ['E', [list(x) for x in p]]


def run(case, ctx):
    pts = [tuple(p) for p in case[1]]
    (points if case[0] == 'D' else ears)(pts, ctx)


def points(pts, ctx):
    hull = ref.convex_hull(pts)
    total = abs(ref.area2(hull))
    for pi, t in enumerate(PL if len(pts) < 10 else PL[len(pts) % 3::3]):
        T = lambda p: (round(t[1] + t[0] * p[0], 8), round(t[2] + t[0] * p[1], 8))
        back = dict((T(p), p) for p in pts)
        for o in range(2 if ctx.tier == 'quick' else 3):
            l = [pts, pts[::-1], pts[1::2] + pts[::2]][o]
            pl = poly_separate([T(p) for p in l])
            d = Delaunay2d(pl)
            d.triangulate()
            w = 'of %r' % ([T(p) for p in l],)
            ctx.check(set(xy(p) for p in d.points) == set(back), 'points %s', w)
            idx = [frozenset(x) for x in d.getTriangles()]
            tr = [[back[xy(d.points[i])] for i in x] for x in d.getTriangles()]
            a2 = [abs(ref.cross(*x)) for x in tr]
            ctx.check(all(a2), 'a triangle without area %s: %r', w, tr)
            ctx.equal(sum(a2), total, 'area (doubled, on the lattice) of the triangles %r %s' % (tr, w))
            ctx.equal(set(p for x in tr for p in x), set(pts), 'corners %s' % w)
            for x, y in itertools.combinations(tr, 2):
                ctx.check(ref.interior_disjoint(ccw(x), ccw(y)), 'triangles %r and %r overlap %s', x, y, w)
            for x in tr:
                x = ccw(x)
                for p in pts:
                    ctx.check(incircle(x, p) <= 0, 'point %r is in the circle of %r %s', p, x, w)
            ctx.equal(set(frozenset(e) for e in d.getEdges()), set(frozenset(e) for f in idx for e in itertools.combinations(f, 2)), 'edges %s' % w)
            ctx.step()
            ctx.state(('D', pi, o, tuple(pts)))
    ctx.outcome(('D', len(pts), len(hull), len(tr)))


def ccw(t):
    return t if ref.cross(*t) > 0 else [t[0], t[2], t[1]]


def incircle(t, p):
    m = [[q[0] - p[0], q[1] - p[1]] for q in t]
    m = [r + [r[0] ** 2 + r[1] ** 2] for r in m]
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def ears(pts, ctx):
    n = len(pts)
    total = abs(ref.area2(pts))
    for v in range(2 if ctx.tier == 'quick' else 6):
        t = PL[(v + n + sum(map(sum, pts))) % 6]
        T = lambda p: (round(t[1] + t[0] * p[0], 8), round(t[2] + t[0] * p[1], 8))
        back = dict((T(p), p) for p in pts)
        rnd.reset(v // 2)
        q = [T(p) for p in (pts[::-1] if v & 1 else pts)]
        pl = poly_separate(q)
        before = dir_edges(pl)
        ok = pl.ear_clipping()
        w = 'of %r' % (q,)
        ctx.equal(dir_edges(pl), before, 'the polygon itself')
        tr = [ccw([back[xy(p)] for p in x.point_set]) for x in pl.triangles]
        for x, y in itertools.combinations(tr, 2):
            ctx.check(ref.interior_disjoint(x, y), 'triangles %r and %r overlap %s', x, y, w)
        for x in tr:
            ctx.check(ref.locate((sum(p[0] for p in x) / 3., sum(p[1] for p in x) / 3.), pts) > 0, 'triangle %r lies outside %s', x, w)
            for a, b in zip(x, x[1:] + x[:1]):
                ctx.check(ref.locate(((a[0] + b[0]) / 2., (a[1] + b[1]) / 2.), pts) >= 0, 'side %r, %r of a triangle lies outside %s', a, b, w)
        got = sum(abs(ref.cross(*x)) for x in tr)
        if ok:
            ctx.equal(got, total, 'area (doubled, on the lattice) of the triangles %r %s' % (tr, w))
        else:
            ctx.check(got <= total, 'area %r of the triangles %s', got, w)
        ctx.step()
        ctx.state(('E', v, tuple(pts)))
        ctx.outcome(('E', n, bool(ok), len(tr)))


def post(tier, outcomes, counters, states):
    if len(outcomes) < 15:
        return 'outcomes %r' % outcomes
