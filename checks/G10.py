# -*- coding: utf-8 -*-
"""Area and triangulation of simple polygons: a partition of the polygon, and always that of the current geometry."""
from mc.lib import Point, LineSegment, PolygonLine, poly_shared, poly_separate, poly_alias, xy, dir_edges
from mc import ref, rnd, hist
import copy
import itertools

PID = 'G10'
RULE = ('space A: every simple polygon of the bound x placement x direction x first vertex x random-source variant is '
        'triangulated and its area compared with the shoelace area; the triangles must be a partition of the polygon (vertices of '
        'the polygon only, pairwise disjoint interiors, inside, areas add up).  space B: every history of queries and motions up to the '
        'depth on every initial object, after which area and triangulation must be those of the current geometry')
BOUNDS = {'quick': 'A: all simple polygons with 3-6 vertices on a 3x3 grid (every 3rd with 7), 25 polygons with up to 34 corners, 3 of 12 placements each (also thirds and sevenths), every ninth of 4 uneven spacings (tiny corners, small units); B: 6 objects x all '
                   'sequences of 13 operations up to depth 3',
          'thorough': 'A: all simple polygons with 3-9 vertices on a 3x3 grid and with 3-5 on 4x3, 12 placements x 2 directions x 2 random '
                      'variants, 4 uneven spacings each; B: 8 objects x 3 sharing patterns x all sequences of 13 operations up to depth 4'}
ASSUMPTIONS = ['areas are compared with tolerance 1e-6 relative', 'the C library triangle is part of the system under test']
CHUNK = 4
PL = [(1., 0., 0.), (1 / 3., 1 / 7., -2 / 9.), (1000 / 3., 1234.5 / 7, -50 / 3.), (0.3, -7.7, -9.1), (250., -600., 100.), (1., -2., -2.), (0.1, 5.3, -0.2), (1., -40., -2000.),
      (25., -50., 1000.), (0.05, 0.01, 0.02), (1000., 0., 0.), (7., 123.456, -654.321)]
TINY = [((0., .01, 5.), (0., .01, 5.)), ((-3., -2.99, 2.), (0., 4., 4.01)), ((0., .005, .01), (-.01, -.005, 0.)), ((0., .02, .5), (-1., -.98, 0.))]
SHAPES = [('tri', [(0, 0), (4, 1), (1, 3)], True), ('quad', [(1, 1), (5, 1), (5, 4), (1, 4)], True),
          ('open4', [(-1, 0), (2, -1), (3, 2), (0, 2.5)], False), ('arrow', [(0, 0), (4, 0), (1, 1), (0, 4)], True),
          ('ell', [(0, 0), (4, 0), (4, 1), (1, 1), (1, 3), (0, 3)], True),
          ('mid', [(-3, -3), (-1, -3), (1, -3), (1, 2), (-1, 2), (-3, 2)], True),
          ('far', [(1000.5, -2000), (1003, -1999), (1001, -1997)], True),
          ('saw', [(0, 0), (6, 0), (6, 3), (4, 1), (3, 3), (2, 1), (0, 3)], True)]
OPS = [('area',), ('tri',), ('force',), ('move', 2.5, -1.), ('move', -30., 0.), ('mirror', 3.), ('rot', 90), ('rot', 30),
       ('rotxy', 1., 2., 180), ('append', 'new1'), ('prepend', 'new2'), ('close',), ('copy',)]

_P = {}


def polys(tier):
    if tier not in _P:
        pts = ref.grid(3, 3)
        out = []
        for n in (3, 4, 5, 6):
            out += list(ref.grow_polygons(pts, n))
        seven = list(ref.grow_polygons(pts, 7))
        if tier == 'quick':
            out += seven[::3]
        else:
            out += seven + list(ref.grow_polygons(pts, 8)) + list(ref.grow_polygons(pts, 9))
            g = ref.grid(4, 3)
            for n in (3, 4, 5):
                out += [p for p in ref.grow_polygons(g, n) if min(q[0] for q in p) == 0 and max(q[0] for q in p) == 3]
        _P[tier] = out
    return _P[tier]


def cases(tier):
    for k, p in enumerate(polys(tier)):
        if all(c < 3 for q in p for c in q):
            for j in range(len(TINY)):
                if (k + j) % (9 if tier == 'quick' else 1) == 0:
                    yield ['A', 100 + j, k % 4, [list(q) for q in p]]
    # B first: histories
    nshape = 6 if tier == 'quick' else 8
    for si in range(nshape):
        for mi in range(1 if tier == 'quick' else 3):
            for o in range(len(OPS)):
                for o2 in range(len(OPS)):
                    yield ['B', si, mi, o, o2]
    for k, p in enumerate(ref.big_polygons(tier != 'quick')):
        for j in range(2 if tier == 'quick' else 6):
            yield ['A', (k + 5 * j) % 9, (k + j) % 4, [list(q) for q in p]]
    for k, p in enumerate(polys(tier)):
        for j in range(3 if tier == 'quick' else 12):
            for v in range(1 if tier == 'quick' else 4):
                yield ['A', (k + j) % len(PL), v, [list(q) for q in p]]


def partition(ctx, pl, P, w):
    """P: exact (or nearly exact) vertex list of the current geometry"""
    exact = all(abs(c * 1e8 - round(c * 1e8)) < 1e-3 for p in P for c in p)
    Q = [(ref.frac(p[0]), ref.frac(p[1])) for p in P]
    A2 = abs(ref.area2(Q))
    want = float(A2) / 2
    tris = list(pl.triangles)
    ctx.check(len(tris) > 0, 'no triangles %s', w)
    T = []
    for t in tris:
        vs = [xy(s.i) for s in t.segments]
        ctx.equal(len(vs), 3, 'corners of a triangle %s', w)
        ids = []
        for v in vs:
            k = [i for i, p in enumerate(P) if abs(p[0] - v[0]) < 1e-6 and abs(p[1] - v[1]) < 1e-6]
            ctx.check(len(k) == 1, 'triangle corner %r is not a vertex of the polygon %r %s', v, P, w)
            ids.append(k[0])
        ctx.equal(len(set(ids)), 3, 'different corners %s', w)
        tri = [Q[i] for i in ids]
        ctx.check(ref.close(t.area, abs(float(ref.area2(tri))) / 2), 'area of triangle %r: %r %s', vs, t.area, w)
        T.append(tri)
    s = sum(abs(float(ref.area2(t))) / 2 for t in T)
    ctx.check(ref.close(s, want), 'the triangles of %r cover %r instead of %r %s', P, s, want, w)
    # disjointness and containment are judged on the lattice polygon when coordinates are rotated by a general angle
    if exact:
        for a, b in itertools.combinations(T, 2):
            ctx.check(ref.interior_disjoint(a, b), 'triangles %r and %r overlap %s', a, b, w)
        for t in T:
            c = (sum(p[0] for p in t) / 3, sum(p[1] for p in t) / 3)
            ctx.equal(ref.locate(c, Q), 1, 'centre of triangle %r inside %r %s' % (t, P, w))
    ctx.count('triangles', len(tris))


def run(case, ctx):
    if case[0] == 'A':
        v = case[2]
        poly = [tuple(p) for p in case[3]]
        if (len(poly) + case[1]) % 2:
            poly = poly[::-1]
        if v & 1:
            poly = poly[::-1]
        k = (case[1] + v) % len(poly)
        poly = poly[k:] + poly[:k]
        if case[1] >= 100:                      # uneven spacing: tiny corners, small units
            X, Y = TINY[case[1] - 100]
            P = [(X[int(p[0])], Y[int(p[1])]) for p in poly]
            if not ref.is_simple([(ref.frac(a), ref.frac(b)) for a, b in P]):
                return
        else:
            t = PL[case[1]]
            P = [(round(t[1] + t[0] * p[0], 8), round(t[2] + t[0] * p[1], 8)) for p in poly]
        rnd.reset(v >> 1)
        pl = (poly_shared if (v ^ k) & 1 else poly_separate)(P)
        before = dir_edges(pl)
        want = abs(float(ref.area2([(ref.frac(a), ref.frac(b)) for a, b in P]))) / 2
        ctx.check(ref.close(pl.area, want), 'area of %r: %r, expected %r', P, pl.area, want)
        ctx.check(ref.close(pl.detailled_area['triangle'], want), 'detailled area of %r: %r', P, pl.detailled_area)
        pl.triangulate()
        partition(ctx, pl, P, '')
        ctx.equal(dir_edges(pl), before, 'the polygon after triangulation')
        ctx.step(4)
        ctx.state(('A', case[1], v, tuple(P)))
        ctx.outcome((len(P), len(pl.triangles)))
        return
    _, si, mi, o, o2 = case
    name, pts, closed = SHAPES[si]
    mask = (2 ** len(pts) - 1, 0, 0b0110101 & (2 ** len(pts) - 1))[mi]
    pre0 = (OPS[o], OPS[o2])
    depth = 3 if ctx.tier == 'quick' else 4
    seqs = [()]
    for d in range(1, depth - 1):
        seqs += list(itertools.product(range(len(OPS)), repeat=d))
    for seq in seqs:
        ops = list(pre0) + [OPS[i] for i in seq]
        pl = poly_alias(pts, mask, closed)
        m = hist.Model(pts, closed)
        done = []
        ok = True
        for op in ops:
            if op[0] in ('append', 'prepend', 'close') and (m.closed() or not m.enabled(op)):
                ok = False
                break
            if op[0] == 'area':
                pl.area
            elif op[0] == 'tri':
                pl.triangulate()
            elif op[0] == 'force':
                pl.triangulate(force=True)
            else:
                pl = hist.real(pl, op, m, Point, copy)
                m.apply(op)
            done.append(op)
            ctx.step()
        if not ok:
            continue
        w = '(%s, sharing %s, after %r)' % (name, bin(mask), done)
        if m.closed():
            P = m.verts()[:-1]
            R = [(round(a, 8), round(b, 8)) for a, b in P]
            if not ref.is_simple([(ref.frac(a), ref.frac(b)) for a, b in R]):
                continue
            want = abs(float(ref.area2([(ref.frac(a), ref.frac(b)) for a, b in R]))) / 2
            if len(done) % 2:
                pl.triangulate()
                partition(ctx, pl, R, w) if not any(op[0] == 'rot' and op[1] % 90 for op in done) else loose(ctx, pl, R, w, want)
                ctx.check(ref.close(pl.area, want), 'area %r, expected %r %s', pl.area, want, w)
            else:
                ctx.check(ref.close(pl.area, want), 'area %r, expected %r %s', pl.area, want, w)
                pl.triangulate()
                partition(ctx, pl, R, w) if not any(op[0] == 'rot' and op[1] % 90 for op in done) else loose(ctx, pl, R, w, want)
            ctx.outcome((name, len(pl.triangles)))
        ctx.state((si, mi, tuple((round(a[0], 4), round(a[1], 4)) for e in m.e for a in e), tuple(o[0] for o in done)))


def loose(ctx, pl, R, w, want):
    s = 0
    for t in pl.triangles:
        vs = [xy(x.i) for x in t.segments]
        for v in vs:
            ctx.check(any(abs(p[0] - v[0]) < 1e-6 and abs(p[1] - v[1]) < 1e-6 for p in R),
                      'triangle corner %r is not a vertex of the polygon %r %s', v, R, w)
        s += t.area
    ctx.check(ref.close(s, want), 'the triangles cover %r instead of %r %s', s, want, w)


def post(tier, outcomes, counters, states):
    if counters.get('triangles', 0) < 1000:
        return 'hardly any triangle was checked'
