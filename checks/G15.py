# -*- coding: utf-8 -*-
"""Simplification: collinear points, outlier segments, walking a set of segments, chaining collinear points."""
from mc.lib import (Point, LineSegment, PolygonLine, seg, xy, dir_edges, edge_multiset, poly_shared, poly_separate, ring,
                    remove_collinear_points, remove_outlier_segments, simplify, walk_segments, segments_from_pointset)
from mc import ref
import copy
import itertools

PID = 'G15'
RULE = ('(C) every simple polygon of the bound: removing collinear points keeps exactly the real corners and the shape; (E) every set of '
        'edges between five points (1023 sets), in several orders, orientations and placements: removing outliers removes exactly the segments with a '
        'free end and their reference points, walking finds the cycle if the set is one cycle and never anything that is not a cycle of the '
        'set; (L) every set of collinear points on a lattice line is chained into the shortest path')
BOUNDS = {'quick': 'C: all simple polygons with 3-7 vertices on 3x3 and every 5th with 8-9, 25 with up to 34 corners, 3 of 6 placements (also thirds and sevenths), all first vertices; E: 1023 edge sets x 6 '
                   'variants; L: all subsets with 2-6 points of 7 lattice positions x 4 directions',
          'thorough': 'C: all simple polygons with 3-9 vertices on 3x3 and 4-6 on 4x3, 6 placements, all first vertices, both directions; E: '
                      '1023 edge sets x 40 variants and all 20349 sets of 6 points with up to 7 edges...; L: as quick with 9 positions'}
BOUNDS['thorough'] = BOUNDS['thorough'].replace('all 20349 sets of 6 points with up to 7 edges...', 'all sets of up to 6 edges between six points')
ASSUMPTIONS = ['closed simple polygons for (C)']
CHUNK = 8
PL = [(1., 0., 0.), (1 / 3., 1 / 7., -2 / 9.), (1000 / 3., 1234.5 / 7, -50 / 3.), (0.3, -0.7, 0.4), (250., 1000., -40.), (1., -7., -9.)]
P5 = [(0, 0), (5, 1), (4, 5), (-1, 4), (2, 2.5), (7, 3)]


def cases(tier):
    q = tier == 'quick'
    g = ref.grid(3, 3)
    for n in range(3, 10):
        l = ref.grow_polygons(g, n)
        if q and n > 7:
            l = itertools.islice(l, 0, None, 5)
        for p in l:
            yield ['C', [list(x) for x in p]]
    if not q:
        g = ref.grid(4, 3)
        for n in (4, 5, 6):
            for p in ref.grow_polygons(g, n):
                if min(x[0] for x in p) == 0 and max(x[0] for x in p) == 3:
                    yield ['C', [list(x) for x in p]]
    for p in ref.big_polygons(not q):
        yield ['C', [list(x) for x in p]]
    e5 = list(itertools.combinations(range(5), 2))
    for m in range(1, 1024):
        yield ['E', [list(e) for i, e in enumerate(e5) if m >> i & 1]]
    if not q:
        e6 = list(itertools.combinations(range(6), 2))
        for n in range(1, 7):
            for c in itertools.combinations(e6, n):
                if any(5 in e for e in c):
                    yield ['E', [list(e) for e in c]]
    k = 7 if q else 9
    for n in range(2, 7):
        for c in itertools.combinations(range(k), n):
            yield ['L', list(c)]


def run(case, ctx):
    if case[0] == 'C':
        collinear([tuple(p) for p in case[1]], ctx)
    elif case[0] == 'E':
        edgeset([tuple(e) for e in case[1]], ctx)
    else:
        line(case[1], ctx)


def collinear(poly, ctx):
    n = len(poly)
    corners = [poly[i] for i in range(n) if ref.cross(poly[i - 1], poly[i], poly[(i + 1) % n]) != 0]
    for pi in range(3 if ctx.tier == 'quick' else 6):
        t = PL[(pi + n + sum(map(sum, poly))) % 6]
        T = lambda p: (round(t[1] + t[0] * p[0], 8), round(t[2] + t[0] * p[1], 8))
        for k in range(n) if n < 10 else range(pi, n, n // 4):
            for d in ((k + pi) % 2,) if ctx.tier == 'quick' else (0, 1):
                q = poly[k:] + poly[:k]
                q = [T(p) for p in (q[::-1] if d else q)]
                pl = (poly_shared if k % 2 else poly_separate)(q)
                before = dir_edges(pl)
                r = remove_collinear_points(pl)
                w = 'of %r without collinear points' % (q,)
                ctx.equal(dir_edges(pl), before, 'the polygon itself')
                ctx.check(r.isclosed and r.isvalid, 'the simplified polygon is not closed or not valid %s: %r', w, r)
                ctx.equal(ref.canon_cycle(ring(r)), ref.canon_cycle([T(p) for p in corners]), 'corners %s' % w)
                ctx.step()
                ctx.state(('C', tuple(q)))
                ctx.outcome(('C', n, n - len(corners)))


def edgeset(es, ctx):
    deg = {}
    for e in es:
        for v in e:
            deg[v] = deg.get(v, 0) + 1
    n = len(es)
    keep = [e for e in es if deg[e[0]] > 1 and deg[e[1]] > 1]
    conn = len(deg) == n and all(d == 2 for d in deg.values()) and connected(es)
    for var in range(6 if ctx.tier == 'quick' else 40):
        t = PL[var % 6]
        T = lambda k: (round(t[1] + t[0] * P5[k][0], 8), round(t[2] + t[0] * P5[k][1], 8))
        order = es[var % n:] + es[:var % n]
        if var % 3 == 1:
            order = order[::-1]
        if var % 3 == 2:
            order = order[::2] + order[1::2]
        mask = (0, 2 ** n - 1, 0x2aa, 0x155, 0x0f3, 0x31c, 0x2d6, 0x16b)[(var + n) % 8]
        order = [e[::-1] if mask >> i & 1 else e for i, e in enumerate(order)]
        pool = {k: Point(T(k)) for k in range(6)}
        segs = [LineSegment(pool[a], pool[b]) if var & 1 else seg(T(a), T(b)) for a, b in order]
        w = 'of the segments %r' % [(T(a), T(b)) for a, b in order]
        kept = [(T(a), T(b)) for a, b in order if (min(a, b), max(a, b)) in keep]
        r = remove_outlier_segments(segs)
        ctx.equal(dir_edges(r), kept, 'rest after removing outliers %s' % w)
        ctx.equal(len(segs), n, 'the list itself')
        # simplify: also removes the reference points of the outliers
        if keep:
            pl = PolygonLine(copy.deepcopy(segs))
            for i, s in enumerate(list(pl.segments)):
                pl.add_internal_point(Point((1000 + i, 0)), segment=s)
                pl.add_external_point(Point((2000 + i, 0)), segment=s)
            simplify(pl)
            ctx.equal(dir_edges(pl), kept, 'segments after simplify %s' % w)
            ids = [i for i, (a, b) in enumerate(order) if (min(a, b), max(a, b)) in keep]
            ctx.equal([p.x for p in pl.internal], [1000. + i for i in ids], 'internal points after simplify %s' % w)
            ctx.equal([p.x for p in pl.external], [2000. + i for i in ids], 'external points after simplify %s' % w)
        # walking
        src = edge_multiset(segs)
        r = walk_segments(segments=segs)
        ctx.equal(edge_multiset(segs), src, 'the segments after walking')
        if conn:
            ctx.check(r is not False, 'no cycle was found although the set is one %s', w)
            ctx.equal(edge_multiset(r), src, 'the walked cycle %s' % w)
        if r is not False:
            got = edge_multiset(r)
            ctx.check(r.isclosed and len(set(got)) == len(got) and set(got) <= set(src), 'walk found %r, not a cycle %s', r, w)
            ctx.equal(len(set(ring(r))), len(got), 'the walked cycle visits every point once %s' % w)
            br = set(T(v) for v in deg if deg[v] > 2) & set(ring(r))
            ctx.check(len(br) <= 1, 'the walked cycle %r passes the branches %r %s', ring(r), br, w)
        ctx.step(3)
        ctx.state(('E', var, tuple(order)))
        ctx.outcome(('E', n - len(keep), conn, r is not False))


def connected(es):
    seen = {es[0][0]}
    while True:
        new = set(v for e in es if set(e) & seen for v in e) - seen
        if not new:
            return all(e[0] in seen for e in es)
        seen |= new


def line(pos, ctx):
    for di, d in enumerate([(1, 0), (0, 1), (1, 1), (2, -1)]):
        for var in range(3):
            t = PL[(di + var) % 6]
            o = [pos, pos[::-1], pos[1::2] + pos[::2]][var]
            T = lambda k: (round(t[1] + t[0] * d[0] * k, 8), round(t[2] + t[0] * d[1] * k, 8))
            pts = [Point(T(k)) for k in o]
            r = segments_from_pointset(pts)
            w = 'of the collinear points %r: %r' % ([T(k) for k in o], r)
            ch = [xy(s.i) for s in r] + [xy(r[-1].j)]
            want = [T(k) for k in sorted(o)]
            ctx.check(ch in (want, want[::-1]), 'chain %s', w)
            ctx.check(all(x.j == y.i for x, y in zip(r, r[1:])), 'chain is not continuous %s', w)
            ctx.equal([xy(p) for p in pts], [T(k) for k in o], 'the points themselves')
            ctx.step()
            ctx.state(('L', di, var, tuple(pos)))
            ctx.outcome(('L', len(pos)))


def post(tier, outcomes, counters, states):
    if len(outcomes) < 20:
        return 'outcomes %r' % outcomes
