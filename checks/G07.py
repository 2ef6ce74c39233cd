# -*- coding: utf-8 -*-
"""order(): the segments of a cycle in any order and direction become one closed continuous ring."""
from mc.lib import Point, LineSegment, PolygonLine, seg, dir_edges, edge_multiset, xy
from mc import ref, hist
from SR_Vessel.SR_hauptteile import Wall, NonWall
import itertools
import math
import copy

PID = 'G07'
RULE = ('a case is a simple ring (or an open chain) and the position of its first segment; every permutation of the '
        'remaining segments and every pattern of reversed segments is ordered by the real code, and the result is compared '
        'with the ring')
BOUNDS = {'quick': 'all simple polygons with 3-4 vertices on a shifted 3x3 grid x all permutations x all flips; 20 polygons with '
                   '5 vertices x all; 2 with 6 vertices x all; regular rings of 7..300 segments x 6 reorderings; open chains of '
                   '2..4 segments x all; all sets of 2 or more edges of four networks (rings with tails, several rings, branches) in 48-60 '
                   'arrangements, of three kinds of segments',
          'thorough': 'all simple polygons with 3-5 vertices x all permutations x all flips; 40 with 6 vertices x all; regular '
                      'rings of 7..400 segments; open chains of 2..5 segments x all; the networks of quick'}
CHUNK = 1
OFFS = [(0, 0), (-1, -1), (3, -2)]


def rings(tier):
    pts = ref.grid(3, 3)
    out = []
    for n in (3, 4):
        out += ref.simple_polygons(pts, n, n)
    five = list(ref.simple_polygons(pts, 5, 5))
    six = list(ref.grow_polygons(pts, 6))
    if tier == 'quick':
        out += five[::max(1, len(five) // 20)][:20]
        out += six[7::len(six) // 2][:2]
    else:
        out += five + six[::max(1, len(six) // 40)][:40]
    return out


def cases(tier):
    for i, poly in enumerate(rings(tier)):
        n = len(poly)
        offs = OFFS if n < 5 else [OFFS[i % 3]]
        for o in offs:
            for first in range(n):
                yield ['ring', [[p[0] + o[0], p[1] + o[1]] for p in poly], first]
    for poly in rings(tier):
        n = len(poly)
        if n - 1 <= (4 if tier == 'quick' else 5) and n > 2:
            for first in range(n - 1):
                if n < 5 or hash(poly) % (7 if tier == 'quick' else 3) == 0:
                    yield ['open', [list(p) for p in poly], first]
    for n in ([7, 8, 12, 25, 60, 130, 251, 300] if tier == 'quick' else [7, 8, 9, 12, 16, 25, 40, 60, 100, 130, 200, 249, 250, 251, 300, 400]):
        for k in range(6):
            yield ['big', n, k]


    for n in sorted(NETS):
        for m in range(1, 2 ** len(NETS[n][1])):
            if bin(m).count('1') >= 2:
                yield ['net', n, m]


# every set of edges of these: rings, chains, rings with tails, several rings, branches
NETS = {
    'k4': ([(0, 0), (4, 0), (1, 3), (2, 1), (7, 7)], [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3), (1, 4)]),
    'two': ([(1, 1), (4, 2), (2, 4), (-1, -1), (-3, -2), (-2, -4)], [(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3), (0, 3), (2, 4)]),
    'grid': ([(-2, -1), (0, -1), (2, -1), (-2, 1), (0, 1), (2, 1)], [(0, 1), (1, 2), (3, 4), (4, 5), (0, 3), (1, 4), (2, 5)]),
    'nest': ([(0, 0), (9, 0), (0, 9), (2, 2), (4, 2), (2, 4)], [(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3)]),
}


def net(case, ctx):
    pts, edges = NETS[case[1]]
    es = [(pts[a], pts[b]) for i, (a, b) in enumerate(edges) if case[2] >> i & 1]
    n = len(es)
    deg = {}
    for e in es:
        for v in e:
            deg[v] = deg.get(v, 0) + 1
    comp = set(es[0])
    for _ in es:
        comp |= set(v for e in es if set(e) & comp for v in e)
    ring = n > 2 and set(deg.values()) == {2} and len(comp) == len(deg)
    euler = all(d % 2 == 0 for d in deg.values()) and len(comp) == len(deg)
    want = sorted(tuple(sorted((float(p[0]), float(p[1])) for p in e)) for e in es)
    for k in range(n):
        for step in (1, -1, 2):
            o = (es[k:] + es[:k])[::step] if step != 2 else (es[k:] + es[:k])[::2] + (es[k:] + es[:k])[1::2]
            for mask in (0, 2 ** n - 1, 0x55, 0x36, 0x0f, 1, 2, 0x49):
                for dup in (False, True):
                    a = [e[::-1] if mask >> i & 1 else e for i, e in enumerate(o)]
                    if dup:         # a repeated segment of a directed ring counts once (the library drops it)
                        if step != 1 or mask or len(set(e[0] for e in a)) < n:
                            continue
                        a.insert(k // 2, a[n // 2])
                    kinds = [(LineSegment, Wall, NonWall)[(i * (mask % 3)) % 3] for i in range(len(a))]
                    if dup:
                        kinds = [LineSegment] * len(a)
                    pl = PolygonLine([c(Point(p), Point(q)) for c, (p, q) in zip(kinds, a)])
                    r = pl.order()
                    ctx.step()
                    w = 'of %r' % (a,)
                    ctx.check(r is True or r is False, 'result of ordering %s: %r', w, r)
                    if not ring and not (euler and r):
                        ctx.equal(r, False, 'result of ordering %s (no closed ring)' % w)
                        ctx.equal(pl.ordered_copy(), False, 'ordered copy %s (no closed ring)' % w)
                    else:
                        judge_ring(ctx, pl, None, want, w, r)
                        if not dup:
                            ctx.equal(sorted((s.__class__.__name__, tuple(sorted((xy(s.i), xy(s.j))))) for s in pl.segments),
                                      sorted((c.__name__, tuple(sorted((float(p[0]), float(p[1])) for p in e))) for c, e in zip(kinds, a)), 'kinds of the segments ' + w)
    ctx.state(case)
    ctx.outcome(('net', ring, euler))


def judge_ring(ctx, pl, segs, edges, w, ret):
    ctx.equal(ret, True, 'result of ordering ' + w)
    ctx.equal(edge_multiset(pl), edges, 'segments of the ordered ring ' + w)
    de = dir_edges(pl)
    for x, y in zip(de, de[1:] + de[:1]):
        ctx.equal(y[0], x[1], 'successive segments of the ordered ring of %s: %r' % (w, de))
    d = [math.hypot(*e[0]) for e in de]
    ctx.check(d[0] <= min(d) + 1e-9, 'the ordered ring of %s does not start nearest to the origin: %r', w, de)


def run(case, ctx):
    if case[0] == 'net':
        return net(case, ctx)
    if case[0] == 'big':
        n, k = case[1:]
        P = [(round(10 * math.cos(2 * math.pi * i / n) + 3, 6), round(7 * math.sin(2 * math.pi * i / n) - 2, 6)) for i in range(n)]
        es = list(zip(P, P[1:] + P[:1]))
        if k == 1:
            es = es[::-1]
        elif k == 2:
            es = es[::2] + es[1::2]
        elif k == 3:
            es = [e[::-1] if i % 2 else e for i, e in enumerate(es)]
        elif k == 4:
            es = [e[::-1] if i % 3 else e for i, e in enumerate(es[n // 2:] + es[:n // 2][::-1])]
        elif k == 5:
            es = [e[::-1] for e in es]
        pl = PolygonLine([seg(*e) for e in es])
        r = pl.order()
        ctx.step()
        ctx.state(('big', n, k))
        judge_ring(ctx, pl, None, sorted(tuple(sorted(e)) for e in es), 'the ring of %d segments, arrangement %d' % (n, k), r)
        ctx.outcome('big')
        return
    kind, P, first = case
    P = [tuple(map(float, p)) for p in P]
    es = list(zip(P, P[1:] + P[:1]))
    if kind == 'open':
        es = es[:-1]
    want = sorted(tuple(sorted(e)) for e in es)
    rest = [e for i, e in enumerate(es) if i != first]
    m = len(es)
    start = None
    if kind == 'ring':
        nat = PolygonLine([seg(*e) for e in es])
        nat.order()
        start = xy(nat.first_point)
    for perm in itertools.permutations(rest):
        arr = [es[first]] + list(perm)
        for flips in range(2 ** m):
            a = [e[::-1] if flips >> i & 1 else e for i, e in enumerate(arr)]
            pl = PolygonLine([seg(*e) for e in a])
            r = pl.order()
            ctx.step()
            if kind == 'open':
                ctx.equal(r, False, 'result of ordering the open chain %r' % (a,))
            else:
                judge_ring(ctx, pl, None, want, repr(a), r)
                ctx.equal(xy(pl.first_point), start, 'start of the ordered ring %r (as for any other arrangement of the ring)' % (a,))
                if m == 3 or flips in (1, 2 ** m - 2):
                    c = PolygonLine([seg(*e) for e in a])
                    before = dir_edges(c)
                    o = c.ordered_copy()
                    ctx.equal(dir_edges(c), before, 'the original after ordered_copy of %r' % (a,))
                    ctx.check(isinstance(o, PolygonLine), 'ordered_copy of %r returned %r', a, o)
                    judge_ring(ctx, o, None, want, 'ordered copy of %r' % (a,), True)
                    # ordering again changes nothing, and the ring moves as a whole
                    e1 = dir_edges(pl)
                    ctx.equal(pl.order(), True, 'ordering twice')
                    judge_ring(ctx, pl, None, want, 'ordered twice %r' % (a,), True)
                    ctx.equal((pl.isclosed, pl.iscontinuous, pl.isvalid), (True, True, True), 'state of the ordered ring %r' % (a,))
                    pl.move(x0=2.5, y0=-1)
                    ctx.equal(edge_multiset(pl), sorted(tuple(sorted((p[0] + 2.5, p[1] - 1) for p in e)) for e in want),
                              'ordered ring of %r, moved' % (a,))
        ctx.state((kind, tuple(P), tuple(arr)))
    ctx.outcome((kind, m))
