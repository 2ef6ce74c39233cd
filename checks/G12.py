# -*- coding: utf-8 -*-
"""Convex hulls."""
from mc.lib import Point, convex_hull, xy, dir_edges
from mc import ref
import itertools

PID = 'G12'
RULE = ('a case is a set of grid points; for every placement, input order and duplication pattern the hull returned by the library is '
        'compared with the exact hull: same corners in the same ccw order starting at the lexicographically smallest point, closed, valid, '
        'and no point of the input outside it')
BOUNDS = {'quick': 'all subsets of a 3x3 grid, all subsets with 3-5 points of a 4x4 grid, 25 sets of up to 34 points, 7 placements (also thirds and sevenths), 3 orders, with duplicates',
          'thorough': 'all 65535 non-empty subsets of a 4x4 grid and all 3-4 point subsets of 5x5, 11 placements, 4 orders, with duplicates'}
ASSUMPTIONS = ['at decimal placements points within 1e-7 of a hull edge may additionally appear as corners']
CHUNK = 64
PL = [(1, 0, 0), (1 / 3., 1 / 7., -2 / 9.), (1000 / 3., 1234.5 / 7, -50 / 3.), (1, -2, -3), (0.1, 0.3, -0.7), (250., -600.25, 100.5), (0.7, 1000.1, -333.3), (0.001, 0, 0), (1, 10 ** 6, -10 ** 6),
      (3, -1, -1), (33.3, -0.1, 0.2)]


def cases(tier):
    for p in ref.big_polygons(tier != 'quick'):
        yield [list(q) for q in p]
    if tier == 'quick':
        g = ref.grid(3, 3)
        for n in range(1, 10):
            for c in itertools.combinations(g, n):
                yield [list(p) for p in c]
        g = ref.grid(4, 4)
        for n in (3, 4, 5):
            for c in itertools.combinations(g, n):
                if max(max(p) for p in c) == 3:
                    yield [list(p) for p in c]
    else:
        g = ref.grid(4, 4)
        for n in range(1, 17):
            for c in itertools.combinations(g, n):
                yield [list(p) for p in c]
        g = ref.grid(5, 5)
        for n in (3, 4):
            for c in itertools.combinations(g, n):
                if max(max(p) for p in c) == 4:
                    yield [list(p) for p in c]


def run(case, ctx):
    pts = [tuple(p) for p in case]
    n = len(pts)
    exact = ref.convex_hull(pts)
    k = sum((i + 1) * (3 * p[0] + p[1]) for i, p in enumerate(pts))
    orders = [pts, pts[::-1], pts[k % n:] + pts[:k % n][::-1], pts[::2] + pts[1::2][::-1]]
    for pi, t in enumerate(PL[:7 if ctx.tier == 'quick' else 11]):
        T = lambda p: (round(t[1] + t[0] * p[0], 8), round(t[2] + t[0] * p[1], 8))
        o = list(orders[(pi + k) % 4])
        if (pi + k) % 2:
            o += o[:(k % n) + 1]
        inp = [T(p) for p in o]
        keep = list(inp)
        ch = convex_hull(inp)
        ctx.equal(inp, keep, 'the input is left alone')
        ctx.step()
        ctx.state((pi, tuple(inp)))
        want = [T(p) for p in exact]
        if n == 1:
            ctx.equal(list(ch), want, 'hull of a single point')
            continue
        got = [xy(s.i) for s in ch.segments]
        w = 'hull of %r' % (inp,)
        ctx.check(ch.isclosed, '%s is not closed', w)
        integral = isinstance(t[0], int)
        if integral or len(exact) == 2:
            if not integral and len(got) != 2:
                pass
            else:
                ctx.equal(got, want, w)
        # corners of the exact hull occur, in order
        sub = [p for p in got if p in set(want)]
        ctx.equal(sub, want, w + ' (corners)')
        for p in got:
            if p not in set(want):
                d = min(dist(p, a, b) for a, b in ref.edges(want))
                ctx.check(d < 1e-7 * max(1, t[0]) and p in set(inp), 'extra corner %r in the %s', p, w)
        if len(exact) > 2:
            ctx.check(ch.isvalid, '%s is not valid', w)
            ctx.check(ch.isconvex, '%s is not convex', w)
            ctx.check(ch.isccw and not ch.iscw, '%s is not ccw', w)
        ctx.outcome((n, len(exact)))


def dist(p, a, b):
    vx, vy = b[0] - a[0], b[1] - a[1]
    l2 = vx * vx + vy * vy
    u = max(0., min(1., ((p[0] - a[0]) * vx + (p[1] - a[1]) * vy) / l2))
    return ((a[0] + u * vx - p[0]) ** 2 + (a[1] + u * vy - p[1]) ** 2) ** .5
