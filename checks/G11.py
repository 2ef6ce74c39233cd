# -*- coding: utf-8 -*-
"""Convexity and orientation of closed polygons."""
from mc.lib import Point, poly_shared, poly_separate, xy, dir_edges
from mc import ref
import copy

PID = 'G11'
RULE = ('a case is a simple polygon; for every placement, direction, sharing of points, and for the polygon after '
        'every sequence of motions and reversals up to the depth, isconvex, iscw and isccw are compared with the exact turn signs and the '
        'sign of the exact area')
BOUNDS = {'quick': 'all simple polygons with 3-6 vertices on a 3x3 grid, every 5th with 7-9, 8 bays with up to 9 reflex corners and 25 polygons with up to 34 corners; 8 placements (also thirds and sevenths, side lengths from 0.01), 2 directions, motion '
                   'sequences up to depth 1',
          'thorough': 'all simple polygons with 3-9 vertices on a 3x3 grid and 3-5 on 4x3; 11 placements (side lengths from 0.002 to 1000), 2 directions, motion sequences up '
                      'to depth 2'}
ASSUMPTIONS = ['closed simple polygons']
CHUNK = 8
PL = [(1., 0., 0.), (1 / 3., 1 / 7., -2 / 9.), (1000 / 3., 1234.5 / 7, -50 / 3.), (0.1, 0.3, 0.7), (0.3, -7.7, -9.1), (0.01, 3.3, 4.7), (1., -2., -2.), (0.7, 1000.1, -333.3),
      (250., -600., 100.), (33.3, -0.1, 0.2), (0.002, -0.7, 0.1)]
MOT = [('move', -3.3, 0.7), ('mirror', 0.35), ('rot', 90), ('rot', 33), ('rotxy', 1.1, -2.2, 225)]
_P = {}


def polys(tier):
    if tier not in _P:
        pts = ref.grid(3, 3)
        out = []
        for n in (3, 4, 5, 6):
            out += list(ref.grow_polygons(pts, n))
        big = []
        for n in (7, 8, 9):
            big += list(ref.grow_polygons(pts, n))
        out += big[::5] if tier == 'quick' else big
        if tier != 'quick':
            g = ref.grid(4, 3)
            for n in (3, 4, 5):
                out += [p for p in ref.grow_polygons(g, n) if min(q[0] for q in p) == 0 and max(q[0] for q in p) == 3]
        # bays: more reflex than convex corners
        for m in range(2, 10):
            out.append(((0, 0), (20, 0), (20, 20)) + tuple((x, x * x / 20.) for x in range(2 * m, 0, -2)))
        out += ref.big_polygons(tier != 'quick')
        _P[tier] = out
    return _P[tier]


def cases(tier):
    for k, p in enumerate(polys(tier)):
        yield [k, [list(q) for q in p]]


def apply(pl, m):
    if m[0] == 'move':
        pl.move(x0=m[1], y0=m[2])
    elif m[0] == 'mirror':
        pl.mirror_vertical(x0=m[1])
    elif m[0] == 'rot':
        pl.rotate_about_origin(phi=m[1])
    else:
        pl.rotate_about_xy(x0=m[1], y0=m[2], phi=m[3])


def run(case, ctx):
    k, poly = case[0], [tuple(p) for p in case[1]]
    n = len(poly)
    seqs = [()] + [(m,) for m in MOT]
    if ctx.tier == 'thorough' and n < 7:
        seqs += [(a, b) for a in MOT for b in MOT]
    npl = 8 if ctx.tier == 'quick' else 11
    for d in (0, 1):
        q = poly[::-1] if d else poly
        r = k % n
        q = q[r:] + q[:r]
        turns = [ref.sgn(ref.cross(q[i - 1], q[i], q[(i + 1) % n])) for i in range(n)]
        convex = all(x >= 0 for x in turns) or all(x <= 0 for x in turns)
        ccw = ref.area2(q) > 0
        for pi in range(npl):
            t = PL[pi]
            P = [(round(t[1] + t[0] * p[0], 8), round(t[2] + t[0] * p[1], 8)) for p in q]
            for si, seq in enumerate(seqs):
                if si and (si + pi + k) % npl:       # every motion sequence is met with some placement of every polygon
                    if ctx.tier == 'quick':
                        continue
                    if (si + pi + k) % 3:
                        continue
                pl = (poly_shared if (d + pi) % 2 else poly_separate)(P)
                flip = False
                for m in seq:
                    apply(pl, m)
                    flip ^= m[0] == 'mirror'
                w = '%r after %r' % (P, seq)
                ctx.equal(pl.isvalid, True, 'validity of the simple polygon %s', w)
                ctx.equal(pl.isconvex, convex, 'isconvex of %s', w)
                ctx.equal(pl.isccw, ccw != flip, 'isccw of %s', w)
                ctx.equal(pl.iscw, ccw == flip, 'iscw of %s', w)
                ctx.step(4 + len(seq))
                ctx.state((tuple(P), seq))
                ctx.outcome((convex, ccw != flip, len(P)))


def post(tier, outcomes, counters, states):
    if len(outcomes) < 10:
        return 'outcomes %r' % outcomes
