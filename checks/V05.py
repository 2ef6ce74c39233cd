# -*- coding: utf-8 -*-
"""Geometry of the parts: shells, dished heads, flat ends, room ends, skirts."""
from mc.lib import *
from mc import ref, rnd
from SR_Vessel import SR_hauptteile as H
import itertools
import math

PID = 'V05'
RULE = 'a case is a kind of part and a tuple of parameters (diameters, height, position, orientation); walls, non-walls, outline, ' \
       'validity, graph, size, and inside/outside of probe points are compared with the contour defined by the parameters'
BOUNDS = {'quick': 'shells, cones (also to a tip) and skirts: 6x6 diameters x 3 heights x 10 positions (4 with walls on the axes); heads: 2 kinds x 2 directions x 6 diameters x 3 straight lengths x 6 positions; '
                   'flat and room ends: 8 diameters x 6 positions; 25 probe points each',
          'thorough': 'shells: 10x10 diameters x 6 heights x 12 positions; heads: 12 diameters x 6 x 12 positions; ends 20 x 12; 81 probe points each'}
CHUNK = 8
ASSUMPTIONS = ['parameters are positive decimals, magnitudes 0.1 to 10000']
POS = [(0., 0.), (.1, -.7), (-7.7, 33.3), (1000.3, -20.), (3., 4.), (-12.25, -9.125), (1. / 3, 2. / 3), (0., 1e-3), (5e3, 7e3), (-.05, .05), (8., -8.), (-1e3, 0.)]
DIA = [2., .3, 3.7, 100. / 3, 1000., 2500.5, 4., .7, 1.1, 10.]
HGT = [1., .35, 12.7, 3., 250., .1]


def cases(tier):
    q = tier == 'quick'
    nd, nh, np_ = (6, 3, 6) if q else (10, 6, 12)
    for k in ('Mantel', 'StandZarge'):
        for d1, d2, h, p in itertools.product(DIA[:nd], DIA[:nd], HGT[:nh], POS[:np_]):
            yield [k, d1, d2, h, p[0], p[1]]
        for d1, d2, h in itertools.product(DIA[:nd], DIA[:nd], HGT[:nh]):       # walls on the axes
            for x, y in ((d1 / 2, 0.), (-d2 / 2, -h), (d2 / 2, -h), (-d1 / 2, -h / 2)):
                yield [k, d1, d2, h, x, y]
    for d, h, p in itertools.product(DIA[:nd], HGT[:nh], POS[:np_]):            # cones that run to a tip
        yield ['Mantel', d, 0., h, p[0], p[1]]
        yield ['Mantel', 0., d, h, p[0], p[1]]
    dh = DIA[:nd] if q else DIA + [150., 33.3]
    for k in ('Klopperboden', 'Korbbogenboden'):
        for d, h1, o, p in itertools.product(dh, [.025, .1, .5, .01, .2, .35][:3 if q else 6], (1, -1), POS[:np_]):
            yield [k, d, h1 * d, o, p[0], p[1]]
        for d, o in itertools.product(dh, (1, -1)):
            for x, y in ((d / 2, 0.), (-d / 2, -.1 * d), (d / 4, .1 * d)):
                yield [k, d, .1 * d, o, x, y]
    for k in ('Flachboden', 'RaumEnde'):
        for d, p in itertools.product(DIA[:8] if q else DIA + [x * 1.7 for x in DIA], POS[:np_]):
            yield [k, d, p[0], p[1]]
            yield [k, d, p[0] - d / 2, p[1]]


def make(c):
    k = getattr(H, c[0])
    if c[0] in ('Mantel', 'StandZarge'):
        return k(name='p', pos_v=c[5], pos_h=c[4], d=(c[1], c[2]), h=c[3])
    if c[0] in ('Klopperboden', 'Korbbogenboden'):
        return k(name='p', pos_v=c[5], pos_h=c[4], d=c[1], h1=c[2], orient=c[3])
    return k(name='p', pos_v=c[3], pos_h=c[2], d=c[1])


def contour(c):
    """([(kind, a, b)], outline vertices in order or None, graph edges, typ, characteristic size)"""
    if c[0] in ('Mantel', 'StandZarge'):
        _, d1, d2, h, x, y = c
        a, b, e, f = (x + d1 / 2, y), (x + d2 / 2, y + h), (x - d2 / 2, y + h), (x - d1 / 2, y)
        segs = [('Wall', a, b), ('NonWall', b, e), ('Wall', e, f), ('Wall' if c[0] == 'StandZarge' else 'NonWall', f, a)]
        return segs, [a, b, e, f], [s[1:] for s in segs if s[0] == 'Wall'], 'mantel', min(d1, d2) / 2
    if c[0] in ('Flachboden', 'RaumEnde'):
        _, d, x, y = c
        segs = [('Wall', (x - d / 2, y), (x + d / 2, y))]
        return segs, None, [segs[0][1:]], 'flachboden' if c[0] == 'Flachboden' else 'raumende', d / 2
    k, d, h1, o, x, y = c
    R1, R2 = (d, .1 * d) if k == 'Klopperboden' else (.8 * d, .154 * d)
    h = math.sqrt((R1 - R2) ** 2 - (d / 2 - R2) ** 2)
    al = math.acos(h / (R1 - R2))                       # half angle of the calotte
    pts = [(d / 2, 0.)]
    n = H.KREMPE_SEGMENTS
    right = [(d / 2 - R2 + R2 * math.cos((math.pi / 2 - al) * i / n), h1 + R2 * math.sin((math.pi / 2 - al) * i / n)) for i in range(n + 1)]
    pts += right
    m = H.KALOTTE_SEGMENTS
    for i in range(1, m):
        t = math.pi / 2 - al + 2 * al * i / m
        pts.append((R1 * math.cos(t), h1 - h + R1 * math.sin(t)))
    pts += [(-a, b) for a, b in right[::-1]]
    pts.append((-d / 2, 0.))
    pts = [(x + o * a, y + o * b) for a, b in pts]
    segs = [('Wall', a, b) for a, b in zip(pts, pts[1:])] + [('NonWall', pts[-1], pts[0])]
    hg = max(.1, d / 1000.)
    return segs, pts, [((x - d / 2, y), (x, y + o * hg)), ((x, y + o * hg), (x + d / 2, y))], 'boden', d / 2


def near(a, b, s):
    return abs(a[0] - b[0]) < s and abs(a[1] - b[1]) < s


def run(c, ctx):
    part = make(c)
    segs, ring_, graph, typ, size = contour(c)
    big = max(abs(v) for s in segs for p in s[1:] for v in p)
    tol = 1e-7 + 1e-9 * big
    ctx.state(c)
    have = [(s.__class__.__name__, xy(s.i), xy(s.j)) for s in part.segments]
    rest = list(have)
    for w in segs:
        for g in rest:
            if g[0] == w[0] and (near(g[1], w[1], tol) and near(g[2], w[2], tol) or
                                 w[0] == 'NonWall' and near(g[1], w[2], tol) and near(g[2], w[1], tol)):
                rest.remove(g)
                break
        else:
            ctx.fail('%s %r -> %r is missing: %r' % (w + (have,)))
    ctx.check(not rest, 'segments that do not belong to the part: %r', rest)
    # the graph: undirected
    rest = dir_edges(part.graph)
    for a, b in graph:
        for g in rest:
            if near(g[0], a, tol) and near(g[1], b, tol) or near(g[0], b, tol) and near(g[1], a, tol):
                rest.remove(g)
                break
        else:
            ctx.fail('%r -> %r is missing in the graph: %r' % (a, b, dir_edges(part.graph)))
    ctx.check(not rest, 'segments of the graph that do not belong to it: %r', rest)
    ctx.equal(part.typ, typ, 'typ')
    if c[0] != 'RaumEnde':
        ctx.check(abs(part.characteristic_size - size) < 1e-9 * max(1, size), 'characteristic size %r, expected %r', part.characteristic_size, size)
    ctx.equal(sorted(xy(s.i) for s in part.wall_segments), sorted(g[1] for g in have if g[0] == 'Wall'), 'wall segments')
    ctx.equal(sorted(xy(s.i) for s in part.nonwall_segments), sorted(g[1] for g in have if g[0] == 'NonWall'), 'non-wall segments')
    ctx.check(part.isvalid is True or part.isvalid == True, 'the part is not valid')
    if ring_ is not None:
        pl = part.polygonline
        ctx.check(pl.iscontinuous and pl.isclosed and pl.isvalid, 'the outline is not continuous, closed and valid')
        ctx.check(pl.isccw == True, 'the outline is not counter-clockwise')
        # the shoelace formula about the lower left corner
        x0, y0 = ring_[0]
        a = abs(sum((p[0] - x0) * (q[1] - y0) - (p[1] - y0) * (q[0] - x0) for p, q in zip(ring_, ring_[1:] + ring_[:1]))) / 2
        ctx.check(abs(pl.area - a) < 1e-6 * max(1, a, big), 'area %r, expected %r', pl.area, a)
        lo, hi = [min(p[i] for p in ring_) for i in (0, 1)], [max(p[i] for p in ring_) for i in (0, 1)]
        n = 5 if ctx.tier == 'quick' else 9
        for i in range(n):
            for j in range(n):
                p = (round(lo[0] + (hi[0] - lo[0]) * (-.1 + 1.2 * (i + .37) / n), 6), round(lo[1] + (hi[1] - lo[1]) * (-.1 + 1.2 * (j + .41) / n), 6))
                if min(dist(p, s[1], s[2]) for s in segs) < 1e-4 * max(1., hi[0] - lo[0]):
                    continue
                rnd.reset(i % 3)
                ctx.equal(bool(part.is_internal_point(p=Point(p))), ref.locate(p, ring_) > 0, 'point %r is inside' % (p,))
        ctx.step(n * n)
    else:
        y = segs[0][1][1]
        if c[0] == 'Flachboden':
            for t, want in ((.25, True), (.5, True), (-.25, False), (1.5, False), (0., False), (1., False)):
                p = segs[0][1][0] + t * c[1]
                ctx.equal(bool(part.is_internal_point(p=Point((p, y)))), want, 'point at %r is inside of the flat end' % t)
            ctx.equal(bool(part.is_internal_point(p=Point((c[2], y + .2)))), False, 'a point above is inside of the flat end')
    ctx.step(4)
    ctx.outcome((c[0], c[1] == c[2] if c[0] in ('Mantel', 'StandZarge') else c[3] if len(c) == 6 else ''))


def dist(p, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    if dx == dy == 0:
        return math.hypot(p[0] - a[0], p[1] - a[1])
    t = max(0., min(1., ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / (dx * dx + dy * dy)))
    return math.hypot(p[0] - a[0] - t * dx, p[1] - a[1] - t * dy)


def post(tier, outcomes, counters, states):
    if len(outcomes) < 10:
        return 'only %r' % outcomes
