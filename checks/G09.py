# -*- coding: utf-8 -*-
"""Point in polygon, for every position, size and every choice of the random probe rays."""
from mc.lib import Point, PolygonLine, poly_shared, poly_separate, xy
from mc import ref, rnd

PID = 'G09'
RULE = ('a case is a simple polygon at one placement; every probe point of a half-step grid around it is classified under '
        'every scripted answer of the random source: generic sequences, and sequences in which up to two of the three probe '
        'rays run exactly through a chosen vertex; the answers are compared with exact location')
BOUNDS = {'quick': 'all simple polygons with 3-5 vertices on a 3x3 grid and every 40th with 6, at 8 placements (all quadrants, thirds and sevenths, scales '
                   '0.1 to 300, decimals) and 25 polygons with up to 34 corners (combs, stairs, arcs, stars, a spiral), 49 probe points + 8 far points, 2 generic ray sequences, one ray through each vertex',
          'thorough': 'all simple polygons with 3-6 vertices on a 3x3 grid, every 25th with 7-8 vertices, 10 placements, 6 generic ray '
                      'sequences, one or two of three rays through each vertex'}
ASSUMPTIONS = ['three of three independent random rays hitting vertices (probability zero) is excluded',
               'a point on the boundary is not internal']
CHUNK = 4
PL = [(1., 0., 0.), (1 / 3., 1 / 7., -2 / 9.), (1000 / 3., 1234.5 / 7, -50 / 3.), (1., -1., -1.), (1., -2., -2.), (0.3, -7.7, -9.1), (300., -600., 100.), (0.1, 5.3, -0.2), (1., -40., -2000.),
      (25., -50., 1000.)]


def polys(tier):
    pts = ref.grid(3, 3)
    out = []
    for n in (3, 4, 5):
        out += list(ref.grow_polygons(pts, n))
    six = list(ref.grow_polygons(pts, 6))
    if tier == 'quick':
        out += six[::40]
    else:
        out += six + list(ref.grow_polygons(pts, 7))[::25] + list(ref.grow_polygons(pts, 8))[::25]
    return out


_P = {}


def get(tier):
    if tier not in _P:
        _P[tier] = polys(tier)
    return _P[tier]


def cases(tier):
    for k, p in enumerate(get(tier)):
        for t in range(8 if tier == 'quick' else 10):
            yield [t, [list(q) for q in p]]
    for k, p in enumerate(ref.big_polygons(tier != 'quick')):
        for t in (k % 8, (k + 3) % 8):
            yield [t, [list(q) for q in p]]


def run(case, ctx):
    t = PL[case[0]]
    poly = [tuple(p) for p in case[1]]
    if len(poly) > 3 and sum(map(sum, poly)) % 2:
        poly = poly[::-1]      # both directions occur
    T = lambda p: (round(t[1] + t[0] * p[0], 8), round(t[2] + t[0] * p[1], 8))
    P = [T(p) for p in poly]
    pl = (poly_shared if len(poly) % 2 else poly_separate)(P)
    probes = [(u / 2., v / 2.) for u in range(-1, 6) for v in range(-1, 6)] + \
             [(-30, 1), (40, 1), (1, 50), (1, -60), (30, 40), (-20, -20), (1.5, 900), (700, 0.5)]
    if max(max(p) for p in poly) > 2:         # a large one: points on the rows and columns of its corners and beside them
        c = [(p[0] + q[0]) / 2. for p, q in zip(poly, poly[1:])][::max(1, len(poly) // 12)]
        r = [(p[1] + q[1]) / 2. for p, q in zip(poly[1:], poly[2:])][::max(1, len(poly) // 12)]
        probes = [(u, v) for u in sorted(set(c)) for v in sorted(set(r))][::2] + [(p[0] + .5, p[1]) for p in poly] + list(poly[::2])
    quick = ctx.tier == 'quick'
    for g in probes:
        where = ref.locate((ref.frac(g[0]), ref.frac(g[1])), poly)
        q = T(g)
        p = Point(q)
        ctx.state((case[0], tuple(poly), g))
        ctx.outcome(where)
        scripts = [(v, None, ()) for v in range(2 if quick else 6)]
        for k, v in enumerate(P):
            if quick:
                scripts.append((0, v, ((k + len(scripts)) % 3,)))
            else:
                scripts += [(0, v, (0,)), (1, v, (1,)), (2, v, (2,)), (3, v, (0, 1)), (4, v, (1, 2))]
        for var, v, which in scripts:
            rnd.reset(var)
            if v is not None and where != 0:
                a = rnd.aim(q, v, which)
            ctx.step()
            if where != 0:
                ctx.equal(pl.is_internal_point(p=p), where == 1, '%r inside %r (rays %r)', q, P, (var, v, which))
                if v is not None:
                    ctx.count('rays through a vertex', a.done)
                    rnd.unaim()
                if v is None:
                    ctx.equal(pl.is_external_point(p=p), where == -1, '%r outside %r', q, P)
            else:
                ctx.equal(pl.is_internal_point(p=p), False, 'the boundary point %r inside %r', q, P)
            if v is None:
                ctx.equal(pl.is_on_boundary(p=p), where == 0, '%r on the boundary of %r', q, P)


def post(tier, outcomes, counters, states):
    if len(outcomes) < 3:
        return 'inside, outside and boundary were not all met: %r' % outcomes
