# -*- coding: utf-8 -*-
"""Relations of two segments: equality, parallelism, collinearity, intersection, touching, continuity."""
from mc.lib import Point, LineSegment, seg, xy, intersecting_lines
from mc import ref
from fractions import Fraction as F

PID = 'G03'
RULE = ('a case is one directed segment under one coordinate transform; it is paired with every directed segment of the '
        'grid, in both argument orders, and every relation is compared with exact rational arithmetic')
BOUNDS = {'quick': 'all ordered pairs of directed segments on a 4x4 grid (57 600) under 9 coordinate transforms (four of them thirds and sevenths)',
          'thorough': 'all ordered pairs of directed segments on a 5x5 grid (360 000) under 12 coordinate transforms'}
ASSUMPTIONS = ['grid coordinates; two segments with the same end points are not judged for touching']
CHUNK = 4
THIRDS = [(1 / 3., 1 / 7., -2 / 9.), (1000 / 3., 1234.5 / 7, -50 / 3.), (.0123 / 3, .1, .2), (1e4 / 7, -3e3 / 11, 77.)]
TR = [(1., 0., 0.), (0.1, 0.3, -0.2), (250., -500., -300.), (0.7, -100.1, 20.3), (1., -7., -9.), (0.01, 3.3, -2.1),
      (0.5, 5000.25, 5.), (3.3, 100.1, -1000.1)]


def params(tier):
    return (4, TR[:5] + THIRDS) if tier == 'quick' else (5, TR + THIRDS)


def tf(t, p):
    return (round(t[1] + t[0] * p[0], 8), round(t[2] + t[0] * p[1], 8))


def cases(tier):
    n, tr = params(tier)
    pts = ref.grid(n, n)
    for t in range(len(tr)):
        for a in pts:
            for b in pts:
                if a != b:
                    yield [t, a, b]


def kind(x):
    return x


def run(case, ctx):
    n, tr = params(ctx.tier)
    t = tr[case[0]]
    a, b = tuple(case[1]), tuple(case[2])
    A, B = tf(t, a), tf(t, b)
    s = seg(A, B)
    pts = ref.grid(n, n)
    for c in pts:
        for d in pts:
            if c == d:
                continue
            C, D = tf(t, c), tf(t, d)
            o = seg(C, D)
            ctx.state((case[0], a, b, c, d))
            ctx.step(11)
            w = '%r-%r, %r-%r' % (A, B, C, D)
            v1 = (b[0] - a[0], b[1] - a[1])
            v2 = (d[0] - c[0], d[1] - c[1])
            par = v1[0] * v2[1] - v1[1] * v2[0] == 0
            same = (a, b) == (c, d)
            loose = {a, b} == {c, d}
            ctx.equal(s == o, same, 'equality of ' + w)
            ctx.equal(s != o, not same, 'inequality of ' + w)
            ctx.equal(s.loose_equal(o), loose, 'loose equality of ' + w)
            if same:
                ctx.equal(hash(s), hash(o), 'hash of equal segments')
            ctx.equal(s.is_parallel(o), par, 'parallel ' + w)
            ctx.equal(s.is_intersecting(o), not par, 'intersecting ' + w)
            col = ref.cross(a, b, c) == 0 and ref.cross(a, b, d) == 0
            ctx.equal(s.is_collinear(o), col, 'collinear ' + w)
            ip = ref.line_ip(a, b, c, d)
            g = s.intersection_point(o)
            if ip is None:
                ctx.equal(g, None, 'intersection point of ' + w)
            else:
                IP = (t[1] + t[0] * float(ip[0]), t[2] + t[0] * float(ip[1]))
                ctx.check(g is not None and ref.ptclose(xy(g), IP, 1e-6), 'intersection point of %s: %r, expected %r', w, g, IP)
            shared = {a, b} & {c, d}
            if not loose:
                ctx.equal(s.touch(o), len(shared) == 1, 'touch ' + w)
                ctx.equal(s.continuous(o), b == c or a == d, 'continuous ' + w)
            ons = ip is not None and not shared and ref.on_seg(ip, a, b) and ref.on_seg(ip, c, d)
            ctx.equal(s.intersection_on_segment(o), ons, 'intersection on the segments ' + w)
            one = ip is not None and ip in (a, b, c, d)
            ctx.equal(s.intersection_on_endpoint(o), one, 'intersection in an end point ' + w)
            ctx.equal(len(intersecting_lines([s, o])), int(ons), 'number of intersecting pairs in ' + w)
            ctx.outcome((par, col, len(shared), ons, one))
            ctx.equal((xy(s.i), xy(s.j), xy(o.i), xy(o.j)), (A, B, C, D), 'operands of the queries')
