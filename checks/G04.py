# -*- coding: utf-8 -*-
"""Common part and overlap of two segments."""
from mc.lib import Point, LineSegment, seg, xy
from mc import ref

PID = 'G04'
RULE = ('a case is one directed segment under one coordinate transform; it is paired with every directed segment of the '
        'grid, and the common part / overlap is compared with the exact set intersection')
BOUNDS = {'quick': 'all ordered pairs of directed segments on a 4x4 grid under 7 transforms (four of them thirds and sevenths) and on a 7-point line in 8 directions',
          'thorough': 'all ordered pairs of directed segments on a 5x5 grid under 10 transforms and on a 9-point line in 16 directions'}
ASSUMPTIONS = ['grid coordinates']
CHUNK = 4
THIRDS = [(1 / 3., 1 / 7., -2 / 9.), (1000 / 3., 1234.5 / 7, -50 / 3.), (.0123 / 3, .1, .2), (1e4 / 7, -3e3 / 11, 77.)]
TR = THIRDS + [(1., 0., 0.), (0.1, 0.3, -0.2), (250., -500., -300.), (0.7, -100.1, 20.3), (1., -7., -9.), (0.01, 3.3, -2.1)]
DIRS = [(1, 0), (0, 1), (1, 1), (1, -1), (1, 2), (-2, 1), (3, 1), (2, -5), (-1, 3), (5, 7), (4, -3), (7, -2), (1, 9),
        (-6, 1), (8, 5), (3, -8)]


def tf(t, p):
    return (round(t[1] + t[0] * p[0], 8), round(t[2] + t[0] * p[1], 8))


def params(tier):
    return (4, 7, 7, 8) if tier == 'quick' else (5, 10, 9, 16)


def cases(tier):
    n, nt, m, nd = params(tier)
    pts = ref.grid(n, n)
    for t in range(nt):
        for a in pts:
            for b in pts:
                if a != b:
                    yield ['grid', t, a, b]
    for t in range(nt):
        for d in range(nd):
            for a in range(m):
                for b in range(m):
                    if a != b:
                        yield ['line', t, d, a, b]


def run(case, ctx):
    n, nt, m, nd = params(ctx.tier)
    t = TR[case[1]]
    if case[0] == 'grid':
        pts = ref.grid(n, n)
        a, b = tuple(case[2]), tuple(case[3])
    else:
        e = DIRS[case[2]]
        pts = [((k - m // 2) * e[0], (k - m // 2) * e[1]) for k in range(m)]
        a, b = pts[case[3]], pts[case[4]]
    A, B = tf(t, a), tf(t, b)
    s = seg(A, B)
    for c in pts:
        for d in pts:
            if c == d:
                continue
            C, D = tf(t, c), tf(t, d)
            o = seg(C, D)
            w = '%r-%r, %r-%r' % (A, B, C, D)
            ctx.state((case[0], case[1], a, b, c, d))
            ctx.step(3)
            cm = ref.seg_common(a, b, c, d)
            g = s.common_part(o)
            ty = s.common_part_type(o)
            judge(ctx, t, cm, g, 'common part of ' + w)
            ctx.equal(ty, None if cm is None else ('Point' if cm[0] == 'P' else 'LineSegment'), 'type of the common part of ' + w)
            v1 = (b[0] - a[0], b[1] - a[1])
            v2 = (d[0] - c[0], d[1] - c[1])
            par = v1[0] * v2[1] - v1[1] * v2[0] == 0
            r = s.overlap(o)
            if not par or cm is None:
                ctx.equal(tuple(r), (False, None), 'overlap of ' + w)
            else:
                ctx.equal(r[0], True, 'overlap of ' + w)
                judge(ctx, t, cm, r[1], 'overlap of ' + w)
            ctx.outcome((par, cm and cm[0]))
            ctx.equal((xy(s.i), xy(s.j), xy(o.i), xy(o.j)), (A, B, C, D), 'operands of the queries')


def judge(ctx, t, cm, g, w):
    if cm is None:
        ctx.equal(g, None, w)
    elif cm[0] == 'P':
        P = tf(t, (float(cm[1][0]), float(cm[1][1])))
        ctx.check(isinstance(g, Point), '%s: got %r, expected the point %r', w, g, P)
        ctx.check(ref.ptclose(xy(g), P), '%s: got %r, expected the point %r', w, g, P)
    else:
        want = sorted([tf(t, cm[1]), tf(t, cm[2])])
        ctx.check(isinstance(g, LineSegment), '%s: got %r, expected the segment %r', w, g, want)
        got = sorted([xy(g.i), xy(g.j)])
        ctx.check(all(ref.ptclose(x, y) for x, y in zip(got, want)), '%s: got %r, expected the segment %r', w, got, want)
