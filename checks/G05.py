# -*- coding: utf-8 -*-
"""Subdividing a segment: equal parts, point at a ratio, insertion of a point; reversing and moving a segment."""
from mc.lib import Point, LineSegment, seg, xy, point_on_line_at_ratio, divide_line, add_point_on_line
from mc import ref
import math

PID = 'G05'
RULE = ('a case is one directed segment under one transform; every division count, ratio, inserted grid point and every '
        'sequence of in-place operations up to the depth is executed and compared with exact values')
BOUNDS = {'quick': 'all directed segments of a 4x4 grid, 7 transforms (three of them thirds), division counts 1..24, ratios k/m (m<=16), all points '
                   'k/8 on the line, all sequences of 7 in-place operations up to depth 3',
          'thorough': 'all directed segments of a 5x5 grid, 9 transforms, division counts 1..64, ratios k/m (m<=32), '
                      'all sequences up to depth 5'}
CHUNK = 4
TR = [(1 / 3., 1 / 7., -2 / 9.), (1000 / 3., 1234.5 / 7, -50 / 3.), (.0123 / 3, .1, .2), (1., 0., 0.), (0.1, 0.3, -0.2), (250., -5000., -300.), (0.7, -100.1, 20.3), (1., -7., -9.), (0.01, 3.3, -2.1)]


def tf(t, p):
    return (round(t[1] + t[0] * p[0], 8), round(t[2] + t[0] * p[1], 8))


def params(tier):
    return (4, 7, 24, 16, 3) if tier == 'quick' else (5, 9, 64, 32, 5)


def cases(tier):
    n, nt = params(tier)[:2]
    pts = ref.grid(n, n)
    for t in range(nt):
        for a in pts:
            for b in pts:
                if a != b:
                    yield [t, a, b]


OPS = [('move', 3.5, -2.), ('move', -0.25, 0.), ('move', 0., 7.), ('mirror', 0.), ('mirror', 4.5), ('mirror', -3.),
       ('reverse',)]


def apply_model(E, op):
    if op[0] == 'move':
        return [(p[0] + op[1], p[1] + op[2]) for p in E]
    if op[0] == 'mirror':
        return [(2 * op[1] - p[0], p[1]) for p in E]
    return E[::-1]


def apply_real(s, op):
    if op[0] == 'move':
        s.move(x0=op[1], y0=op[2])
    elif op[0] == 'mirror':
        s.mirror_vertical(x0=op[1])
    else:
        s.reverse()


def relate(ctx, s, x, w):
    """a part of a segment lies on it"""
    ctx.step()
    ctx.check(s.is_point_on_line(x.i) and s.is_point_on_line(x.j) and s.is_internal_point(x.i) and s.is_internal_point(x.j), '%s: an end of it is not on the segment', w)
    ctx.check(s.is_parallel(x) and x.is_parallel(s), '%s is not parallel with it', w)
    ctx.check(s.is_collinear(x) and x.is_collinear(s), '%s is not collinear with it', w)
    ctx.check(not s.opposite_direction(x) and s.opposite_direction(x.line_reversed), '%s: direction', w)
    o = s.overlap(x)
    ctx.check(o[0] is True and isinstance(o[1], LineSegment) and o[1].loose_equal(x), '%s: overlap %r', w, o)
    o = s.common_part(x)
    ctx.check(isinstance(o, LineSegment) and o.loose_equal(x), '%s: common part %r', w, o)


def run(case, ctx):
    n, nt, nd, nr, depth = params(ctx.tier)
    t = TR[case[0]]
    a, b = tuple(case[1]), tuple(case[2])
    A, B = tf(t, a), tf(t, b)
    w = '%r-%r' % (A, B)
    s = seg(A, B)
    at = lambda r: (A[0] + (B[0] - A[0]) * r, A[1] + (B[1] - A[1]) * r)
    for k in range(1, nd + 1):
        ctx.step()
        ctx.state(('div', case[0], a, b, k))
        d = divide_line(s, k)
        ctx.equal(len(d), k, 'number of parts of %s divided by %d', w, k)
        ctx.equal((xy(d[0].i), xy(d[-1].j)), (A, B), 'ends of the division of %s by %d', w, k)
        for i, x in enumerate(d):
            ctx.check(ref.ptclose(xy(x.i), at(float(i) / k)) and ref.ptclose(xy(x.j), at(float(i + 1) / k)),
                      'part %d of %s divided by %d is %r', i, w, k, x)
            relate(ctx, s, x, 'part %d of %s divided by %d' % (i, w, k))
            if i:
                ctx.equal(xy(x.i), xy(d[i - 1].j), 'consecutive parts of %s divided by %d', w, k)
        ctx.equal((xy(s.i), xy(s.j)), (A, B), 'the divided segment')
    for m in range(1, nr + 1):
        for k in range(m + 1):
            ctx.step()
            r = float(k) / m
            ctx.state(('ratio', case[0], a, b, r))
            g = point_on_line_at_ratio(s, r)
            ctx.check(ref.ptclose(xy(g), at(r)), 'point of %s at ratio %r: %r, expected %r', w, r, g, at(r))
    for r in (-0.1, 1.1, 2, -1):
        try:
            point_on_line_at_ratio(s, r)
        except AssertionError:
            pass
        else:
            ctx.fail('ratio %r accepted' % r)
    for k in range(-4, 13):
        ctx.step()
        P = at(k / 8.)
        p = Point(P)
        g = add_point_on_line(s, p)
        ctx.state(('add', case[0], a, b, k))
        if 0 <= k <= 8:
            ctx.check(g is not False and len(g) == 2, 'insertion of %r in %s: %r', P, w, g)
            ctx.equal((xy(g[0].i), xy(g[0].j), xy(g[1].i), xy(g[1].j)), (A, xy(p), xy(p), B), 'insertion of %r in %s', P, w)
            for x in g:
                if 0 < k < 8:
                    relate(ctx, s, x, 'part of %s by insertion of %r' % (w, P))
        else:
            ctx.equal(g, False, 'insertion of the outer point %r in %s', P, w)
    ctx.equal((xy(s.i), xy(s.j)), (A, B), 'the segment after all queries')
    # in-place operations: every sequence up to the depth (depth first, the real object is rebuilt per sequence)
    def rec(hist, model):
        if hist:
            q = seg(A, B)
            for op in hist:
                apply_real(q, op)
                ctx.step()
            ctx.check(ref.ptclose(xy(q.i), model[0]) and ref.ptclose(xy(q.j), model[1]),
                      '%s after %r: %r, expected %r', w, hist, q, model)
            ctx.check(ref.close(q.norm, math.hypot(B[0] - A[0], B[1] - A[1])), 'length of %s after %r', w, hist)
            ctx.state(('op', case[0], a, b, tuple((round(x, 6), round(y, 6)) for x, y in model)))
        if len(hist) < depth:
            for op in OPS:
                rec(hist + [op], apply_model(model, op))
    rec([], [A, B])
    ctx.outcome('ok')
