# -*- coding: utf-8 -*-
"""Rigid motions of polygon lines along every operation history and for every way of sharing points."""
from mc.lib import Point, PolygonLine, poly_alias, dir_edges, xy
from mc import ref, hist
import copy
import itertools

PID = 'G06'
RULE = ('a case is an initial polygon line (shape, open/closed, and for every vertex whether the two neighbouring segments '
        'share one point object) and the first operation; all operation sequences up to the depth are executed on the real '
        'object and compared after every operation with the edge list of an affine reference model')
BOUNDS = {'quick': '6 shapes x all sharing patterns (2^n) x all sequences of 17 operations up to depth 3; 25 shapes with up to 34 corners, depth 1 (2 up to 11 corners)',
          'thorough': '8 shapes x all sharing patterns x all sequences of 19 operations up to depth 4'}
ASSUMPTIONS = ['vertex coordinates and motion parameters from a fixed menu', 'appended segments are never null segments']
CHUNK = 2
SHAPES = [('tri', [(0, 0), (4, 1), (1, 3)], True), ('quad', [(1, 1), (5, 1), (5, 4), (1, 4)], True),
          ('open3', [(0, 0), (2, 0), (2, 3)], False), ('open4', [(-1, 0), (2, -1), (3, 2), (0, 2.5)], False),
          ('seg', [(0.5, 0.25), (3, 1)], False), ('arrow', [(0, 0), (4, 0), (1, 1), (0, 4)], True),
          ('ell', [(0, 0), (4, 0), (4, 1), (1, 1), (1, 3), (0, 3)], True), ('far', [(1000.5, -2000), (1003, -1999), (1001, -1997)], True)]
OPS = [('move', 2.5, -1.), ('move', -3., 0.), ('move', 0, 4.125), ('mirror', 0.), ('mirror', 3.), ('rot', 90), ('rot', 30),
       ('rotxy', 1., 2., 180), ('append', 'new1'), ('append', 'first'), ('prepend', 'new2'), ('prepend', 'last'),
       ('close',), ('purge',), ('copy',), ('ccopy',), ('ocopy',)]
OPS2 = OPS + [('rot', -45), ('rotxy', -2., 0.5, 270)]


def params(tier):
    return (SHAPES[:6], OPS, 3) if tier == 'quick' else (SHAPES, OPS2, 4)


def cases(tier):
    shapes, ops, depth = params(tier)
    for si, (name, pts, closed) in enumerate(shapes):
        for mask in range(2 ** len(pts)):
            if tier == 'thorough' and len(pts) > 5 and mask % 7:
                continue          # ell: every seventh sharing pattern, to full depth
            for o in range(len(ops)):
                yield [si, mask, o]
    for k in range(len(ref.big_polygons())):
        for o in range(len(ops)):
            yield ['big', k, o]


def verify(ctx, pl, m, w):
    got = dir_edges(pl)
    ctx.equal(len(got), len(m.e), 'number of segments after %s', w)
    for g, e in zip(got, m.e):
        ctx.check(all(abs(x - y) <= 1e-6 for p, q in zip(g, e) for x, y in zip(p, q)),
                  'segments after %s: %r, expected %r', w, got, m.e)
    ctx.equal(pl.iscontinuous, m.continuous(), 'continuity after %s', w)
    ctx.equal(pl.isclosed, m.closed(), 'closedness after %s', w)
    ctx.equal(pl.isopen, not m.closed(), 'openness after %s', w)
    bb = pl.bounding_box()
    ctx.check(all(abs(x - y) <= 1e-6 for p, q in zip(bb, m.bbox()) for x, y in zip(p, q)), 'bounding box after %s: %r', w, bb)
    ctx.check(ref.ptclose(xy(pl.first_point), m.first()) and ref.ptclose(xy(pl.last_point), m.last()), 'end points after %s', w)


def run(case, ctx):
    shapes, ops, depth = params(ctx.tier)
    if case[0] == 'big':
        name, pts = 'big%d' % case[1], list(ref.big_polygons()[case[1]])
        closed = (case[1] + case[2]) % 3 > 0
        mask = (0, 2 ** 40 - 1, 0x5a5a5a5a5a, 0x123456789a)[(case[1] + case[2] // 3) % 4] & (2 ** len(pts) - 1)
        depth = 2 if len(pts) < 12 else 1
    else:
        name, pts, closed = shapes[case[0]]
        mask = case[1]
    if len(pts) == 2 and not closed:
        pass

    def execute(h):
        m = hist.Model(pts, closed)
        pl = poly_alias(pts, mask, closed)
        left = []
        for i, o in enumerate(h):
            op = ops[o]
            old = pl
            pl = hist.real(pl, op, m, Point, copy)
            if pl is not old:
                left.append((old, dir_edges(old)))
            if op[0] == 'ccopy':
                op = ('close',)
            if op[0] == 'ocopy':
                ctx.check(m.start_like(dir_edges(pl)), 'the ordered copy after %s: %r, edges are %r', [ops[q] for q in h[:i]], dir_edges(pl), m.e)
            m.apply(op)
            ctx.step()
        for old, e in left:
            ctx.equal(dir_edges(old), e, 'the original of a copy after %s', [ops[o] for o in h])
        return pl, m

    def rec(h):
        pl, m = execute(h)
        verify(ctx, pl, m, '%s mask %s: %r' % (name, bin(mask), [ops[o] for o in h]))
        ctx.state((case[0], mask, tuple((round(a[0], 5), round(a[1], 5), round(b[0], 5), round(b[1], 5)) for a, b in m.e)))
        ctx.outcome((len(m.e), m.closed(), m.continuous()))
        if len(h) < depth:
            for o in range(len(ops)):
                if m.enabled(ops[o]) and not (ops[o][0] == 'ccopy' and not m.enabled(('close',))):
                    rec(h + [o])

    m = hist.Model(pts, closed)
    if m.enabled(ops[case[2]]):
        rec([case[2]])
