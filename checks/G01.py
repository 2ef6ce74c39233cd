# -*- coding: utf-8 -*-
"""Point values: rounding, tolerance equality, hashing, arithmetic, validity."""
from mc.lib import Point, distance, xy
import math

PID = 'G01'
RULE = ('a case is a block of ordered pairs of points; every pair of points over a menu of coordinates that collide with '
        'the two tolerances (8 decimals, 1e-5) is enumerated and compared with the exact model')
BOUNDS = {'quick': 'all ordered pairs of the 19x19 coordinate grid (361 points, 130 321 pairs)',
          'thorough': 'all ordered pairs of the 31x31 coordinate grid (961 points, 923 521 pairs)'}
ASSUMPTIONS = ['coordinate menu; differences between 9.99e-6 and 1.001e-5 are not judged']
CHUNK = 1

MENU = [0., 1., -1., 0.5, -3.75, 9e-6, 1.1e-5, -9e-6, 1 + 9e-6, 1 + 1.1e-5, 1000., 1000.000009, -1000.000011, 0.1, 0.3,
        1 / 3., 2.123456789012, 4e-9, 6e-9]
MENU2 = MENU + [-1 / 3., 5e3, 5e3 + 1.5e-5, 5e3 + 5e-6, 123456.5, -0.1, 7., 7.00000001, 1e-5 * 0.5, -2e-5, 2.5, 1e6]


def menu(tier):
    return MENU if tier == 'quick' else MENU2


def cases(tier):
    m = menu(tier)
    for a in m:
        for b in m:
            yield [a, b]
    for bad in ([None, None], [1, None], [None, 1], 'empty'):
        yield ['bad', bad]


def model_eq(p, q):
    """None: within the grey zone"""
    r = True
    for a, b in zip(p, q):
        d = abs(round(a, 8) - round(b, 8))
        if 9.99e-6 < d < 1.001e-5:
            return None
        if d >= 1e-5:
            r = False
    return r


def run(case, ctx):
    if case[0] == 'bad':
        p = Point() if case[1] == 'empty' else Point(tuple(case[1]))
        ctx.state(('bad', str(case[1])))
        ctx.equal(p.isvalid, False, 'validity of a point without usable coordinates')
        for o in (p, Point((0, 0)), Point()):
            ctx.step(4)
            ctx.equal(p == o, False, 'an invalid point compared with %r', o)
            ctx.equal(o == p, False, 'an invalid point compared with %r', o)
            ctx.equal(p != o, True, 'an invalid point compared with %r', o)
        return
    a, b = case
    m = menu(ctx.tier)
    p = Point((a, b))
    ctx.state((a, b))
    ctx.equal(p.isvalid, True, 'validity')
    ctx.equal(xy(p), (round(a, 8), round(b, 8)), 'coordinates of Point((%r, %r))', a, b)
    ctx.equal(p.xy, (p.x, p.y), 'xy')
    ctx.check(isinstance(p.x, float) and isinstance(p.y, float), 'coordinates are floats')
    ctx.equal(p.bounding_box(), ((p.x, p.x), (p.y, p.y)), 'bounding box')
    ip = Point([a, b])
    ctx.equal(p == ip, True, 'equality of points created from a tuple and a list')
    for c in m:
        for d in m:
            q = Point((c, d))
            ctx.step(6)
            e = model_eq((a, b), (c, d))
            g = (p == q)
            if e is not None:
                ctx.equal(g, e, 'Point((%r, %r)) == Point((%r, %r))', a, b, c, d)
            ctx.equal(q == p, g, 'symmetry of equality of (%r, %r), (%r, %r)', a, b, c, d)
            ctx.equal(p != q, not g, 'inequality of (%r, %r), (%r, %r)', a, b, c, d)
            if xy(p) == xy(q):
                ctx.equal(hash(p), hash(q), 'hash of identical points')
                ctx.equal(len({p, q}), 1, 'set of identical points')
            s = p + q
            ctx.equal(xy(s), (round(p.x + q.x, 8), round(p.y + q.y, 8)), 'sum of (%r, %r), (%r, %r)', a, b, c, d)
            s = p - q
            ctx.equal(xy(s), (round(p.x - q.x, 8), round(p.y - q.y, 8)), 'difference of (%r, %r), (%r, %r)', a, b, c, d)
            dd = math.hypot(p.x - q.x, p.y - q.y)
            for got in (p.distance(q), distance(p, q), distance(q, p)):
                ctx.check(abs(got - dd) <= 1e-9 * max(1., dd), 'distance of (%r, %r), (%r, %r): got %r, expected %r',
                          a, b, c, d, got, dd)
            ctx.equal((xy(p), xy(q)), ((round(a, 8), round(b, 8)), (round(c, 8), round(d, 8))), 'operands unchanged')
    ctx.outcome('ok')
