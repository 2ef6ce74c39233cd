# -*- coding: utf-8 -*-
"""Intersection of a line in space with a sphere."""
from geometry.additional_stuff import sphere_line_intersection
from fractions import Fraction as F
import itertools

PID = 'G19'
RULE = ('a case is a line through two integer lattice points; for every sphere with integer centre and radius of the bound the number of '
        'returned points is compared with the sign of the exact discriminant, every point must lie on the line and on the sphere, the first '
        'being the one further along the direction of the line')
BOUNDS = {'quick': 'all lines from the origin through a lattice point of [-2,2]^3 and 6 other starting points, centres in [-2,2]^3, radii 1, 2, 3',
          'thorough': 'all lines from the origin through a lattice point of [-3,3]^3 and 20 other starting points, centres in [-3,3]^3, radii 1-5'}
ASSUMPTIONS = ['integer input: the discriminant is exact in floating point']
CHUNK = 4


def cases(tier):
    m = 2 if tier == 'quick' else 3
    ax = range(-m, m + 1)
    starts = list(itertools.product((-4, 0, 5), (-1, 0), (0, 7)))[:6] if tier == 'quick' else list(itertools.product((-4, 0, 5), (-1, 0, 3), (0, 7)))
    for s in [(0, 0, 0)] + starts:
        for d in itertools.product(ax, repeat=3):
            if any(d):
                yield [list(s), [a + b for a, b in zip(s, d)]]


def run(case, ctx):
    l1, l2 = map(tuple, case)
    m = 2 if ctx.tier == 'quick' else 3
    d = [b - a for a, b in zip(l1, l2)]
    a = sum(x * x for x in d)
    for c in itertools.product(range(-m, m + 1), repeat=3):
        f = [x - y for x, y in zip(l1, c)]
        b = 2 * sum(x * y for x, y in zip(d, f))
        for r in range(1, 4 if ctx.tier == 'quick' else 6):
            cc = sum(x * x for x in f) - r * r
            disc = b * b - 4 * a * cc
            got = sphere_line_intersection(l1, l2, c, r)
            w = 'line %r-%r, sphere %r radius %r: %r' % (l1, l2, c, r, got)
            ctx.equal(len(got), 2, 'two answers %s', w)
            pts = [p for p in got if p is not None]
            ctx.equal(len(pts), 0 if disc < 0 else 1 if disc == 0 else 2, 'number of points %s', w)
            mus = []
            for p in pts:
                ctx.check(abs(sum((x - y) ** 2 for x, y in zip(p, c)) - r * r) < 1e-6, 'not on the sphere %s', w)
                mu = sum((x - y) * z for x, y, z in zip(p, l1, d)) / float(a)
                ctx.check(all(abs(x - (y + mu * z)) < 1e-6 for x, y, z in zip(p, l1, d)), 'not on the line %s', w)
                mus.append(mu)
            if len(mus) == 2:
                ctx.check(mus[0] > mus[1], 'order of the points %s', w)
            ctx.step()
            ctx.state((l1, l2, c, r))
            ctx.outcome(len(pts))


def post(tier, outcomes, counters, states):
    if len(outcomes) < 3:
        return 'outcomes %r' % outcomes
