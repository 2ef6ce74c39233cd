# -*- coding: utf-8 -*-
"""Measures of one segment and its relation to points / another direction."""
from mc.lib import Point, LineSegment, seg, xy
from mc import ref
from fractions import Fraction as F
import math

PID = 'G02'
RULE = ('a case is one directed segment under one coordinate transform; all probe points and all second segments of the '
        'grid are enumerated and every measure is compared with exact rational arithmetic')
BOUNDS = {'quick': 'all directed segments on a 4x4 non-uniform grid, all probe points of a 7x7 grid, all second segments, '
                   '10 coordinate transforms (scales 0.0041 to 1429, also thirds and sevenths that have no exact decimals; offsets up to 1e4)',
          'thorough': 'all directed segments on a 5x5 non-uniform grid, 9x9 probe points, all second segments, 13 transforms'}
ASSUMPTIONS = ['points are on the line (up to the rounding of the coordinates) or farther from it than 1e-4']
CHUNK = 4

THIRDS = [(1 / 3., 1 / 7., -2 / 9.), (1000 / 3., 1234.5 / 7, -50 / 3.), (.0123 / 3, .1, .2), (1e4 / 7, -3e3 / 11, 77.)]
TR = [(1., 0., 0.), (0.1, 0., 0.), (0.37, -1.1, 0.7), (250., 0., -300.), (0.5, -10000.5, 20000.25), (1., -7., -9.),
      (0.01, 3.3, -2.1), (1000., 5., 5.), (3.3, 100.1, -100.1)]
C4 = [-2, 0, 1, 3]
C5 = [-2, 0, 1, 3, 7]


def params(tier):
    if tier == 'quick':
        return C4, range(-3, 4), TR[:6] + THIRDS
    return C5, range(-4, 5), TR + THIRDS


def cases(tier):
    c, pr, tr = params(tier)
    pts = [(a, b) for a in c for b in c]
    for t in range(len(tr)):
        for a in pts:
            for b in pts:
                if a != b:
                    yield [t, a, b]


def tf(t, p):
    s, ox, oy = t
    return (round(ox + s * p[0], 8), round(oy + s * p[1], 8))


def run(case, ctx):
    c, pr, tr = params(ctx.tier)
    t = tr[case[0]]
    a, b = tuple(case[1]), tuple(case[2])
    A, B = tf(t, a), tf(t, b)
    s = seg(A, B)
    s_scale = t[0]
    ctx.state(('s', case[0], a, b))
    dx, dy = B[0] - A[0], B[1] - A[1]
    L = math.hypot(dx, dy)
    near = lambda g, w, tol=1e-9: abs(g - w) <= tol * max(1., abs(w))
    ctx.step(12)
    ctx.equal((xy(s.i), xy(s.j)), (A, B), 'endpoints')
    ctx.equal((s.ij[0] is s.i, s.ij[1] is s.j), (True, True), 'ij')
    ctx.check(near(s.delta_x, dx) and near(s.delta_y, dy), 'projections %r', (s.delta_x, s.delta_y))
    ctx.check(near(s.as_vector[0], dx) and near(s.as_vector[1], dy), 'vector %r', s.as_vector)
    ctx.check(near(s.norm, L), 'length of %r-%r: %r', A, B, s.norm)
    ctx.check(near(s.unitvector[0], dx / L) and near(s.unitvector[1], dy / L), 'unit vector of %r-%r: %r', A, B, s.unitvector)
    ctx.equal(s.isnull(), False, 'null segment')
    ctx.equal(s.isvalid, True, 'validity')
    ang = math.degrees(math.atan2(dy, dx)) % 360
    g = s.direction
    ctx.check(0 <= g <= 360 and min(abs(g - ang), 360 - abs(g - ang)) < 1e-7, 'direction of %r-%r: %r, expected %r', A, B, g, ang)
    ctx.equal(s.bounding_box, ((min(A[0], B[0]), max(A[0], B[0])), (min(A[1], B[1]), max(A[1], B[1]))), 'bounding box')
    r = s.line_reversed
    ctx.equal((xy(r.i), xy(r.j)), (B, A), 'reversed copy')
    ctx.equal((xy(s.i), xy(s.j)), (A, B), 'endpoints after the reversed copy was made')
    z = seg(A, A)
    ctx.equal(z.isnull(), True, 'null segment'); ctx.equal(tuple(z.unitvector), (0, 0), 'unit vector of a null segment')
    ctx.equal(z.norm, 0, 'norm of a null segment')
    # points
    for u in pr:
        for v in pr:
            P = tf(t, (u, v))
            p = Point(P)
            ctx.step(6)
            ctx.state(('p', case[0], a, b, u, v))
            cr = ref.cross(a, b, (u, v))       # exact, in grid units
            crf = ref.cross(A, B, P)
            on = cr == 0
            d = abs(cr) / math.hypot(b[0] - a[0], b[1] - a[1]) * s_scale
            ctx.check(near(s.line_point_distance(p), d, 1e-7), 'distance of %r from the line %r-%r: %r, expected %r', P, A, B,
                      s.line_point_distance(p), d)
            ctx.equal(s.is_point_on_line(p), on, '%r on the line %r-%r', P, A, B)
            ctx.equal(s.is_point_to_right(p), cr < 0, '%r to the right of %r-%r', P, A, B)
            ctx.equal(s.is_point_to_left(p), cr > 0, '%r to the left of %r-%r', P, A, B)
            box = min(a[0], b[0]) <= u <= max(a[0], b[0]) and min(a[1], b[1]) <= v <= max(a[1], b[1])
            ctx.equal(s.is_internal_point(p), box, '%r in the box of %r-%r', P, A, B)
            if (u, v) != a:
                w = math.degrees(math.acos(max(-1., min(1., ((b[0] - a[0]) * (u - a[0]) + (b[1] - a[1]) * (v - a[1])) /
                                 math.hypot(b[0] - a[0], b[1] - a[1]) / math.hypot(u - a[0], v - a[1])))))
                ctx.check(abs(s.angle_from_start_point(p) - w) < 1e-4, 'angle of %r seen from %r-%r: %r, expected %r',
                          P, A, B, s.angle_from_start_point(p), w)
                o = LineSegment(s.i, Point(P))
                ctx.check(near(s.crossproduct_commonstart(o), crf, 1e-7), 'cross product %r', s.crossproduct_commonstart(o))
    pts = [(x, y) for x in c for y in c]
    for q in pts:
        for r in pts:
            if q == r:
                continue
            Q, R = tf(t, q), tf(t, r)
            o = seg(Q, R)
            ctx.step(4)
            v1 = (b[0] - a[0], b[1] - a[1])
            v2 = (r[0] - q[0], r[1] - q[1])
            cr = v1[0] * v2[1] - v1[1] * v2[0]
            dt = v1[0] * v2[0] + v1[1] * v2[1]
            ctx.check(abs(s.crossproduct(o) - cr * s_scale ** 2) <= 1e-7 + 5e-8 * (s.norm + o.norm), 'cross product of %r-%r, %r-%r: %r', A, B, Q, R, s.crossproduct(o))
            ctx.check(abs(s.dotproduct(o) - dt * s_scale ** 2) <= 1e-7 + 5e-8 * (s.norm + o.norm), 'dot product of %r-%r, %r-%r: %r', A, B, Q, R, s.dotproduct(o))
            w = math.degrees(math.atan2(abs(cr), dt))
            ctx.check(abs(s.angle_between_lines(o) - w) < 1e-4, 'angle between %r-%r, %r-%r: %r, expected %r', A, B, Q, R,
                      s.angle_between_lines(o), w)
            ctx.equal(s.opposite_direction(o), cr == 0 and dt < 0, 'opposite direction of %r-%r, %r-%r', A, B, Q, R)
    ctx.equal((xy(s.i), xy(s.j)), (A, B), 'endpoints after all queries')
    ctx.outcome('dir %d' % int(ang // 45))
