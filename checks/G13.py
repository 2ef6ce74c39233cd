# -*- coding: utf-8 -*-
"""Relations between triangles, their measures, and the disjointness of polygons."""
from mc.lib import Point, LineSegment, PolygonLine, Triangle, seg, xy, poly_shared, poly_separate
from mc import ref, rnd
import itertools
import math

PID = 'G13'
RULE = ('a case is a pair of triangles on the grid (first one up to translation) or a pair of small simple polygons; for every placement '
        'and vertex order congruent, overlap, touch, enclosed and disjunct are compared with exact decisions (interiors intersect; common '
        'boundary piece; strictly inside; no common piece), area and angles with exact measures, the three sides being given in any order and direction')
BOUNDS = {'quick': 'all ordered pairs of triangles on a 3x3 grid (76 x 76) and 12 x 516 pairs on 4x4, 6 placements (also thirds and sevenths); all pairs of 30 polygons',
          'thorough': 'all ordered pairs of triangles on a 4x4 grid (516 x 516), 6 placements (also thirds and sevenths); all pairs of 120 polygons'}
ASSUMPTIONS = ['enclosure is judged only when every corner is strictly inside or some corner is outside']
CHUNK = 8
PL = [(1., 0., 0.), (1 / 3., 1 / 7., -2 / 9.), (1000 / 3., 1234.5 / 7, -50 / 3.), (1., -5., -7.), (0.3, -0.7, 0.4), (250., 1000., -40.)]


def tris(n):
    return [t for t in itertools.combinations(ref.grid(n, n), 3) if ref.area2(t)]


def polys(tier):
    g = ref.grid(3, 3)
    out = []
    for n in (3, 4, 5, 6):
        l = list(ref.grow_polygons(g, n))
        out += l[::(len(l) // (7 if tier == 'quick' else 30)) or 1]
    return out


_C = {}


def world(tier):
    if tier not in _C:
        _C[tier] = (tris(3), tris(4), polys(tier))
    return _C[tier]


def cases(tier):
    t3, t4, pp = world(tier)
    if tier == 'quick':
        for i in range(len(t3)):
            yield ['3', i]
        for i in range(0, len(t4), len(t4) // 12):
            yield ['4', i]
    else:
        for i in range(len(t4)):
            for k in range(8):
                yield ['4', i, k]
    for i in range(len(pp)):
        yield ['P', i]


def mk(t, T, how):
    ps = [T(p) for p in list(itertools.permutations(t))[how % 6]]
    if how & 1:
        P = [Point(p) for p in ps]
        s = [LineSegment(P[0], P[1]), LineSegment(P[1], P[2]), LineSegment(P[2], P[0])]
    else:
        s = [seg(ps[0], ps[1]), seg(ps[2], ps[1]), seg(ps[0], ps[2])]      # unordered, separate points
    return Triangle(s)


def anyway(a, T, k):
    """arrangement k of 48: the three sides in any order and direction"""
    perm = list(itertools.permutations(range(3)))[k // 8]
    es = [(a[i], a[(i + 1) % 3]) for i in perm]
    return Triangle([seg(*map(T, e[::-1] if k >> n & 1 else e)) for n, e in enumerate(es)])


def edge_overlap(a, b):
    """number of distinct pieces of positive length shared by the boundaries"""
    l = set()
    for e in ref.edges(a):
        for f in ref.edges(b):
            c = ref.seg_common(e[0], e[1], f[0], f[1])
            if c and c[0] == 'S':
                l.add((c[1], c[2]))
    return len(l)


def run(case, ctx):
    t3, t4, pp = world(ctx.tier)
    if case[0] == 'P':
        return polygons(pp, case[1], ctx)
    W = t3 if case[0] == '3' else t4
    a = W[case[1]]
    others = W if len(case) == 2 else W[case[2]::8]
    for j, b in enumerate(others):
        for pi in range(3):
            if pi and (pi + j) % 3 == 0:
                continue
            t = PL[pi] if j % 2 else PL[(pi + 1) % 6]
            T = lambda p: (round(t[1] + t[0] * p[0], 8), round(t[2] + t[0] * p[1], 8))
            rnd.reset(j % 3)
            A, B = mk(a, T, j + pi), mk(b, T, j // 7 + pi)
            w = '%r and %r' % ([T(p) for p in a], [T(p) for p in b])
            inter = not ref.interior_disjoint(a, b)
            pieces = edge_overlap(a, b)
            same = set(a) == set(b)
            ctx.equal(bool(A.congruent(B)), same, 'congruent %s', w)
            ov, vo = bool(A.overlap(B)), bool(B.overlap(A))
            ctx.equal(ov, vo, 'overlap is symmetric %s', w)
            ctx.equal(bool(ov or same), inter, 'the interiors of %s intersect' % w)
            th, ht = bool(A.touch(B)), bool(B.touch(A))
            ctx.equal(th, ht, 'touch is symmetric %s', w)
            ctx.equal(th, pieces == 1, 'touch %s' % w)
            loc = [ref.locate(p, a) for p in b]
            if all(x == 1 for x in loc):
                ctx.equal(A.enclosed(B), True, '%s: the second one is inside', w)
            elif any(x == -1 for x in loc):
                ctx.check(not A.enclosed(B), '%s: the second one is not inside', w)
            dj = A.disjunct(B)
            ctx.equal(dj, not inter and pieces == 0, 'disjunct %s', w)
            ctx.equal(B.disjunct(A), dj, 'disjunct is symmetric %s', w)
            # PolygonLine.disjunct of two triangles: interiors do not intersect
            ctx.step(10)
            ctx.state((case[0], pi, tuple(a), tuple(b)))
            ctx.outcome((same, inter, pieces, th))
    for pi, t in enumerate(PL):
        for how in range(6 + 16):
            T = lambda p: (round(t[1] + t[0] * p[0], 8), round(t[2] + t[0] * p[1], 8))
            A = mk(a, T, how) if how < 6 else anyway(a, T, 3 * (how - 6) + pi % 3)
            ctx.check(ref.close(A.area, abs(ref.area2(a)) / 2. * t[0] ** 2), 'area of %r at %r', a, t)
            l = [math.dist(x, y) if hasattr(math, 'dist') else math.hypot(x[0] - y[0], x[1] - y[1]) for x, y in ref.edges(a)]
            angs = sorted(math.degrees(math.acos(max(-1, min(1, (l[i - 1] ** 2 + l[i - 2] ** 2 - l[i] ** 2) / (2 * l[i - 1] * l[i - 2])))))
                          for i in range(3))
            got = sorted(A.angles)
            ctx.check(all(abs(x - y) < 1e-4 for x, y in zip(got, angs)), 'angles of %r at %r: %r, expected %r', a, t, got, angs)
            ctx.check(abs(A.quality - sum(abs(x - 60) for x in angs)) < 1e-3, 'quality of %r: %r', a, A.quality)
            ctx.check(A.is_triangle and A.isclosed, 'a triangle is a closed triangle')
            ctx.step(3)


def polygons(pp, i, ctx):
    a = pp[i]
    for j, b in enumerate(pp):
        for sh in ((0, 0), (1, 0), (2, 1), (3, 0)):
            b2 = [(p[0] + sh[0], p[1] + sh[1]) for p in b]
            t = PL[(i + j + sh[0]) % 6]
            T = lambda p: (round(t[1] + t[0] * p[0], 8), round(t[2] + t[0] * p[1], 8))
            A = poly_shared([T(p) for p in a])
            B = poly_separate([T(p) for p in b2])
            if (i + j) % 2:
                A.triangulate()
            if (i + j) % 3 == 1:
                B.triangulate()
            want = not interiors(a, b2)
            ctx.equal(A.disjunct(B), want, 'polygons %r and %r are disjunct', [T(p) for p in a], [T(p) for p in b2])
            ctx.step()
            ctx.state(('P', i, j, sh))
            ctx.outcome(('P', want))


def ears(poly):
    """exact ear clipping"""
    p = list(poly)
    if ref.area2(p) < 0:
        p.reverse()
    out = []
    while len(p) > 3:
        for k in range(len(p)):
            a, b, c = p[k - 1], p[k], p[(k + 1) % len(p)]
            cr = ref.cross(a, b, c)
            if cr == 0:
                del p[k]
                break
            if cr > 0 and not any(q not in (a, b, c) and ref.locate(q, (a, b, c)) >= 0 for q in p):
                out.append((a, b, c))
                del p[k]
                break
        else:
            raise AssertionError(poly)
    if ref.area2(p):
        out.append(tuple(p))
    return out


def interiors(a, b):
    return any(not ref.interior_disjoint(x, y) for x in ears(a) for y in ears(b))


def post(tier, outcomes, counters, states):
    if len(outcomes) < 8:
        return 'outcomes %r' % outcomes
