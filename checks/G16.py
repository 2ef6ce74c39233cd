# -*- coding: utf-8 -*-
"""Generators: lines through nodes, squares, circular arcs."""
from mc.lib import Point, PolygonLine, xy, dir_edges, square, arc, polygon_from_nodes
from mc import ref
import itertools
import math

PID = 'G16'
RULE = ('(N) every node sequence of the bound without immediate repetition; (S) every square side x position x direction of the menu; (A) every '
        'combination of start angle, end angle, number of segments, radius, centre (as tuple, list, Point) and direction: the generated line is '
        'compared with the exact vertices')
BOUNDS = {'quick': 'N: all sequences of 2-5 of 5 nodes, 12 long ones with up to 120; S: 5 sides x 25 positions x 2; A: 13 start x 13 end angles x n in 1..8 (some up to 90), 4 radii/centres, 2 directions',
          'thorough': 'N: all sequences of 2-6 of 5 nodes; S: 9 sides x 49 positions x 2; A: 25 start x 25 end angles x n in 1..24, 6 radii/centres, 2 '
                      'directions'}
ASSUMPTIONS = ['0 <= start < end <= 360']
CHUNK = 32
PTS = [(0, 0), (2.5, 1), (-3, 4.125), (7, -2), (0.3, 0.7)]


def cases(tier):
    q = tier == 'quick'
    for n in range(2, 6 if q else 7):
        for s in itertools.product(range(5), repeat=n):
            if all(a != b for a, b in zip(s, s[1:])):
                yield ['N', list(s)]
    for a in [1, 2.5, 0.3, 40, 1000][:5] if q else [1, 2.5, 0.3, 40, 1000, 0.01, 7, 12.34, 333.3]:
        g = [-7.7, -2, 0, 0.5, 1000]
        if not q:
            g += [3.3, -400.25]
        for x, y in itertools.product(g, g):
            for cw in (0, 1):
                yield ['S', a, x, y, cw]
    for n in (12, 37, 120) if q else (12, 20, 37, 64, 120, 400):
        for k in range(4):
            yield ['L', n, k]
    for n in (9, 12, 24, 36, 90):
        for s, e in ((0, 360), (0, 90), (30, 47), (180, 360), (10, 350)):
            yield ['A', s, e, n]
    al = list(range(0, 360, 30)) + [10] if q else list(range(0, 360, 15)) + [7]
    ae = list(range(30, 361, 30)) + [47] if q else list(range(15, 361, 15)) + [47]
    for s in al:
        for e in ae:
            if s < e:
                for n in range(1, 9 if q else 25):
                    yield ['A', s, e, n]


CR = [(1., (0, 0)), (1 / 3., (1 / 7., -2 / 9.)), (2.5, (3, -4)), (0.2, (-10.5, 7.25)), (400., (-600., 1000.)), (0.154, (0.1, 0.2)), (30, (-30, -30))]


def run(case, ctx):
    if case[0] in ('N', 'L'):
        if case[0] == 'L':      # long lines: spirals, zigzags, with returns to former nodes
            n, k = case[1:]
            nodes = [[(round(i * math.cos(i * .7), 3), round(i * math.sin(i * .7), 3)), (i * .5, (-1) ** i * 3.25), (i % 5 * 1.5, i % 7 - 3.),
                      (1000. - i, 1000. / (i + 1) // .01 * .01)][k] for i in range(n)]
        else:
            nodes = [PTS[j] for j in case[1]]
        for cw in (0, 1) if nodes[0] != nodes[-1] else (0,):
            for kind in (tuple, list):
                inp = [kind(p) for p in nodes]
                pl = polygon_from_nodes(inp, cw=bool(cw)) if cw else polygon_from_nodes(inp)
                ctx.equal(inp, [kind(p) for p in nodes], 'the node list')
                seq = [nodes[0]] + nodes[::-1][:-1] if cw else nodes
                rd = lambda p: tuple(round(float(z), 8) for z in p)
                want = [(rd(a), rd(b)) for a, b in zip(seq, seq[1:]) if a != b]
                ctx.equal(dir_edges(pl), want, 'line through %r (cw=%r)', nodes, cw)
                if len(want) > 0:
                    ctx.equal(pl.iscontinuous, True, 'continuity of the line through %r (cw=%r)', nodes, cw)
                ctx.step()
        ctx.state(repr(case))
        ctx.outcome(('N', len(nodes)))
    elif case[0] == 'S':
        _, a, x, y, cw = case
        pl = square(a=a, x0=x, y0=y, cw=bool(cw))
        ps = [(0, 0), (a / 2., 0), (a / 2., a), (-a / 2., a), (-a / 2., 0)]
        if cw:
            ps = ps[:1] + ps[:0:-1]
        got = [xy(s.i) for s in pl.segments]
        w = 'square %r' % (case,)
        ctx.equal(len(got), 5, 'corners of %s', w)
        for g, p in zip(got, ps):
            ctx.check(abs(g[0] - p[0] - x) < 2e-8 and abs(g[1] - p[1] - y) < 2e-8, 'corners of %s: %r', w, got)
        ctx.check(pl.isclosed and pl.isvalid and pl.isconvex, '%s is closed, valid and convex', w)
        ctx.equal((pl.iscw, pl.isccw), (bool(cw), not cw), 'direction of %s', w)
        ctx.check(abs(pl.area - a * a) < 1e-6 * max(1, a * a), 'area of %s: %r', w, pl.area)
        ctx.step(5)
        ctx.state(tuple(case))
        ctx.outcome(('S', cw))
    else:
        _, s, e, n = case
        full = e - s == 360
        for k, (r, c) in enumerate(CR[:5 if ctx.tier == 'quick' else 7]):
            for cw in (0, 1):
                P = (c, list(c), Point(c))[(k + cw + n) % 3]
                pl = arc(P=P, r=r, alpha_start=s, alpha_end=e, n=n, cw=bool(cw))
                w = 'arc %r' % ((r, c, s, e, n, cw),)
                A = [s + (e - s) * i / float(n) for i in range(n + 1)]
                if cw:
                    A = A[::-1]
                want = [(c[0] + r * math.cos(math.radians(a)), c[1] + r * math.sin(math.radians(a))) for a in A]
                if full and n == 1:
                    continue
                es = dir_edges(pl)
                ctx.equal(len(es), n, 'segments of %s', w)
                for i, (a, b) in enumerate(es):
                    ctx.check(math.hypot(a[0] - want[i][0], a[1] - want[i][1]) < 5e-8 and
                              math.hypot(b[0] - want[i + 1][0], b[1] - want[i + 1][1]) < 5e-8,
                              'segment %d of %s: %r, expected %r', i, w, (a, b), (want[i], want[i + 1]))
                if n > 2 or not full:
                    ctx.check(pl.isvalid, '%s is not valid', w)
                    ctx.equal(pl.isclosed, full, '%s closed', w)
                ctx.check(all(x.j is y.i for x, y in zip(pl.segments, pl.segments[1:])), '%s is not purged', w)
                if full and n > 2:
                    ctx.equal(pl.isccw, not cw, 'direction of %s', w)
                    ctx.check(pl.isconvex, '%s is not convex', w)
                ctx.step(2)
                ctx.state(('A', s, e, n, k, cw))
                ctx.outcome(('A', n, full, cw))


def post(tier, outcomes, counters, states):
    if len(outcomes) < 20:
        return 'outcomes %r' % outcomes
