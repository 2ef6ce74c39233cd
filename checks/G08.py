# -*- coding: utf-8 -*-
"""Joining open polygon lines."""
from mc.lib import Point, PolygonLine, poly_shared, poly_separate, add, dir_edges, xy
from mc import ref
import itertools

PID = 'G08'
RULE = ('a case is a first open line; it is joined with every pair / triple of further open lines of the grid; the result is '
        'compared with the concatenation (bridged where ends do not meet), inputs must stay as they were')
BOUNDS = {'quick': '25 lines with up to 33 segments cut into 1-6 pieces at 12 places, all pairs of open lines with 1-2 segments on a 3x3 grid (576^2, two transforms), all triples of single segments on a 2x3 grid',
          'thorough': 'quick, and all triples of single segments on a 3x3 grid, pairs under a decimal transform and of lines with up to 3 segments on a 2x3 grid'}
ASSUMPTIONS = ['results in which non-neighbouring segments overlap or touch in an end point are not judged']
CHUNK = 2
TR = [(1., 0., 0.), (0.3, -1.7, 12.1)]


def lines(nx, ny, kmax):
    pts = ref.grid(nx, ny)
    out = []
    for k in range(2, kmax + 2):
        for p in itertools.permutations(pts, k):
            if k == 2 or all(ref.cross(p[i], p[i + 1], p[i + 2]) != 0 or
                             not (ref.on_seg(p[i + 2], p[i], p[i + 1]) or ref.on_seg(p[i], p[i + 1], p[i + 2])) for i in range(k - 2)):
                if k < 4 or judge([p]) == 'good':
                    out.append(p)
    return out


def judge(parts):
    """'good': must be joined, 'bad': must be refused, None: not judged"""
    chain = []
    for p in parts:
        for q in p:
            if not chain or chain[-1] != q:
                chain.append(q)
    es = list(zip(chain, chain[1:]))
    res = 'good'
    for i in range(len(es)):
        for j in range(i + 1, len(es)):
            c = ref.seg_common(es[i][0], es[i][1], es[j][0], es[j][1])
            if c is None:
                continue
            if c[0] == 'S':
                return None
            if j == i + 1:
                continue
            if set(es[i]) & set(es[j]):
                if res == 'good':
                    res = None
            else:
                res = 'bad'
    if chain[0] == chain[-1] and len(es) > 2 and res is None:
        # the only shared end point is the one that closes the line
        n = len(es)
        if all(ref.seg_common(es[i][0], es[i][1], es[j][0], es[j][1]) is None for i in range(n) for j in range(i + 2, n) if (i, j) != (0, n - 1)):
            return 'good'
    return res


def cases(tier):
    for k in range(len(ref.big_polygons(tier != 'quick'))):
        for cut in range(12 if tier == 'quick' else 40):
            yield ['long', k, cut]
    for i in range(len(lines(3, 3, 2))):
        yield ['pair', i, 0]
    for i in range(len(lines(2, 3, 1))):
        yield ['triple', 2, 3, i]
    if tier == 'thorough':
        for i in range(len(lines(3, 3, 1))):
            yield ['triple', 3, 3, i]
        for i in range(len(lines(3, 3, 2))):
            yield ['pair', i, 1]
        for i in range(len(lines(2, 3, 3))):
            yield ['pair3', i, 0]


_cache = {}


def get(*a):
    if a not in _cache:
        _cache[a] = lines(*a)
    return _cache[a]


def one(ctx, parts, t, mk):
    j = judge(parts)
    if j is None:
        ctx.count('not judged')
        return
    T = lambda p: (round(t[1] + t[0] * p[0], 8), round(t[2] + t[0] * p[1], 8))
    P = [[T(q) for q in p] for p in parts]
    pls = [mk(p, closed=False) for p in P]
    before = [dir_edges(p) for p in pls]
    ctx.step()
    try:
        g = add(*pls)
    except Exception as e:
        g = e
    for b, p in zip(before, pls):
        ctx.equal(dir_edges(p), b, 'an input line after joining %r', P)
    if j == 'bad':
        ctx.check(isinstance(g, Exception), 'joining the crossing lines %r: got %r', P, g)
    else:
        chain = []
        for p in P:
            for q in p:
                if not chain or chain[-1] != q:
                    chain.append(q)
        ctx.check(isinstance(g, PolygonLine), 'joining %r raised %r', P, g)
        ctx.equal(dir_edges(g), list(zip(chain, chain[1:])), 'joined line of %r', P)
        ctx.equal((g.iscontinuous, g.isvalid), (True, True), 'state of the joined line of %r', P)
    ctx.outcome(j)


def chains(ctx, k, cut):
    """the open line along a large polygon, cut into 1..6 pieces that meet or are bridged"""
    p = ref.big_polygons(ctx.tier != 'quick')[k]
    n = len(p)
    r = cut % n
    p = (p[r:] + p[:r])[::-1 if cut & 1 else 1]
    m = min(1 + cut % 6, n // 2)
    size = -(-n // m)
    parts = []
    for i in range(0, n, size):
        q = p[i:i + size + (1 if (i // size + cut) % 3 else 0)]           # the next piece starts at this end, or one corner further
        if len(q) > 1:
            parts.append(list(q))
        elif parts:
            parts[-1] += [x for x in q if x != parts[-1][-1]]
    t = TR[cut % 2]
    ctx.state(('long', k, cut))
    one(ctx, parts, t, poly_shared if cut % 4 < 2 else poly_separate)


def run(case, ctx):
    if case[0] == 'long':
        chains(ctx, case[1], case[2])
    elif case[0] in ('pair', 'pair3'):
        ls = get(3, 3, 2) if case[0] == 'pair' else get(2, 3, 3)
        a = ls[case[1]]
        for k, b in enumerate(ls):
            ctx.state((case[0], a, b, case[2]))
            one(ctx, [a, b], TR[case[2] if k % 3 else 1 - case[2]], poly_shared if k % 2 else poly_separate)
    else:
        ls = get(case[1], case[2], 1)
        a = ls[case[3]]
        for b in ls:
            for c in ls:
                ctx.state(('t', a, b, c))
                one(ctx, [a, b, c], TR[0], poly_shared)
