# -*- coding: utf-8 -*-
"""The knuckle between a cone and the shell above it: geometry, trimming of the neighbours, rooms and relations."""
from mc.lib import *
from mc import ref
from mc import vessel as V
from checks import V05
from SR_Vessel import SR_hauptteile as H
import itertools
import math

PID = 'V08'
RULE = '(G) a case is a cone, the shell or cone above it, an optional shell, cone, skirt or conical skirt below, a radius, two lengths and a placement: the knuckle must be the arc ' \
       'tangent to both walls with straight extensions to the two heights, its neighbours must end exactly where it begins, everything mirror ' \
       'symmetric; (R) the vessel built with it must have the rooms, outlines and relations of its contour'
BOUNDS = {'quick': 'G: all feasible of 4 cones x 2 uppers x 4 radii x 9 length pairs x 5 undersides, 2 (cones below: 1) of 6 placements each, also thirds and sevenths (geometry; every 23rd with reference '
                   'points); R: 3 ends at the bottom x 5 undersides x 2 radii, 2 shapes (subset)',
          'thorough': 'G: all feasible of 6 cones x 3 uppers x 5 radii x 16 length pairs x 5 undersides x 6 placements (every 5th with reference points); R: 5 ends x 5 '
                      'undersides x 4 radii x 4 shapes x 2 orders'}
CHUNK = 1
ASSUMPTIONS = ['the cone opens upwards and is flatter than the part above it (the only form the library supports); tangent points and ends of the '
               'extensions lie inside of the walls']
CONES = [(2., 1.), (1., 1.), (3., 1.), (2., 2.), (1.2, .6), (3.6, .9)]        # lower diameter, height; upper diameter 4
UPPER = [(4., 1.5), (4.6, 1.5), (4., 3.)]
RADII = [0., .4, .5, .2, .75]
UNDER = {'m': 4., 'z': 4., 'c': 4.6, 's': 5.}                                # lower diameter of the shell, skirt, cone, conical skirt below
LEN = [(.4, .3), (.05, .3), (.4, .05), (.05, .05), (.6, .45), (.1, .45), (.6, .1), (.25, .25), (.3, .2),
       (.8, .5), (.8, .02), (.02, .5), (.5, .5), (.35, .35), (1., .3), (.15, .15)]
PLACES = [(1., 0., 0.), (1., 10., -20.), (.5, -7.3, 3.1), (100., 50., -700.), (1 / 3., 1 / 7., -2 / 9.), (1000 / 3., 1234.5 / 7, -50 / 3.)]


def points(cone, upper, r, ho, hu):
    """contour right of the axis (junction at height 0): (below, on the knuckle, above) or None if not feasible"""
    db, hc = cone
    dt, hh = upper
    J = (2., 0.)
    n1 = math.hypot(2. - db / 2, hc)
    u1 = ((2. - db / 2) / n1, hc / n1)
    n2 = math.hypot(dt / 2 - 2., hh)
    u2 = ((dt / 2 - 2.) / n2, hh / n2)
    a1, a2 = math.atan2(u1[1], u1[0]), math.atan2(u2[1], u2[0])
    if a2 - a1 < .05:
        return None
    t = r * math.tan((a2 - a1) / 2)
    T1, T2 = (J[0] - u1[0] * t, J[1] - u1[1] * t), (J[0] + u2[0] * t, J[1] + u2[1] * t)
    P0 = (J[0] - u1[0] / u1[1] * hu, -hu) if hu > -T1[1] or r == 0 else None
    P1 = (J[0] + u2[0] / u2[1] * ho, ho) if ho > T2[1] or r == 0 else None
    if abs(hu + T1[1]) < 1e-3 or abs(ho - T2[1]) < 1e-3:
        return None
    lo, hi = (P0 or T1), (P1 or T2)
    if lo[1] < -hc + .05 or hi[1] > hh - .05:
        return None
    if r > 0:
        M = (T1[0] - r * u1[1], T1[1] + r * u1[0])
        n = H.KEGELKREMPE_SEGMENTS
        arc_ = [(M[0] + r * math.cos(a1 - math.pi / 2 + (a2 - a1) * i / n), M[1] + r * math.sin(a1 - math.pi / 2 + (a2 - a1) * i / n)) for i in range(n + 1)]
    else:
        arc_ = [J]
    return ([P0] if P0 else []) + arc_ + ([P1] if P1 else [])


def cases(tier):
    q = tier == 'quick'
    k = 0
    for e, un, r, s in itertools.product('dfr' if q else 'rfduU', ('z', 'm', '', 'mf', 'md'), (0, 1, 2) if q else (0, 1, 2, 3), (0, 1) if q else (0, 1, 2, 3)):
        if points(CONES[(0, 3, 1, 2)[s]], UPPER[0], RADII[r], *LEN[(0, 4, 2, 1)[s]]) is None:
            continue
        if q and (r == 2 or s == 1 and (un or r == 0) or s == 0 and e == 'd' and un[1:] or e == 'f' and r == 1 and s == 0):
            continue
        for o in (s % 2,) if q else (0, 1):
            yield ['R', e, un, r, s, o]
    for c, u, r, l, un in itertools.product(range(4 if q else 6), range(2 if q else 3), range(4 if q else 5), range(9 if q else 16), ('', 'm', 'z', 'c', 's')):
        if points(CONES[c], UPPER[u], RADII[r], *LEN[l]) is None:
            continue
        k += 1
        for pl in range(6):
            if q and (pl + k) % (3 if un in ('', 'm', 'z') else 6):
                continue
            yield ['G', c, u, r, l, un, pl]
        if k % (23 if q else 5) == 0:
            yield ['GP', c, u, r, l, un, k // 23 % 6]


def build(cone, upper, r, ho, hu, un, pl):
    s, x, y = pl
    yj = y + cone[1] * s
    kegel = H.Mantel(name='kegel', pos_v=y, pos_h=x, d=(cone[0] * s, 4 * s), h=cone[1] * s)
    ma = H.Mantel(name='ma', pos_v=yj, pos_h=x, d=(4 * s, upper[0] * s), h=upper[1] * s)
    hts = [ma]
    if un:
        cls = H.StandZarge if un[0] in 'zs' else H.Mantel
        hts.append(cls(name='un', pos_v=yj - 3 * s, pos_h=x, d=(UNDER[un[0]] * s, 4 * s), h=3 * s))
    kkr = H.KegelKrempe(name='kkr', h_non_kegelside=ho * s, h_kegelside=hu * s, r=r * s, hts=tuple(hts), kegel=kegel)
    return kegel, hts, kkr


def segs(p):
    return [(s.__class__.__name__, xy(s.i), xy(s.j)) for s in p.segments]


def undirected(got, want, tol, w, ctx):
    rest = list(got)
    for k, a, b in want:
        for g in rest:
            if g[0] == k and (close(g[1], a, tol) and close(g[2], b, tol) or close(g[1], b, tol) and close(g[2], a, tol)):
                rest.remove(g)
                break
        else:
            ctx.fail('%s: %s %r -> %r is missing: %r' % (w, k, a, b, got))
    ctx.check(not rest, '%s: segments that do not belong there: %r', w, rest)


def close(a, b, tol):
    return abs(a[0] - b[0]) < tol and abs(a[1] - b[1]) < tol


def run(c, ctx):
    ctx.state(c)
    if c[0] == 'R':
        return rooms(c, ctx)
    kind, ci, ui, ri, li, un, pi = c
    keep = H.Graph.add_intex_points
    if kind == 'G':                     # geometry only: the reference points are expensive
        H.Graph.add_intex_points = lambda self: None
    try:
        geometry(c, ctx)
    finally:
        H.Graph.add_intex_points = keep


def geometry(c, ctx):
    kind, ci, ui, ri, li, un, pi = c
    cone, upper, r, (ho, hu), pl = CONES[ci], UPPER[ui], RADII[ri], LEN[li], PLACES[pi]
    pts = points(cone, upper, r, ho, hu)
    kegel, hts, kkr = build(cone, upper, r, ho, hu, un, pl)
    s, x, y = pl
    tol = 2e-6 * max(1, s)
    R = lambda p: (x + p[0] * s, y + (p[1] + cone[1]) * s)
    L = lambda p: (x - p[0] * s, y + (p[1] + cone[1]) * s)
    want = [('Wall', R(a), R(b)) for a, b in zip(pts, pts[1:])] + [('Wall', L(a), L(b)) for a, b in zip(pts, pts[1:])]
    want += [('NonWall', L(pts[0]), R(pts[0])), ('NonWall', L(pts[-1]), R(pts[-1]))]
    undirected(segs(kkr), want, tol, 'knuckle', ctx)
    undirected([(q.__class__.__name__, xy(q.i), xy(q.j)) for q in kkr.graph.segments], [w for w in want if w[0] == 'Wall'], tol, 'graph of the knuckle', ctx)
    ctx.check(kkr.isclosed and kkr.iscontinuous, 'the knuckle is not a closed continuous line')
    lo, hi = (cone[0] / 2, -cone[1]), (upper[0] / 2, upper[1])

    def shell(a, b, low='NonWall'):
        return [('Wall', R(a), R(b)), ('Wall', L(a), L(b)), (low, L(a), R(a)), ('NonWall', L(b), R(b))]
    undirected(segs(kegel), shell(lo, pts[0]), tol, 'cone', ctx)
    undirected(segs(hts[0]), shell(pts[-1], hi), tol, 'shell above', ctx)
    parts = [(kegel, lo, pts[0]), (hts[0], pts[-1], hi)]
    if un:
        undirected(segs(hts[1]), shell((UNDER[un] / 2, -3.), pts[-2], 'Wall' if un in 'zs' else 'NonWall'), tol, 'part below', ctx)
        parts.append((hts[1], (UNDER[un] / 2, -3.), pts[-2]))
    for p, a, b in parts:
        undirected([('', xy(q.i), xy(q.j)) for q in p.graph.segments],
                   [('', w[1], w[2]) for w in shell(a, b, 'Wall' if un and un in 'zs' and p is hts[-1] and p is not hts[0] else 'NonWall') if w[0] == 'Wall'], tol, 'graph of %s' % p.name, ctx)
        ring_ = [R(a), R(b), L(b), L(a)]
        for q in p.graph.internal:
            ctx.check(ref.locate(xy(q), ring_) > 0, 'inner reference point %r of %s is outside', xy(q), p.name)
        for q in p.graph.external:
            on = un and un in 'zs' and p is hts[-1] and abs(q.y - ring_[0][1]) < tol       # on the bottom of a skirt
            ctx.check(on or ref.locate(xy(q), ring_) <= 0, 'outer reference point %r of %s is inside', xy(q), p.name)
    ring_ = [R(p) for p in pts] + [L(p) for p in pts[::-1]]
    for q in kkr.graph.segments:
        for l, inside in ((kkr.graph.internal, True), (kkr.graph.external, False)):
            ps = [p for p in l if p.segment == q]
            ctx.check(ps or kind == 'G', 'no %s reference point for %r', 'inner' if inside else 'outer', q)
            for p in ps:
                ctx.check((ref.locate(xy(p), ring_) > 0) == inside, '%s reference point %r of the knuckle is on the wrong side', 'inner' if inside else 'outer', xy(p))
                d = V05.dist(xy(p), xy(q.i), xy(q.j))
                ctx.check(0 < d < .04 * s, '%s reference point %r of the knuckle is %r away from its wall', 'inner' if inside else 'outer', xy(p), d)
    ctx.equal((kkr.pos_v, kkr.pos_h, kkr.ht_oben, kkr.ht_unten), (hts[0].pos_v, hts[0].pos_h, hts[0], hts[1] if un else None), 'attributes')
    ctx.step(3)
    ctx.outcome(('G', r > 0, len(pts), un, upper[0] > 4))


KEYS = ('innenraum', 'aussenraum', 'indifferent')


def tent(c, d):
    return {'f': 0, 'r': 0, 'u': 1, 'U': 1, 'd': -1, 'D': -1}[c] * d * max(0.1, d / 1000.) / 2


def area(right, axis=0.):
    """area between the axis and a contour that runs up, both sides"""
    return sum((a[0] + b[0]) * (b[1] - a[1]) for a, b in zip(right, right[1:]))


def rooms(c, ctx):
    _, e, un, ri, s, o = c
    cone, upper, r, (ho, hu) = CONES[(0, 3, 1, 2)[s]], UPPER[0], RADII[ri], LEN[(0, 4, 2, 1)[s]]
    pl = PLACES[s % 2]
    pts = points(cone, upper, r, ho, hu)
    kegel, hts, kkr = build(cone, upper, r, ho, hu, un, pl)
    sc, x, y = pl

    def end(k, name, yy, d):
        if k == 'f':
            return H.Flachboden(name=name, pos_v=yy, pos_h=x, d=d)
        if k == 'r':
            return H.RaumEnde(name=name, pos_v=yy, pos_h=x, d=d)
        return (H.Klopperboden if k in 'ud' else H.Korbbogenboden)(name=name, pos_v=yy, pos_h=x, d=d, h1=.025 * d, orient=1 if k in 'uU' else -1)
    parts = hts[:1] + [end('U', 'bo', y + cone[1] + upper[1], upper[0]), end(e, 'end', y, cone[0]), kegel, kkr]
    if un:
        parts.append(hts[1])
        if un[0] == 'm':
            parts.append(end((un + 'r')[1], 'reu', y + cone[1] - 3., 4.))
    if o:
        parts = parts[::-1]
    top, low = 'T', 'L'
    own = {top: (set(['ma', 'bo', 'end', 'kegel', 'kkr']), set())}
    con = [(cone[0] / 2, -cone[1])] + pts + [(upper[0] / 2, upper[1])]
    areas = {top: area(con) + tent('U', upper[0]) - tent(e, cone[0])}
    below = set()
    if un:
        own[low] = (set(['un', 'end', 'kegel', 'kkr'] + (['reu'] if un[0] == 'm' else [])), set())
        inner = [(cone[0] / 2, -cone[1])] + pts[:-1]
        if len(pts) == 3 and r == 0:
            inner = [(cone[0] / 2, -cone[1])] + pts[:2]
        skirt = [(2., -3.), pts[-2]]
        areas[low] = area(skirt) - area(inner) + tent(e, cone[0]) - (tent((un + 'r')[1], 4.) if un[0] == 'm' else 0)
        below = {low}

    def ends(k, a, b):
        return {'f': (set(), set(), a | b), 'r': (set(), set(), set()), 'u': (b, a, set()), 'U': (b, a, set()), 'd': (a, b, set()), 'D': (a, b, set())}[k]
    rel = {'ma': ({top}, set(), set()), 'bo': ({top}, set(), set()), 'end': ends(e, {top}, below), 'kegel': ({top}, below, set()), 'kkr': ({top}, below, set())}
    if un:
        rel['un'] = ({low}, set(), set())
        if un[0] == 'm':
            rel['reu'] = ends((un + 'r')[1], {low}, set())
    b = H.Behalter(parts)
    got = V.observe_rooms(b)
    ms = V.matchings(got, own)
    ctx.check(ms, 'rooms: %r, expected %r', dict((k, sorted(v[0])) for k, v in got.items()), dict((k, sorted(v[0])) for k, v in own.items()))
    m = ms[0]
    byroom = dict((q.name, q) for q in b.raume)
    cyc = b.graph.cycles
    for q in m:
        a = cyc[byroom[q].cycle[0]].area
        ctx.check(abs(a - areas[m[q]]) < 1e-5, 'outline area of room %s is %r, expected %r', m[q], a, areas[m[q]])
    r1 = b.raum_intex()
    have = dict((n, tuple(set(m[q] for q in r1[n][k]) for k in KEYS)) for n in r1)
    diff = dict((n, (have[n], rel[n])) for n in rel if have.get(n) != rel[n])
    ctx.step(2)
    ctx.outcome(('R', e, un, r > 0))
    if diff == {'kkr': (({top}, set(), set()), ({top}, {low}, set()))} and r == 0:
        ctx.fail('a cone knuckle with r = 0 over a skirt is not outside of the room below', key='r0-knuckle-outside')
    ctx.check(not diff, 'relations found, expected: %r', diff)


def post(tier, outcomes, counters, states):
    if len(outcomes) < 20:
        return 'only %r' % outcomes
