# -*- coding: utf-8 -*-
"""Structural queries of polygon lines: continuity, closedness, validity, neighbours, lookups, equality."""
from mc.lib import Point, LineSegment, PolygonLine, seg, xy, intersecting_lines, dir_edges
from mc import ref
import copy
import itertools

PID = 'G14'
RULE = ('a case is a sequence of directed segments between five points (every sequence of the bound, continuous or not, crossing or '
        'not, branching or not); every structural query of the polygon line is compared with the edge list, equality / loose equality / '
        'subset are compared for the line against all its variants (one segment flipped, reordered, replaced, dropped, moved, copied)')
BOUNDS = {'quick': 'all sequences of 1-3 directed segments between 5 points (no undirected segment twice), every 7th of length 4, 25 lines with up to 34 segments in 12 variants (intact, opened, flipped, crossing), 5 placements (also thirds and sevenths)',
          'thorough': 'all sequences of 1-4 directed segments between 5 points and every 7th of length 5, 5 placements (also thirds and sevenths)'}
ASSUMPTIONS = ['no undirected segment occurs twice in one line (except in equality variants)']
CHUNK = 256
PTS = [(0, 0), (2, 0), (2, 2), (0, 2), (1, 1)]
PL = [(1., 0., 0.), (1 / 3., 1 / 7., -2 / 9.), (1000 / 3., 1234.5 / 7, -50 / 3.), (0.3, -0.7, 0.4), (250., 1000., -40.)]


def cases(tier):
    for k in range(len(ref.big_polygons(tier != 'quick'))):
        for var in range(12 if tier == 'quick' else 60):
            yield ['large', k, var]
    und = list(itertools.combinations(range(5), 2))
    dirs = und + [(b, a) for a, b in und]

    def seqs(n):
        for c in itertools.product(dirs, repeat=n):
            if len(set(tuple(sorted(e)) for e in c)) == n:
                yield [list(e) for e in c]

    for n in (1, 2, 3):
        for s in seqs(n):
            yield s
    if tier == 'quick':
        for s in itertools.islice(seqs(4), 0, None, 7):
            yield s
    else:
        for s in seqs(4):
            yield s
        for s in itertools.islice(seqs(5), 0, None, 7):
            yield s


def large(k, var, ctx):
    """queries of a line with many segments, intact or with one change"""
    X = list(ref.big_polygons(ctx.tier != 'quick')[k])
    n = len(X)
    t = PL[(k + var) % 5]
    r = (5 * var + k) % n
    X = X[r:] + X[:r]
    E = list(zip(X, X[1:] + X[:1]))
    i = (7 * var + 3) % n
    if var % 6 == 1:
        E = E[:-1]
    elif var % 6 == 2:
        E[i] = E[i][::-1]
    elif var % 6 == 3:
        E = E[:i] + E[i + 1:]
    elif var % 6 == 4:                          # two corners exchanged: mostly crossing
        j = (i + n // 2) % n
        X[i], X[j] = X[j], X[i]
        E = list(zip(X, X[1:] + X[:1]))
    elif var % 6 == 5:                          # the last end somewhere else
        E[-1] = (E[-1][0], (X[0][0] + 1, X[0][1] - 50))
    T = lambda p: (round(t[1] + t[0] * p[0], 8), round(t[2] + t[0] * p[1], 8))
    pl = PolygonLine([seg(T(a), T(b)) for a, b in E])
    w = repr([(T(a), T(b)) for a, b in E])
    m = len(E)
    ctx.state(('large', k, var))
    cont = all(x[1] == y[0] for x, y in zip(E, E[1:]))
    closed = cont and E[0][0] == E[-1][1]
    ctx.equal((pl.iscontinuous, pl.isclosed, pl.isopen), (cont, closed, not closed), 'continuity and closedness of %s', w)
    ctx.equal(dir_edges(pl.discontinuity), [(T(y[0]), T(y[1])) for x, y in zip(E, E[1:]) if x[1] != y[0]], 'discontinuities of %s', w)
    pts = sorted(set(p for e in E for p in e))
    ctx.equal([xy(p) for p in pl.point_set], [T(p) for p in pts], 'point set of %s', w)
    bb = ((T(min(pts))[0], T(max(pts))[0]), (T((0, min(p[1] for p in pts)))[1], T((0, max(p[1] for p in pts)))[1]))
    ctx.equal(pl.bounding_box(), bb, 'bounding box of %s', w)
    cross, odd = set(), False
    for a, b in itertools.combinations(range(m), 2):
        c = ref.seg_common(E[a][0], E[a][1], E[b][0], E[b][1])
        odd |= bool(c) and c[0] == 'S'
        if c and c[0] == 'P' and not set(E[a]) & set(E[b]):
            cross |= {(a, b), (b, a)}
    if not odd:
        D = dir_edges(pl)
        got = set((dir_edges([a])[0], dir_edges([b])[0]) for a, b in pl.crossing_lines)
        ctx.equal(got, set((D[a], D[b]) for a, b in cross), 'crossing segments of %s', w)
        ctx.equal(pl.isvalid, cont and not cross, 'validity of %s', w)
    for p in pts[::3]:
        q = Point(T(p))
        ctx.equal(dir_edges(pl.find_segment_by_point(q)), [(T(e[0]), T(e[1])) for e in E if e[0] == p], 'segments starting in %r of %s', q, w)
        ctx.equal(sorted(xy(x) for x in pl.neighbour(q)), sorted(T(x) for e in E if p in e for x in e if x != p), 'neighbours of %r in %s', q, w)
    if closed:
        for a, s in enumerate(list(pl.segments)):
            if [e[0] for e in E].count(E[a][1]) == 1:
                ctx.equal(dir_edges([pl.next_segment(s)])[0], dir_edges(pl)[(a + 1) % m], 'segment after number %d in %s', a, w)
    # equality
    o = PolygonLine([seg(T(b), T(a)) if (x + var) % 3 == 0 else seg(T(a), T(b)) for x, (a, b) in list(enumerate(E))[::-1]])
    ctx.equal((pl == copy.deepcopy(pl), pl == o), (True, False), 'equality of %s and its rearrangement', w)
    ctx.equal((bool(pl.loose_equal(o)), bool(o.loose_equal(pl))), (True, True), 'loose equality of %s and its rearrangement', w)
    F = list(E)
    F[i % m] = (E[i % m][0], (X[0][0] + 7, X[0][1] + 77))
    o = PolygonLine([seg(T(a), T(b)) for a, b in F])
    ctx.equal((pl == o, bool(pl.loose_equal(o)), bool(o.loose_equal(pl))), (False,) * 3, 'equality of %s and %r', w, F)
    ctx.equal(bool(pl.loose_subset(o)), False, 'subset: %s, %r', w, F)
    ctx.step(20)
    ctx.outcome(('large', var % 6, bool(cross)))


def run(case, ctx):
    if case[0] == 'large':
        return large(case[1], case[2], ctx)
    n = len(case)
    h = sum((3 * a + 5 * b) * (i + 1) for i, (a, b) in enumerate(case))
    t = PL[h % 5]
    T = lambda k: (round(t[1] + t[0] * PTS[k][0], 8), round(t[2] + t[0] * PTS[k][1], 8))
    E = [(T(a), T(b)) for a, b in case]
    X = [(PTS[a], PTS[b]) for a, b in case]
    shared = h // 3 % 2
    pool = {k: Point(T(k)) for k in range(5)}
    mk = lambda es: PolygonLine([LineSegment(pool[a], pool[b]) if shared else seg(T(a), T(b)) for a, b in es])
    pl = mk(case)
    w = repr(E)
    ctx.state(tuple(map(tuple, case)))
    ctx.equal(dir_edges(pl), E, 'segments')
    ctx.equal((xy(pl.first_point), xy(pl.last_point)), (E[0][0], E[-1][1]), 'first and last point of %s', w)
    ctx.equal(((xy(pl.first_segment.i), xy(pl.first_segment.j)), (xy(pl.last_segment.i), xy(pl.last_segment.j))), (E[0], E[-1]),
              'first and last segment of %s', w)
    cont = all(x[1] == y[0] for x, y in zip(E, E[1:]))
    ctx.equal(pl.iscontinuous, cont, 'continuity of %s', w)
    closed = cont and E[0][0] == E[-1][1]
    ctx.equal((pl.isclosed, pl.isopen), (closed, not closed), 'closed / open of %s', w)
    ctx.equal(dir_edges(pl.discontinuity), [y for x, y in zip(E, E[1:]) if x[1] != y[0]], 'discontinuities of %s', w)
    pts = sorted(set(p for e in E for p in e))
    ctx.equal([xy(p) for p in pl.point_set], pts, 'point set of %s', w)
    ctx.equal([xy(p) for p in pl.all_points], sorted(p for e in E for p in e), 'all points of %s', w)
    mp = pl.midpoint
    ctx.check(ref.ptclose(xy(mp), (sum(p[0] for p in pts) / len(pts), sum(p[1] for p in pts) / len(pts))), 'mid point of %s: %r', w, mp)
    bb = ((min(p[0] for p in pts), max(p[0] for p in pts)), (min(p[1] for p in pts), max(p[1] for p in pts)))
    ctx.equal(pl.bounding_box(), bb, 'bounding box of %s', w)
    cross = set()
    for i, j in itertools.permutations(range(n), 2):
        c = ref.seg_common(X[i][0], X[i][1], X[j][0], X[j][1])
        if c and c[0] == 'P' and not set(X[i]) & set(X[j]):      # contact of an end point with the inside counts
            cross.add((i, j))
    got = set((dir_edges([a])[0], dir_edges([b])[0]) for a, b in pl.crossing_lines)
    ctx.equal(got, set((E[i], E[j]) for i, j in cross), 'crossing segments of %s', w)
    got = set(frozenset((dir_edges([a])[0], dir_edges([b])[0])) for a, b in intersecting_lines(pl.segments))
    ctx.equal(got, set(frozenset((E[i], E[j])) for i, j in cross), 'intersecting segments of %s', w)
    ctx.equal(pl.isvalid, cont and not cross, 'validity of %s', w)
    ctx.outcome((n, cont, closed, bool(cross)))
    for k in range(5):
        p = Point(T(k))
        ctx.equal(dir_edges(pl.find_segment_by_point(p)), [e for e in E if e[0] == T(k)], 'segments starting in %r of %s', p, w)
        ctx.equal(dir_edges(pl.find_segment_by_point(p, whichend='end')), [e for e in E if e[1] == T(k)], 'segments ending in %r of %s', p, w)
        ctx.equal(dir_edges(pl.find_segment_by_point(p, whichend='both')), [e for e in E if T(k) in e], 'segments at %r of %s', p, w)
        nb = sorted(xy(q) for q in pl.neighbour(p))
        ctx.equal(nb, sorted([e[1] for e in E if e[0] == T(k)] + [e[0] for e in E if e[1] == T(k)]), 'neighbours of %r in %s', p, w)
    if closed and len(pts) == n:
        for i, s in enumerate(list(pl.segments)):
            ctx.equal(dir_edges([pl.next_segment(s)])[0], E[(i + 1) % n], 'segment after %r in %s', E[i], w)
    und = set(frozenset(e) for e in E)
    # closed copy
    if cont:
        cc = pl.closed_copy()
        ctx.equal(dir_edges(cc), E if closed else E + [(E[-1][1], E[0][0])], 'closed copy of %s', w)
        ctx.equal(cc.isclosed, True, 'closed copy of %s', w)
        ctx.equal(dir_edges(pl), E, 'the line after closed_copy')
        ctx.check(not any(p is q for s in cc.segments for p in s.ij for u in pl.segments for q in u.ij), 'the copy shares points')
    tri = n == 3 and closed and ref.area2([X[0][0], X[1][0], X[2][0]]) != 0
    if tri or (n == 3 and not closed and cont):
        ctx.equal(bool(pl.is_triangle), tri, 'is_triangle of %s', w)
    # equality
    var = [('same', case), ('copy', None), ('reversed order', case[::-1]), ('rotated', case[1:] + case[:1])]
    for i in range(n):
        var.append(('flip', case[:i] + [case[i][::-1]] + case[i + 1:]))
        var.append(('drop', case[:i] + case[i + 1:]))
        var.append(('replace', case[:i] + [[case[i][0], [k for k in range(5) if k not in case[i]][h % 3]]] + case[i + 1:]))
    var.append(('all flipped', [e[::-1] for e in case[::-1]]))
    var.append(('more', case + [[h % 5, (h + 1 + h % 3) % 5]]))
    for name, v in var:
        if v is not None and len(v) == 0:
            continue
        o = copy.deepcopy(pl) if v is None else PolygonLine([seg(T(a), T(b)) for a, b in v])
        V = E if v is None else [(T(a), T(b)) for a, b in v]
        vv = '%s and %r (%s)' % (w, V, name)
        ctx.equal((pl == o, o == pl, pl != o), (V == E, V == E, V != E), 'equality of %s', vv)
        if V == E:
            ctx.check(hash(pl) == hash(o) and len(set([pl, o])) == 1, 'equal lines have different hash values: %s', vv)
        vu = set(frozenset(e) for e in V)
        if len(vu) == len(V):
            ctx.equal((bool(pl.loose_equal(o)), bool(o.loose_equal(pl))), (vu == und,) * 2, 'loose equality of %s', vv)
            ctx.equal((bool(pl.loose_equal(o, direction_matters=True)), bool(o.loose_equal(pl, direction_matters=True))),
                      (set(V) == set(E),) * 2, 'directed loose equality of %s', vv)
        vp = set(p for e in V for p in e)
        ctx.equal(bool(pl.loose_subset(o)), vp <= set(pts), 'subset: %s', vv)
        ctx.equal(bool(o.loose_subset(pl)), set(pts) <= vp, 'subset, reversed: %s', vv)
        ctx.step(7)
    ctx.step(40)


def post(tier, outcomes, counters, states):
    if len(outcomes) < 10:
        return 'outcomes %r' % outcomes
