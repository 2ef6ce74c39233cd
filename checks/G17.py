# -*- coding: utf-8 -*-
"""Networks of walls: adjacency, numbering, validity, loops, base cycles and the parts on them."""
from mc.lib import *
from mc import ref
from SR_Vessel.SR_hauptteile import Wall
import itertools
import math

PID = 'G17'
RULE = 'a case is a set of walls (edge subset of a planar network) grouped into parts, with directions and a placement; adjacency lists, ' \
       'numbering, validity, loops (all simple cycles), base cycles (the closed rooms) and the parts on them are compared with plain graph search'
BOUNDS = {'quick': 'all subsets (3 or more edges) of the 2x3 grid with diagonals, the prism, the wheel with 5 spokes and two nested/side by side quadrangles; '
                   'loops of all subsets with at most 12 simple cycles, base cycles of doubly connected subsets with at most 7 cycles; 2 variants of direction, order, grouping, placement',
          'thorough': 'as quick with 8 variants, base cycles up to 9 simple cycles'}
CHUNK = 8
ASSUMPTIONS = ['walls meet at their ends only']
NETS = {
    'grid': ([(0, 0), (2, 0), (4, 0), (0, 1), (2, 1.5), (4, 1)], [(0, 1), (1, 2), (3, 4), (4, 5), (0, 3), (1, 4), (2, 5), (0, 4), (1, 5)]),
    'prism': ([(0, 0), (9, 0), (4, 8), (3, 2), (6, 2), (4, 5)], [(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3), (0, 3), (1, 4), (2, 5)]),
    'wheel': ([(0, 0), (5, 0), (2, 4), (-4, 3), (-4, -3), (2, -5)], [(0, 1), (0, 2), (0, 3), (0, 4), (0, 5), (1, 2), (2, 3), (3, 4), (4, 5), (5, 1)]),
    'two': ([(0, 0), (4, 0), (4, 3), (0, 3), (1, 1), (3, 1), (3, 2), (1, 2)], [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (2, 6)]),
    'beside': ([(0, 0), (4, 0), (4, 3), (0, 3), (5, 1), (7, 1), (7, 2), (5, 2)], [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (2, 7), (1, 4)]),
}
PL = [(1., 0., 0.), (1 / 3., 1 / 7., -2 / 9.), (1000 / 3., 1234.5 / 7, -50 / 3.), (.3, -.7, .4), (250., 1000., -40.), (1., -7., -9.), (.01, .02, .03), (7., 5e3, 2e3)]


def simple_cycles(es):
    """every simple cycle of an undirected graph, as frozenset of edges"""
    adj = {}
    for a, b in es:
        adj.setdefault(a, []).append(b)
        adj.setdefault(b, []).append(a)
    res = set()

    def go(start, path, seen):
        for n in adj[path[-1]]:
            if n == start and len(path) > 2:
                res.add(frozenset(tuple(sorted(e)) for e in zip(path, path[1:] + [start])))
            elif n > start and n not in seen:
                go(start, path + [n], seen | {n})
    for v in sorted(adj):
        go(v, [v], {v})
    return res


def area(cyc, pts):
    c = list(cyc)
    ring_ = list(c.pop())
    while c:
        e = [x for x in c if ring_[-1] in x][0]
        c.remove(e)
        ring_.append(e[0] if e[1] == ring_[-1] else e[1])
    ring_.pop()
    p = [pts[i] for i in ring_]
    return abs(sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(p, p[1:] + p[:1]))) / 2, p


def connected(es):
    seen = set(es[0])
    while True:
        new = set(v for e in es if set(e) & seen for v in e) - seen
        if not new:
            return all(e[0] in seen for e in es)
        seen |= new


def ring_net(*rings):
    """(points, walls) of closed rings"""
    pts, es = [], []
    for r in rings:
        o = len(pts)
        pts += r
        es += [(o + i, o + (i + 1) % len(r)) for i in range(len(r))]
    return pts, es


def circle(n, x, y, r):
    return [(2. * round(50 * (x + r * math.cos(2 * math.pi * i / n + .2))), 2. * round(50 * (y + r * math.sin(2 * math.pi * i / n + .2)))) for i in range(n)]


def chords(n, *ch):
    """a ring of n walls and single walls across it"""
    pts, es = ring_net(circle(n, 0, 0, 9))
    return pts, es + list(ch)


LARGE = [
    ring_net(circle(40, 3, -2, 9)),
    ring_net(circle(5, 0, 0, 3), circle(7, 10, 1, 4), circle(4, 1, 9, 2)),
    ring_net(circle(12, 0, 0, 9), circle(3, 0, 0, 2)),
    ring_net(circle(9, 0, 0, 9), circle(5, -3, 0, 2), circle(6, 3, 0, 2.5)),
    ring_net(circle(8, 0, 0, 9), circle(6, 0, 0, 7), circle(4, 0, 0, 3)),
    ring_net(circle(20, 0, 0, 9), circle(20, 20, 3, 8), circle(3, 20, 3, 1), circle(10, -20, -5, 5)),
    ring_net([(0, 0), (9, 0), (9, 9), (6, 9), (6, 3), (3, 3), (3, 9), (0, 9)], [(4, 5), (5, 5), (5, 8), (4, 8)]),
    chords(9, (0, 4)),
    chords(12, (1, 6)),
    chords(10, (0, 4), (5, 9)),
    chords(9, (0, 3), (4, 8)),
    (circle(8, 0, 0, 9) + circle(5, 20, 0, 4), ring_net(circle(8, 0, 0, 9), circle(5, 20, 0, 4))[1] + [(0, 4)]),
    (circle(7, 0, 0, 9) + circle(4, 0, 3, 1), ring_net(circle(7, 0, 0, 9), circle(4, 0, 3, 1))[1] + [(4, 6)]),
    ([(0, 0), (4, 0), (8, 0), (8, 3), (4, 3), (0, 3), (0, 6), (4, 6), (8, 6)], [(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 0), (5, 6), (6, 7), (7, 8), (8, 3)]),
]


def components(es):
    res = []
    for e in es:
        new = [e]
        for c in [c for c in res if set(e) & set(v for x in c for v in x)]:
            res.remove(c)
            new += c
        res.append(new)
    return res


def cases(tier):
    for k in range(len(LARGE)):
        yield ['large', k]
    for n in sorted(NETS):
        k = len(NETS[n][1])
        for m in range(1, 2 ** k):
            if bin(m).count('1') >= 3:
                yield [n, m]


class Part(PolygonLine):
    """a part with nothing but walls"""

    def __init__(self, name, segs):
        super(Part, self).__init__(segs)
        self.name = name
        self.typ = 'part'
        self.graph = Gr(self)

    @property
    def wall_segments(self):
        return self.segments


class Gr(PolygonLine):
    def __init__(self, part):
        self.hauptteil = part
        self.name = 'graph of ' + part.name
        super(Gr, self).__init__(part.segments)


class Net(object):
    pass


def run(case, ctx):
    if case[0] == 'large':
        pts, es = LARGE[case[1]]
    else:
        pts, edges = NETS[case[0]]
        es = [e for i, e in enumerate(edges) if case[1] >> i & 1]
    deg = {}
    for e in es:
        for v in e:
            deg[v] = deg.get(v, 0) + 1
    cyc = simple_cycles(es)
    conn = connected(es)
    for var in range(2 if ctx.tier == 'quick' and case[0] != 'large' else 8):
        one(case, ctx, var, pts, es, deg, cyc, conn)


def one(case, ctx, var, pts, es, deg, cyc, conn):
    t = PL[(var + case[1]) % 8]
    T = lambda k: (round(t[1] + t[0] * pts[k][0], 8), round(t[2] + t[0] * pts[k][1], 8))
    back = dict((T(k), k) for k in deg)
    n = len(es)
    order = es[var % n:] + es[:var % n]
    if var & 1:
        order = order[::-1]
    mask = (0, 0x2aa, 0x0f3, 0x31c, 0x155, 0x2d6, 0x16b, 0x3ff)[(var + case[1]) % 8]
    order = [e[::-1] if mask >> (i % 10) & 1 else e for i, e in enumerate(order)]
    # grouping: one wall per part, or runs of walls that follow each other
    groups = [[e] for e in order]
    if (var + case[1]) % 2:
        groups = []
        for e in order:
            if groups and len(groups[-1]) < 3 and groups[-1][-1][1] == e[0]:
                groups[-1].append(e)
            else:
                groups.append([e])
    kind = (LineSegment, Wall)[(var // 2 + var + case[1] // 2) % 2]
    parts = [Part('p%d' % i, [kind(Point(T(a)), Point(T(b))) for a, b in g]) for i, g in enumerate(groups)]
    w = 'of %r' % [[(T(a), T(b)) for a, b in g] for g in groups]
    E = lambda pl: frozenset(tuple(sorted((back[xy(s.i)], back[xy(s.j)]))) for s in pl.segments)
    net = Net()
    net.polygons = parts
    g = BehalterGraph(behalter=net)
    ctx.state((case, var))
    # adjacency and numbering
    num = g.points_numbered
    ctx.equal(sorted(num.values()), list(range(len(deg))), 'numbers %s' % w)
    ctx.equal(sorted(back[xy(p)] for p in num), sorted(deg), 'numbered points %s' % w)
    al = g.as_adjacency_list()
    want = dict((v, sorted(set(x for e in es if v in e for x in e) - {v})) for v in deg)
    ctx.equal(dict((back[xy(p)], sorted(back[xy(q)] for q in l)) for p, l in al.items()), want, 'neighbours %s' % w)
    aln = g.as_adjacency_list(as_numbered=True)
    no = dict((back[xy(p)], i) for p, i in num.items())
    ctx.equal(aln, dict((no[v], sorted(no[x] for x in l)) for v, l in want.items()), 'numbered neighbours %s' % w)
    for v in deg:
        ctx.equal(g.node_degree(aln, no[v]), deg[v], 'degree of %r %s' % (T(v), w))
    ctx.equal(edge_multiset(g.representative_graph), sorted(tuple(sorted((T(a), T(b)))) for a, b in es), 'walls %s' % w)
    # names and members
    gp = [x.graph for x in parts]
    ctx.equal(g.name_from_repr(gp[::-1]), ['graph of ' + x.name for x in parts[::-1]], 'names of all members %s' % w)
    twin = Gr(Part('twin', [kind(Point(xy(s.i)), Point(xy(s.j))) for s in gp[-1].segments]))
    ctx.equal(g.name_from_repr(dict(a=[twin], b=gp[:2])), dict(a=[gp[-1].name], b=[x.name for x in gp[:2]]), 'names of some members %s' % w)
    ctx.equal(g.name_from_repr(gp[0]), gp[0].name, 'name of the first member %s' % w)
    ctx.check(g.polygon_from_repr(twin) is gp[-1], 'the member equal to the last one %s', w)
    # validity: no free ends, at least three nodes of degree 2, even number of branches, no node with four walls
    d = list(deg.values())
    if not (d.count(1) == 0 and d.count(2) >= 3 and d.count(3) % 2 == 0 and max(d) < 4):
        ctx.equal(bool(g.isvalid), False, 'network is valid %s' % w)
    elif all(len(x) == 1 for x in groups):
        ctx.equal(bool(g.isvalid), all(x.graph.isvalid for x in parts), 'network is valid %s' % w)
    # parts on points
    for k in range(2, len(deg) + 1) if case[0] != 'large' else (2, len(deg) - 1):
        for c in itertools.islice(itertools.combinations(sorted(deg), k), 0, None, 3):
            got = g.segments_from_points([Point(T(v)) for v in c])
            ctx.equal(sorted(x.name for x in got), sorted('graph of p%d' % i for i, gr in enumerate(groups) if any(set(e) <= set(c) for e in gr)), 'parts on the points %r %s' % (c, w))
    ctx.step(6)
    if len(cyc) > 12:
        return
    # loops
    loops = g.find_loops()
    got = [E(l) for l in loops]
    ctx.equal(sorted(map(sorted, got)), sorted(map(sorted, cyc)), 'loops %s' % w)
    for l in loops:
        ctx.check(l.isclosed and l.isvalid and l.iscontinuous, 'a loop is not closed, valid and ordered %s: %r', w, l)
    ctx.equal([len(l.segments) for l in loops], sorted(len(l.segments) for l in loops), 'loops are in order of their length %s' % w)
    ctx.step()
    ctx.outcome((case[0], len(cyc), conn, min(d), max(d)))
    comps = components(es)
    if not cyc or not all(connected(x) for c in comps for v in deg for x in [[e for e in c if v not in e]] if x) or min(d) < 2 or len(cyc) > (7 if ctx.tier == 'quick' else 9):
        return
    # rooms: faces
    fac = [f for c in comps for f in faces([x for x in cyc if set(x) <= set(tuple(sorted(e)) for e in c)], pts)]
    got = g.cycles
    ctx.equal(sorted(sorted(E(c)) for c in got.values()), sorted(map(sorted, fac)), 'rooms %s' % w)
    sic = g.segments_in_cycles
    for k, c in got.items():
        f = E(c)
        ctx.equal(sorted(x.hauptteil.name for x in sic[k]), sorted('p%d' % i for i, gr in enumerate(groups) if any(tuple(sorted(e)) in f for e in gr)), 'parts of the room %r %s' % (sorted(f), w))
    ctx.step(2)
    ctx.count('rooms', len(fac))


def faces(cyc, pts):
    """bounded faces of a doubly connected plane graph: the cycles that have no other cycle in them"""
    info = [(area(c, pts), c) for c in cyc]
    res = []
    for (a, p), c in info:
        inner = [c2 for (a2, p2), c2 in info if c2 != c and a2 < a and inside(p2, p)]
        if not inner:
            res.append(c)
    return res


def inside(p2, p):
    """every point (corner, middle of a side) of p2 in or on p, and p2 is smaller"""
    q = list(p2) + [((a[0] + b[0]) / 2., (a[1] + b[1]) / 2.) for a, b in zip(p2, p2[1:] + p2[:1])]
    return all(ref.locate(x, p) >= 0 for x in q)


def post(tier, outcomes, counters, states):
    if len(outcomes) < 15 or counters.get('rooms', 0) < 200:
        return 'outcomes %r %r' % (outcomes, counters)
