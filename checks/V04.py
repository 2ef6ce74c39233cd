# -*- coding: utf-8 -*-
"""Cutting a part at a height or by a room end, along every sequence of cuts."""
from mc.lib import *
from mc import ref, rnd
from SR_Vessel.SR_hauptteile import Mantel, StandZarge, Klopperboden, Korbbogenboden, Flachboden, RaumEnde, KegelKrempe
import itertools

PID = 'V04'
RULE = 'a case is a part, a placement and a sequence of cuts (at heights below, at, inside and above the part; by room ends that are wider, ' \
       'as wide as, narrower than or beside the part; kept or not, fresh or used before); after every cut the walls, their kinds and order of end points, ' \
       'the graph and its reference points are compared with exact division of the walls'
BOUNDS = {'quick': '10 parts x 6 placements (two of them thirds and sevenths), 70 long sequences of up to 11 cuts; all sequences of 13 cuts up to depth 2, depth 3 for a cone (depth 1 for 8 parts at the origin)',
          'thorough': '10 parts x 6 placements (two of them thirds and sevenths), 9 long sequences each; all sequences up to depth 3, depth 4 for cylinder and cone at one placement'}
CHUNK = 16
ASSUMPTIONS = ['a room end that is not kept crosses the part on both sides (the only form the library supports)']
# h = 4, bottom at 0; widths 4 / 2-6 / 6-2
PARTS = {
    'cyl': lambda x, y, s: Mantel(name='m', pos_v=y, pos_h=x, d=(4 * s, 4 * s), h=4 * s),
    'cone': lambda x, y, s: Mantel(name='m', pos_v=y, pos_h=x, d=(2 * s, 6 * s), h=4 * s),
    'enoc': lambda x, y, s: Mantel(name='m', pos_v=y, pos_h=x, d=(6 * s, 2 * s), h=4 * s),
    'zarge': lambda x, y, s: StandZarge(name='m', pos_v=y, pos_h=x, d=(4 * s, 4 * s), h=4 * s),
    'klopp': lambda x, y, s: Klopperboden(name='m', pos_v=y + s, pos_h=x, d=4 * s, h1=.1 * s, orient=1),
    'korb': lambda x, y, s: Korbbogenboden(name='m', pos_v=y + s, pos_h=x, d=4 * s, h1=.1 * s, orient=-1),
    'flach': lambda x, y, s: Flachboden(name='m', pos_v=y + 2 * s, pos_h=x, d=4 * s),
    'flach0': lambda x, y, s: Flachboden(name='m', pos_v=y, pos_h=x, d=4 * s),
    'raumende': lambda x, y, s: RaumEnde(name='m', pos_v=y + s, pos_h=x, d=4 * s),
    'course': lambda x, y, s: Mantel(name='m', pos_v=y + .5 * s, pos_h=x, d=(4 * s, 4 * s), h=1 * s),
}
PLACES = [(0., 0., 1.), (1 / 7., -2 / 9., 1 / 3.), (10., -20., 1.), (-3.5, 7.25, .5), (500., -300., 100.), (1234.5 / 7, -50 / 3., 1000 / 3.)]
# ('v', height) / (room end: height, offset of its axis, width, keep) / 'u': the room end used last, again
CUTS = [('v', -1.), ('v', 0.), ('v', 1.), ('v', 2.), ('v', 4.), ('v', 5.),
        ('r', 1., 0., 8., True), ('r', 1., 0., 8., False), ('r', 3., 0., 8., False), ('r', 2., 0., 4., True), ('r', 2., 0., 2., True),
        ('r', 2., 4., 6., True), ('u',)]

CUTS += [('v', .25), ('v', .5), ('v', 1.5), ('v', 2.5), ('v', 3.), ('v', 3.5), ('v', 3.75), ('r', .75, 0., 9., False), ('r', 2.25, .5, 9., False), ('r', 3.25, 0., 7., True)]
N0 = 13         # cuts used in all sequences; the others only in the long ones
LONG = [[13, 14, 2, 15, 3, 16, 17, 18, 19], [19, 18, 17, 16, 3, 15, 2, 14, 13], [3, 2, 17, 14, 15, 16, 18, 13], [20, 21, 22, 3, 17], [22, 21, 20, 16, 13],
        [3, 3, 2, 2, 17, 17, 3], [15, 7, 16, 8, 18, 12], [13, 19, 14, 18, 2, 17, 15, 16, 3, 4, 5], [11, 2, 11, 17, 20, 10, 3]]


def cases(tier):
    for n, p in enumerate(sorted(PARTS)):
        for k in range(len(PLACES)):
            for j, h in enumerate(LONG):
                if tier != 'quick' or (n + k + j) % 8 == 0:
                    yield [p, k, h]
    for p in sorted(PARTS):
        for k in range(len(PLACES)):
            for n in (1, 2, 3):
                if n == 3 and tier == 'quick' and not (p == 'cone' and k == 1):
                    continue
                if n == 2 and tier == 'quick' and k == 0 and p not in ('cyl', 'cone'):
                    continue
                for h in itertools.product(range(N0), repeat=n):
                    yield [p, k, list(h)]
    if tier != 'quick':
        for p in ('cyl', 'cone'):
            for h in itertools.product(range(N0), repeat=4):
                yield [p, 2, list(h)]


def near(a, b, s):
    return abs(a[0] - b[0]) < 2e-6 * max(1, s) and abs(a[1] - b[1]) < 2e-6 * max(1, s)


def same(got, want, s):
    """multisets of directed (kind, i, j) within rounding"""
    rest = list(want)
    for g in got:
        for w in rest:
            if g[0] == w[0] and near(g[1], w[1], s) and near(g[2], w[2], s):
                rest.remove(w)
                break
        else:
            return False
    return not rest


def look(part):
    return [(x.__class__.__name__, xy(x.i), xy(x.j)) for x in part.segments]


def run(case, ctx):
    name, k, hist = case
    rnd.LIMIT = 2000000 if len(hist) > 4 else 200000
    x, y, s = PLACES[k]
    part = PARTS[name](x, y, s)
    model = look(part)
    graph0 = dir_edges(part.graph)
    outline = [w[1] for w in model]       # the closed outline of the uncut part
    used = None
    ctx.state(case)
    for i, c in enumerate(hist):
        cut = CUTS[c]
        w = 'after cuts %r' % ([CUTS[z] for z in hist[:i + 1]],)
        before = list(model)
        re = None
        if cut[0] == 'v':
            lo, hi, v, keep = -1e9, 1e9, y + cut[1] * s, True
            got = part.split(v=v)
        elif cut[0] == 'r':
            v, keep = y + cut[1] * s, cut[4]
            lo, hi = x + (cut[2] - cut[3] / 2) * s, x + (cut[2] + cut[3] / 2) * s
            re = RaumEnde(name='re', pos_v=v, pos_h=x + cut[2] * s, d=cut[3] * s)
            rl = look(re)
            got = part.split(ht=re, keep=keep)
            used = re
        else:
            if used is None:
                continue
            rl = look(used)
            got = part.split(ht=used, keep=True)
            v, lo, hi, keep = None, 0, 0, True
            re = used
        ctx.step()
        new, ips = [], []
        head = name in ('klopp', 'korb')
        for kind, a, b in model:
            if v is not None and kind == 'Wall' and not head and (a[1] - v) * (b[1] - v) < 0 and min(abs(a[1] - v), abs(b[1] - v)) > 1e-6:
                t = (v - a[1]) / (b[1] - a[1])
                ip = (a[0] + t * (b[0] - a[0]), v)
                if lo + 1e-6 < ip[0] < hi - 1e-6:
                    new += [(kind, a, ip), (kind, ip, b)]
                    ips.append(ip)
                    continue
            new.append((kind, a, b))
        model = new
        ctx.equal(got, bool(ips), 'return value %s' % w)
        have = look(part)
        ctx.check(same(have, model, s), 'segments %s: %r, expected %r', w, have, model)
        if not ips:
            ctx.check(same(have, before, s), 'segments changed %s', w)
        if not head:
            ctx.check(same([(q.__class__.__name__, xy(q.i), xy(q.j)) for q in part.graph.segments], [m for m in model if m[0] == 'Wall'], s),
                      'graph %s: %r', w, part.graph.segments)
        else:
            ctx.equal(dir_edges(part.graph), graph0, 'graph %s' % w)
        if re is not None:
            if keep or not ips:
                ctx.equal(look(re), rl, 'the room end %s' % w)
            else:
                ips.sort()
                pts = [rl[0][1]] + ips + [rl[0][2]]
                want = [('Wall', pts[0], pts[1]), ('NonWall', pts[1], pts[2]), ('Wall', pts[2], pts[3])]
                ctx.check(same(look(re), want, s) and [q[0] for q in look(re)] == [q[0] for q in want],
                          'the room end %s: %r, expected %r', w, look(re), want)
                ctx.check(same([(q.__class__.__name__, xy(q.i), xy(q.j)) for q in re.graph.segments], [want[0], want[2]], s),
                          'graph of the room end %s: %r', w, re.graph.segments)
        # reference points
        if name in ('cyl', 'cone', 'enoc', 'course', 'zarge'):
            for pts, inside in ((part.graph.internal, True), (part.graph.external, False)):
                for q in part.graph.segments:
                    if q.i.y == q.j.y:        # the bottom of a skirt has none
                        continue
                    ctx.check([p for p in pts if p.segment == q], 'no reference point (%s) for %r %s', 'inside' if inside else 'outside', q, w)
                for p in pts:
                    ctx.check([q for q in part.graph.segments if q == p.segment], 'reference point %r belongs to no wall %s', xy(p), w)
                    ctx.check((ref.locate(xy(p), outline) > 0) == inside, 'reference point %r is on the wrong side %s', xy(p), w)
        ctx.outcome((name, cut[0], len(ips), keep))


def post(tier, outcomes, counters, states):
    if len(outcomes) < 20:
        return 'only %r' % outcomes
