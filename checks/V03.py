# -*- coding: utf-8 -*-
"""The analysis of a vessel does not depend on the order of the parts, earlier questions, copies or rebuilds."""
from mc.lib import *
from mc import rnd
from mc import vessel as V
from SR_Vessel.SR_hauptteile import Behalter
import copy
import itertools

PID = 'V03'
RULE = '(P) a vessel is built from its parts in every order of the bound and under several variants of the random source; ' \
       '(H) every sequence of questions, copies and rebuilds up to the depth; after every step rooms, walls and relations ' \
       'must be those of the description'
BOUNDS = {
    'quick': 'P: all orders of the parts for 9 vessels with 3 and 8 with 4-5 parts, all rotations (both ways) and transpositions for 10 vessels with '
             '6-8 parts (nested, jacketed, side by side), half of the rotations of three orders for 6 vessels with 10-17 parts; H: all sequences of 9 operations up to depth 2 on 6 vessels',
    'thorough': 'P: all orders for all 9 + 27 vessels with 3 and 5 parts and for 6 vessels with 6 parts (720 each), rotations and '
                'transpositions for 40 vessels with 6-9 parts, rotations of three orders for 18 vessels with 8-22 parts; H: depth 3 on 8 vessels'}
CHUNK = 1
ASSUMPTIONS = ['as V01']
KEYS = ('innenraum', 'aussenraum', 'indifferent')


def few(n):
    base = list(range(n))
    for d in (base, base[::-1]):
        for k in range(n):
            yield d[k:] + d[:k]
    for i in range(n):
        for j in range(i):
            o = list(base)
            o[i], o[j] = o[j], o[i]
            yield o


S = V.stack
BIG = [
    {'stacks': [S('du', h=[3.]), S('ff', d=3., y=1., inside=[0, 0])]},
    {'stacks': [S('ff', h=[3.]), S('du', d=3., y=1., inside=[0, 0])]},
    {'stacks': [S('uf', h=[3.]), S('fd', d=3., y=1., inside=[0, 0])]},
    {'stacks': [S('du'), S('fd', d=3., x=9.)]},
    {'jacket': V.jacket('d', 'd', 'u', [2.], .75)},
    {'jacket': V.jacket('f', 'd', 'f', [2.], .75)},
    {'jacket': V.jacket('D', 'f', 'u', [1., 2.], .75)},
    {'jacket': V.jacket('d', 'r', 'u', [.5, 1., 2.], .75)},
    {'stacks': [S('dfu', courses=[2, 1])]},
    {'stacks': [S('z' + 'du', h=[2., 1.], courses=[2, 1])]},
]
MORE = [{'stacks': [S('du', h=[4.]), S(''.join(f), d=3., y=1., inside=[0, 0])]} for f in itertools.product('fud', repeat=3)][::3] + [
    {'jacket': V.jacket(ib, ob, cap, [1., 2.], rz)} for ib in 'df' for ob in 'df' for cap in 'fu' for rz in (.3, 1.5)] + [
    {'stacks': [S('dufu', h=[1., 2., 1.])]}, {'stacks': [S('fddf')]}, {'stacks': [S('rdur')]}]
OPS = ('intex', 'cycles', 'contained', 'overlap', 'erstellen', 'copy', 'rebuild', 'cut', 'numbers')
HV = [{'stacks': [S('du')]}, {'stacks': [S('dfu')]}, BIG[0], BIG[4], BIG[6], BIG[9], {'stacks': [S('rur', courses=[1, 3])]}, BIG[3]]


def cases(tier):
    T = tier == 'thorough'
    for f in itertools.product('fud', repeat=2):
        for o in itertools.permutations(range(3)):
            yield {'stacks': [S(''.join(f))], 'order': list(o), 'tag': 'P'}
    for k, f in enumerate(itertools.product('fud', repeat=3)):
        if T or k % 4 == 0:
            for o in itertools.permutations(range(5)):
                yield {'stacks': [S(''.join(f), h=[1., 1.3], courses=[1, 1])], 'order': list(o), 'tag': 'P'}
    for f in ('zdu',):
        for o in itertools.permutations(range(4)):
            yield {'stacks': [S(f, h=[2., 1.])], 'order': list(o), 'tag': 'P'}
    for d in BIG + (MORE if T else []):
        n = len(V.Vessel(d).names())
        for o in few(n):
            yield dict(d, order=o, tag='P')
    for k, d in enumerate(V.large(False)):
        if T or k in (0, 5, 7, 11, 13, 14):
            n = len(V.Vessel(d).names())
            for j in range(n):
                for o in (list(range(n)), list(range(n - 1, -1, -1)), list(range(0, n, 2)) + list(range(1, n, 2))):
                    if T or (j + o[0]) % 2:
                        yield dict(d, order=o[j:] + o[:j], tag='P')
    if T:
        for d in BIG[:4] + BIG[4:6]:
            n = len(V.Vessel(d).names())
            if n == 6:
                for o in itertools.permutations(range(n)):
                    yield dict(d, order=list(o), tag='P')
    for d in HV[:None if T else 6]:
        for n in range(1, (3 if T else 2) + 1):
            for h in itertools.product(OPS, repeat=n):
                yield dict(d, hist=list(h), tag='H')


def snapshot(v, b, w, ctx):
    got = V.observe_rooms(b)
    ms = V.matchings(got, v.own)
    ctx.check(ms, 'rooms %s: %r', w, dict((k, (sorted(a), sorted(i))) for k, (a, i) in got.items()))
    cyc = b.graph.cycles
    r1 = b.raum_intex()
    byroom = dict((r.name, r) for r in b.raume)
    want = dict((n, tuple(sorted(map(str, s)) for s in v.rel[n])) for n in v.rel)
    for m in ms:
        have = dict((n, tuple(sorted(str(m[r]) for r in r1[n][k]) for k in KEYS)) for n in r1)
        if have == want and all(abs(cyc[byroom[r].cycle[0]].area - v.areas[m[r]]) < 1e-4 * max(1, v.areas[m[r]]) for r in m):
            break
    else:
        ctx.fail('relations or outlines %s: %r' % (w, dict((n, (have[n], want[n])) for n in want if have.get(n) != want[n])))
    ctx.step()


def run(case, ctx):
    v = V.Vessel(case)
    parts = [p for _, p in v.parts()]
    ctx.state(case)
    if case['tag'] == 'P':
        rnd.reset(sum(i * j for i, j in enumerate(case['order'])) % 4)
        snapshot(v, Behalter(parts), 'for this order', ctx)
        ctx.outcome(('P', len(parts), len(v.own)))
        return
    b = Behalter(parts)
    for i, op in enumerate(case['hist']):
        if op == 'intex':
            b.raum_intex()
        elif op == 'cycles':
            b.cycles
            b.graph.segments_in_cycles
        elif op == 'contained':
            b.contained_cycles
        elif op == 'overlap':
            b.overlaps_in_cycles
            b.overlaps_in_cycles_named
            b.all_overlapping_segments
        elif op == 'erstellen':
            b.raum_erstellen()
        elif op == 'copy':
            b = copy.deepcopy(b)
        elif op == 'rebuild':
            b = Behalter(list(b.polygons))
        elif op == 'cut':
            b.cut_by_raumende()
        elif op == 'numbers':
            b.graph.points_numbered
            b.graph.all_segments
            repr(b.polygons)
        snapshot(v, b, 'after %r' % (case['hist'][:i + 1],), ctx)
    ctx.outcome(('H', case['hist'][-1], len(v.own)))


def post(tier, outcomes, counters, states):
    if len(outcomes) < 15:
        return 'only %d outcomes' % len(outcomes)
