# -*- coding: utf-8 -*-
"""Comparison of the relations of a vessel with a pattern, up to the names of the rooms."""
from mc.lib import *
from SR_Vessel import SR_hauptteile as H
import itertools
import copy
import time

PID = 'V09'
RULE = 'a case is the pattern (parts x relations x sets of rooms); all dicts of the same shape over the rooms are compared with it, and must be accepted exactly ' \
       'when one and only one renaming of the rooms turns the one into the other; both dicts stay as they were'
BOUNDS = {'quick': 'all pairs of: 1 part x 2 relations, 1 part x 3 relations over at most 2 rooms, 2 parts x 1 relation, all over at most 3 rooms; every third pattern of '
                   '2 parts x 2 relations over 2 rooms; the names of the rooms shared, overlapping and disjoint; 10 patterns with up to 5 rooms and 10 parts against everything one step away (a room more, '
                   'less or for another, relations exchanged, parts renamed, missing, additional)',
          'thorough': 'also all of 1 part x 3 relations over 3 rooms, 2 x 2 over 2, 3 parts x 1 relation over 3 rooms'}
CHUNK = 1
ASSUMPTIONS = ['the result must be unique (documented): dicts that two renamings turn into the pattern are refused']
REL = ('innenraum', 'aussenraum', 'indifferent')


def shapes(tier):
    yield 1, 2, 3, 1
    yield 2, 1, 3, 1
    yield 1, 3, 2, 1
    if tier == 'quick':
        yield 2, 2, 2, 3
    else:
        yield 2, 2, 2, 1
        yield 1, 3, 3, 1
        yield 3, 1, 3, 1


def cases(tier):
    for k in range(len(list(large()))):
        for names in range(3):
            yield ['large', k, names]
    for parts, rels, rooms, step in shapes(tier):
        n = parts * rels
        for k, v in enumerate(itertools.product(range(2 ** rooms), repeat=n)):
            if k % step == 0:
                for names in range(3):
                    if names and k % 4:
                        continue
                    yield [parts, rels, rooms, list(v), names]


def large():
    """patterns of vessels with 4 and 5 rooms (and two without a unique renaming), and what may go wrong with them"""
    I, O, N = REL
    D = lambda *l: dict(('p%d' % i, {I: set(x[0]), O: set(x[1]), N: set(x[2])}) for i, x in enumerate(l))
    row = lambda n: D(*([((k,), (), ()) for k in range(n)] + [((), (), (k, k + 1)) for k in range(n - 1)] + [((0,), (), ())]))
    yield row(3)
    yield row(4)
    yield row(5)
    yield D(((0,), (), ()), ((0,), (1,), ()), ((1,), (2,), ()), ((2,), (3,), ()), ((3,), (), (0, 1)))
    yield D(((0, 1), (2, 3), ()), ((0,), (3,), (4,)), ((1,), (), (2, 4)))
    yield D(((0, 1, 2), (), ()), ((3, 4), (0, 1, 2), ()))                                   # several renamings
    yield D(((0, 1, 2, 3), (), ()), ((0,), (), ()), ((0, 1), (), ()), ((0, 1, 2), (), ()))
    yield D(((0,), (), ()), ((0, 1), (), ()), ((2, 3), (), ()), ((2,), (3,), (4,)))
    yield D(((), (), ()), ((), (), ()))                                                     # no rooms at all
    yield D(((0, 1), (), ()), ((), (0, 1), ()))


def variants(base):
    """the base itself and everything that is one step away from it"""
    rooms = sorted(set(r for v in base.values() for s in v.values() for r in s))
    yield base
    for p in base:
        for r in base[p]:
            for x in rooms + [9]:
                d = copy.deepcopy(base)
                d[p][r] ^= {x}
                yield d
            d = copy.deepcopy(base)
            d[p][r] = set()
            yield d
            for q in base:
                if q > p:
                    for t in base[q]:
                        d = copy.deepcopy(base)
                        d[p][r], d[q][t] = d[q][t], d[p][r]
                        yield d
        d = copy.deepcopy(base)
        d['other'] = d.pop(p)
        yield d
        d = copy.deepcopy(base)
        d['other'] = d[p]
        yield d
        if len(base) > 1:
            d = copy.deepcopy(base)
            del d[p]
            yield d
    for a, b in itertools.combinations(rooms, 2):
        m = dict((r, r) for r in rooms)
        m[a] = b
        yield dict((p, dict((r, set(m[x] for x in s)) for r, s in v.items())) for p, v in base.items())


def run_large(c, ctx):
    _, k, names = c
    base = list(large())[k]
    rn = [lambda r: 'R%d' % r, lambda r: 'R%d' % (r + 1), lambda r: 'abcdefghijkl'[(r * 7 + 3) % 10]][names]
    ren = lambda d, f: dict((p, dict((r, set(f(x) for x in s)) for r, s in v.items())) for p, v in d.items())
    rb = sorted(set(r for v in base.values() for s in v.values() for r in s))
    for d in variants(base):
        ra = sorted(set(r for v in d.values() for s in v.values() for r in s))
        want = 0
        if len(ra) == len(rb):
            for perm in itertools.permutations(rb):
                m = dict(zip(ra, perm))
                want += ren(d, m.get) == base
        for x, y, who in ((d, base, 'the pattern'), (base, d, 'the dict')):
            a, b = ren(x, rn), ren(y, lambda r: 'R%d' % r)
            a0, b0 = copy.deepcopy(a), copy.deepcopy(b)
            try:
                got = H.raum_dict_checker(dict_to_comapare=a, basedict=b)
            except Exception as e:
                got = False
            ctx.step()
            ctx.equal(got is True, want == 1, 'accepted %r against the pattern %r (%d renamings)' % (a0, b0, want))
            ctx.equal((a, b), (a0, b0), 'the dicts afterwards')
            ctx.state((c, repr(a0), repr(b0)))
            ctx.outcome(('large', min(want, 2), who))


def dct(parts, rels, v, names):
    it = iter(v)
    d = {}
    for p in range(parts):
        d['part%d' % p] = {}
        for r in range(rels):
            bits = next(it)
            d['part%d' % p][REL[r]] = set(names[i] for i in range(len(names)) if bits >> i & 1)
    return d


def used(v):
    a = 0
    for x in v:
        a |= x
    return [i for i in range(8) if a >> i & 1]


def model(a, b):
    """number of renamings (bijections between the rooms that occur) that turn a into b"""
    ra, rb = used(a), used(b)
    if len(ra) != len(rb):
        return 0
    n = 0
    for perm in itertools.permutations(rb):
        m = dict(zip(ra, perm))
        n += all(sum(1 << m[i] for i in ra if x >> i & 1) == y for x, y in zip(a, b))
    return n


def run(c, ctx):
    if c[0] == 'large':
        keep = time.sleep
        time.sleep = lambda s: None
        try:
            return run_large(c, ctx)
        finally:
            time.sleep = keep
    parts, rels, rooms, base, names = c
    nb = ['R0', 'R1', 'R2'][:rooms]
    nc = (['R0', 'R1', 'R2'], ['R1', 'R2', 'R3'], ['x', 'y', 'z'])[names][:rooms]
    keep = time.sleep
    time.sleep = lambda s: None
    try:
        for v in itertools.product(range(2 ** rooms), repeat=parts * rels):
            ctx.state((c, v))
            want = model(v, base)
            a, b = dct(parts, rels, v, nc), dct(parts, rels, base, nb)
            a0, b0 = copy.deepcopy(a), copy.deepcopy(b)
            try:
                got = H.raum_dict_checker(dict_to_comapare=a, basedict=b)
            except Exception as e:
                got = False
            ctx.step()
            ctx.equal(got is True, want == 1, 'accepted %r against the pattern %r (%d renamings)' % (a0, b0, want))
            ctx.equal((a, b), (a0, b0), 'the dicts afterwards')
            ctx.outcome((want, parts, rels))
    finally:
        time.sleep = keep


def post(tier, outcomes, counters, states):
    if len(outcomes) < 8:
        return 'only %r' % outcomes
