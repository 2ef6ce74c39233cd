# -*- coding: utf-8 -*-
"""Parts from dictionaries."""
from mc.lib import *
from mc import rnd
from SR_Vessel import SR_hauptteile as H
import copy
import itertools

PID = 'V07'
RULE = 'a case is a kind of part, a set of keys (every subset of the required keys, with or without a key that is none) and values; the dictionary must be ' \
       'accepted exactly when the keys are the required ones and then give the same part as the constructor, every value in its place, and the dictionary is unchanged'
BOUNDS = {'quick': '7 kinds, every subset of keys x 3 extra keys, every assignment of 3 values per key (complete dictionaries; 2 values for cone knuckles)',
          'thorough': 'as quick with 4 values per key'}
CHUNK = 2
ASSUMPTIONS = ['Rohrboden is unfinished in the library (intex_points raises NotImplementedError) and not covered']
KEYS = {'Mantel': ('name', 'pos_v', 'pos_h', 'd', 'h'), 'StandZarge': ('name', 'pos_v', 'pos_h', 'd', 'h'),
        'Klopperboden': ('name', 'pos_v', 'pos_h', 'd', 'h1', 'orient'), 'Korbbogenboden': ('name', 'pos_v', 'pos_h', 'd', 'h1', 'orient'),
        'Flachboden': ('name', 'pos_v', 'pos_h', 'd'), 'RaumEnde': ('name', 'pos_v', 'pos_h', 'd'),
        'KegelKrempe': ('name', 'h_oben', 'h_unten', 'r', 'hts', 'kegel')}
VAL = {'name': ['a', 'x1', '', 'R1'], 'pos_v': [0, 1.5, -3, 100], 'pos_h': [0, -2.5, 7, 33.], 'd': [4, 2.5, 1, 1000], 'h': [1, 2.5, .3, 44],
       'h1': [.1, .3, .05, .2], 'orient': [1, -1], 'h_oben': [.4, .5, .3, .6], 'h_unten': [.3, .4, .25, .35], 'r': [.4, .3, .35, .25], 'hts': [0, 1], 'kegel': [0, 1]}
VALM = {'d': [(4, 4), (2, 5), (3., 1.), (4, 4.5)]}
EXTRA = ('foo', 'durchmesser', 'Name')


def cases(tier):
    n = 3 if tier == 'quick' else 4
    for k in sorted(KEYS):
        keys = KEYS[k]
        for m in range(2 ** len(keys)):
            for e in (None,) + EXTRA:
                if m != 2 ** len(keys) - 1 or e:
                    yield [k, [i for i in range(len(keys)) if m >> i & 1], e, [0] * len(keys)]
        lens = [min(2 if k == 'KegelKrempe' and tier == 'quick' else n, len(VALM.get(x, VAL[x])) if k in ('Mantel', 'StandZarge') else len(VAL[x])) for x in keys]
        for v in itertools.product(*map(range, lens)):
            yield [k, list(range(len(keys))), None, list(v)]


def value(k, key, i, world):
    if key == 'hts':
        return (world[0],) if i else (world[0], world[1])
    if key == 'kegel':
        return world[2] if i == 0 else world[3]
    if k in ('Mantel', 'StandZarge') and key in VALM:
        return VALM[key][i]
    return VAL[key][i]


def world():
    return (H.Mantel(name='ma', pos_h=0, pos_v=2, d=(4, 4), h=1.5), H.Mantel(name='mau', pos_h=0, pos_v=0, d=(4, 4), h=2),
            H.Mantel(name='kegel', pos_h=0, pos_v=1, d=(2, 4), h=1), H.Mantel(name='kegel', pos_h=0, pos_v=.5, d=(1.5, 4), h=1.5))


def look(p):
    return ([(s.__class__.__name__, xy(s.i), xy(s.j)) for s in p.segments], dir_edges(p.graph), p.typ, p.name, p.pos_v, p.pos_h,
            sorted(xy(q) for q in p.graph.internal), sorted(xy(q) for q in p.graph.external), sorted(xy(q) for q in p.graph.indifferent))


def run(c, ctx):
    k, have, extra, vals = c
    cls = getattr(H, k)
    keys = KEYS[k]
    w = world() if k == 'KegelKrempe' else None
    d = dict((keys[i], value(k, keys[i], vals[i], w)) for i in have)
    if extra:
        d[extra] = 1
    before = dict(d)
    ctx.state(c)
    ctx.step()
    err = None
    try:
        p = cls.from_dict(d)
    except AssertionError as e:
        err = 'rejected'
    except Exception as e:
        err = 'missing' if 'issing' in str(e) else repr(e)
    ctx.check(set(d) == set(before) and all(d[x] is before[x] for x in d), 'the dictionary was changed: %r', d)
    ok = len(have) == len(keys) and not extra
    if not ok:
        ctx.check(err is not None, 'the keys %r were accepted by %s.from_dict', sorted(d), k)
        if len(have) < len(keys):
            ctx.equal(err, 'missing', 'error for the keys %r' % sorted(d))
        ctx.outcome((k, 'refused', err))
        return
    w2 = world() if k == 'KegelKrempe' else None
    rnd.reset()
    args = dict((x, value(k, x, vals[i], w2)) for i, x in enumerate(keys))
    if k == 'KegelKrempe':
        args['h_non_kegelside'], args['h_kegelside'] = args.pop('h_oben'), args.pop('h_unten')
    try:
        q = cls(**args)
    except Exception as e:
        ctx.check(err is not None, 'the dictionary %r was accepted, the constructor raised %r', d, e)
        ctx.outcome((k, 'invalid'))
        return
    ctx.check(err is None, 'the dictionary %r was refused: %s', d, err)
    ctx.equal(type(p), type(q), 'class')
    ctx.equal(look(p), look(q), 'part from %r' % (d,))
    if k == 'KegelKrempe':
        ctx.equal([look(x) for x in w], [look(x) for x in w2], 'parts joined by the cone knuckle')
    for x in keys:
        if x not in ('hts',):
            ctx.equal(getattr(p, x), before[x], 'attribute %s' % x)
    ctx.outcome((k, 'accepted'))


def post(tier, outcomes, counters, states):
    if len(outcomes) < 14:
        return 'only %r' % outcomes
