# -*- coding: utf-8 -*-
"""Vessel descriptors: built with the real classes, and (independently) the rooms and relations they must produce.

A vessel is a list of *stacks*.  A stack is a row of chambers on a common axis, bottom to top:

    {'x': axis, 'y': height of the lowest interface, 'd': diameter at every interface (list of n+1), 'h': [n heights],
     'courses': [number of shell courses of each chamber],
     'iface': string of n+1 letters
         f flat bottom   u / U head bulging upwards (Klopper / Korbbogen)   d / D head bulging downwards
         r room end      z (first only) the lowest course is a StandZarge, which has its own bottom wall
         p (first or last) the cone beside it runs to a tip: no part
        o (first or last) nothing: the chamber beside it is open and no room
     A chamber of height 0 without courses lies between two ends with a common rim.
     'in': None, or [index of the enclosing stack, chamber index] for a vessel that floats in another one}

The reference model knows nothing about graphs, cycles or triangulation: chamber k of a stack lies between interface k
and k+1; a head has its inside where its bulge is hollow.
"""
from __future__ import print_function
import itertools


def stack(iface, d=4., h=None, x=0., y=0., courses=None, inside=None):
    n = len(iface) - 1
    return {'x': x, 'y': y, 'd': list(d) if isinstance(d, (list, tuple)) else [d] * (n + 1),
            'h': list(h) if h else [1.] * n, 'courses': list(courses) if courses else [1] * n, 'iface': iface,
            'in': inside}


def scaled(st, s, dx, dy):
    return {'x': st['x'] * s + dx, 'y': st['y'] * s + dy, 'd': [a * s for a in st['d']], 'h': [a * s for a in st['h']],
            'courses': st['courses'], 'iface': st['iface'], 'in': st['in']}


def build(stacks):
    """list of (name, real part) bottom to top, stack by stack"""
    from SR_Vessel.SR_hauptteile import Mantel, Klopperboden, Korbbogenboden, Flachboden, RaumEnde, StandZarge
    parts = []
    for si, st in enumerate(stacks):
        y = st['y']
        x = st['x']
        for k, c in enumerate(st['iface']):
            d = st['d'][k]
            name = 's%di%d%s' % (si, k, c)
            if c == 'f':
                parts.append((name, Flachboden(name=name, pos_v=y, pos_h=x, d=d)))
            elif c == 'r':
                parts.append((name, RaumEnde(name=name, pos_v=y, pos_h=x, d=d)))
            elif c in 'uUdD':
                cls = Klopperboden if c in 'ud' else Korbbogenboden
                parts.append((name, cls(name=name, pos_v=y, pos_h=x, d=d, h1=0.025 * d, orient=1 if c in 'uU' else -1)))
            if k < len(st['h']):
                nc = st['courses'][k]
                hh = st['h'][k]
                d1 = st['d'][k + 1]
                for j in range(nc):
                    da = d + (d1 - d) * j / float(nc)
                    db = d + (d1 - d) * (j + 1) / float(nc)
                    name = 's%dm%d_%d' % (si, k, j)
                    cls = StandZarge if (k == 0 and j == 0 and c == 'z') else Mantel
                    parts.append((name, cls(name=name, pos_v=y + hh * j / float(nc), pos_h=x, d=(da, db), h=hh / float(nc))))
                y += hh
    return parts


def expected(stacks):
    """rooms: {(stack, chamber): set of names of the parts that bound it}, intex: {name: (inside, outside, indifferent)}"""
    rooms = {}
    rel = {}

    def add(name, where, room):
        rel.setdefault(name, (set(), set(), set()))
        if room is not None:
            rooms.setdefault(room, set()).add(name)
            if where is not None:
                rel[name][where].add(room)

    for si, st in enumerate(stacks):
        n = len(st['h'])
        env = tuple(st['in']) if st['in'] else None
        isopen = lambda k: (k == 0 and st['iface'][0] == 'o') or (k == n - 1 and st['iface'][n] == 'o')
        for k, c in enumerate(st['iface']):
            below = (si, k - 1) if k > 0 and not isopen(k - 1) else env
            above = (si, k) if k < n and not isopen(k) else env
            name = 's%di%d%s' % (si, k, c)
            if c not in 'opz' and (k == 0 or isopen(k - 1)) and (k == n or isopen(k)):
                rel[name] = (set(), set(), set())       # bounds no closed chamber
            elif c == 'f':
                add(name, 2, below)
                add(name, 2, above)
            elif c in 'uU':
                add(name, 0, below)
                add(name, 1, above)
            elif c in 'dD':
                add(name, 0, above)
                add(name, 1, below)
            elif c == 'r':
                add(name, None, below)
                add(name, None, above)
            if k < n:
                for j in range(st['courses'][k]):
                    name = 's%dm%d_%d' % (si, k, j)
                    if isopen(k):
                        rel[name] = (set(), set(), set())
                    else:
                        add(name, 0, (si, k))
                        add(name, 1, env)
    return rooms, rel


def outlines(stacks):
    """room -> area of its idealised section (heads are tents of height max(0.1, d/1000)), nested vessels subtracted"""
    def tent(c, d):
        return {'f': 0, 'r': 0, 'z': 0, 'p': 0, 'o': 0, 'u': 1, 'U': 1, 'd': -1, 'D': -1}[c] * d * max(0.1, d / 1000.) / 2
    ret = {}
    for si, st in enumerate(stacks):
        for k in range(len(st['h'])):
            if 'o' in (st['iface'][k], st['iface'][k + 1]):
                continue
            ret[(si, k)] = (st['d'][k] + st['d'][k + 1]) / 2. * st['h'][k] + tent(st['iface'][k + 1], st['d'][k + 1]) - tent(st['iface'][k], st['d'][k])
    return ret


def bijection(got, want):
    """got, want: dict room -> frozenset of names.  All bijections between rooms with the same wall sets; [] if none"""
    if len(got) != len(want):
        return []
    byset = {}
    for r, s in got.items():
        byset.setdefault(frozenset(s), []).append(r)
    bw = {}
    for r, s in want.items():
        bw.setdefault(frozenset(s), []).append(r)
    if set(byset) != set(bw) or any(len(byset[s]) != len(bw[s]) for s in bw):
        return []
    res = [{}]
    for s in bw:
        new = []
        for m in res:
            for p in itertools.permutations(byset[s]):
                mm = dict(m)
                mm.update(zip(p, bw[s]))
                new.append(mm)
        res = new
    return res


def walls(stacks):
    """room -> (set of parts of its own outline, set of parts of vessels that float in it)"""
    rooms, _ = expected(stacks)
    own = {}
    for r, names in rooms.items():
        o = set(n for n in names if n.startswith('s%d' % r[0]))
        own[r] = (o, set(names) - o)
    return own


# --- jacketed vessel ---------------------------------------------------------------------------------------------------

def jacket(ib='d', ob='d', cap='u', courses=(1.,), rz=.5, d=4., gap=.2, drop=.6, x=0., y=0., s=1., bottom_of_chambers=None):
    """an inner vessel (axis x, bottom at y, course boundaries `courses` above it), with a jacket around its lower part:
    outer shell from y-drop to y+rz, outer bottom, room end at y+rz that cuts the inner shell"""
    return {'jacket': 1, 'ib': ib, 'ob': ob, 'cap': cap, 'courses': list(courses), 'rz': rz, 'd': d, 'gap': gap,
            'drop': drop, 'x': x, 'y': y, 's': s}


def build_jacket(j):
    from SR_Vessel.SR_hauptteile import Mantel, Klopperboden, Korbbogenboden, Flachboden, RaumEnde
    x, y, s = j['x'], j['y'], j['s']
    d, do = j['d'] * s, (j['d'] + 2 * j['gap']) * s

    def end(c, n, yy, dd):
        if c == 'f':
            return (n, Flachboden(name=n, pos_v=yy, pos_h=x, d=dd))
        if c == 'r':
            return (n, RaumEnde(name=n, pos_v=yy, pos_h=x, d=dd))
        return (n, (Klopperboden if c in 'ud' else Korbbogenboden)(name=n, pos_v=yy, pos_h=x, d=dd, h1=0.025 * dd,
                                                                  orient=1 if c in 'uU' else -1))
    parts = [end(j['ib'], 'ib', y, d)]
    lo = 0.
    for k, t in enumerate(j['courses']):
        parts.append(('m%d' % k, Mantel(name='m%d' % k, pos_v=y + lo * s, pos_h=x, d=(d, d), h=(t - lo) * s)))
        lo = t
    parts.append(end(j['cap'], 'cap', y + lo * s, d))
    parts.append(('oj', Mantel(name='oj', pos_v=y - j['drop'] * s, pos_h=x, d=(do, do), h=(j['rz'] + j['drop']) * s)))
    parts.append(end(j['ob'], 'ob', y - j['drop'] * s, do))
    parts.append(('re', RaumEnde(name='re', pos_v=y + j['rz'] * s, pos_h=x, d=do)))
    return parts


def expected_jacket(j):
    I, J = 'I', 'J'
    wet = []
    lo = 0.
    for k, t in enumerate(j['courses']):
        if lo < j['rz'] - 1e-9:
            wet.append('m%d' % k)
        lo = t
    courses = ['m%d' % k for k in range(len(j['courses']))]
    own = {I: (set(['ib', 'cap'] + courses), set()), J: (set(['ib', 'ob', 'oj', 're'] + wet), set())}

    def ends(c, above, below):
        a, b = set(above), set(below)
        return {'f': (set(), set(), a | b), 'r': (set(), set(), set()), 'u': (b, a, set()), 'U': (b, a, set()),
                'd': (a, b, set()), 'D': (a, b, set())}[c]
    rel = {'ib': ends(j['ib'], [I], [J]), 'ob': ends(j['ob'], [J], []), 'cap': ends(j['cap'], [], [I]),
           'oj': ({J}, set(), set()), 're': (set(), set(), set())}
    for m in courses:
        rel[m] = ({I}, {J} if m in wet else set(), set())
    return own, rel


def areas_jacket(j):
    s = j['s']
    d, do = j['d'] * s, (j['d'] + 2 * j['gap']) * s

    def tent(c, dd):
        return {'f': 0, 'r': 0, 'u': 1, 'U': 1, 'd': -1, 'D': -1}[c] * dd * max(0.1, dd / 1000.) / 2
    inner = d * j['courses'][-1] * s + tent(j['cap'], d) - tent(j['ib'], d)
    lower = d * j['rz'] * s - tent(j['ib'], d)          # part of the inner vessel below the room end
    outer = do * (j['rz'] + j['drop']) * s - tent(j['ob'], do)
    return {'I': inner, 'J': outer - lower}


# --- one interface for both ----------------------------------------------------------------------------------------------

class Vessel(object):
    def __init__(self, desc):
        """desc: {'stacks': [...]} or {'jacket': ...}; optional 'order': permutation of the parts, 'place': [s, dx, dy]"""
        self.desc = desc
        pl = desc.get('place') or [1, 0, 0]
        if 'stacks' in desc:
            st = [scaled(x, *pl) for x in desc['stacks']]
            self.own = walls(st)
            self.rel = expected(st)[1]
            self.areas = outlines(st)
            self._build = lambda: build(st)
        else:
            j = dict(desc['jacket'])
            j['x'], j['y'], j['s'] = j['x'] * pl[0] + pl[1], j['y'] * pl[0] + pl[2], j['s'] * pl[0]
            self.own, self.rel = expected_jacket(j)
            self.areas = areas_jacket(j)
            self._build = lambda: build_jacket(j)

    def parts(self):
        p = self._build()
        o = self.desc.get('order')
        return [p[i] for i in o] if o else p

    def names(self):
        return list(self.rel)


def observe_rooms(b):
    """room name -> (outer wall names, inner wall names) as sets, from the real vessel"""
    return {r.name: (frozenset(p.name for p in r.aussere_wandung), frozenset(p.name for p in r.innere_wandung)) for r in b.raume}


def matchings(got, want):
    """bijections between two dicts of rooms with equal wall pairs"""
    return bijection({k: [('o', n) for n in v[0]] + [('i', n) for n in v[1]] for k, v in got.items()},
                     {k: [('o', n) for n in v[0]] + [('i', n) for n in v[1]] for k, v in want.items()})


THIRDS = [[1 / 3., 1 / 7., -2 / 9.], [1000 / 3., 1234.5 / 7, -50 / 3.]]     # no exact decimals


def scenarios(tier):
    """the vessels of the bound, some of them also at placements without exact decimals, all of them also with their parts
    in another order (from top to bottom, or every second part first; thorough: both)"""
    n = {}
    k = 0
    for s in scenarios0(tier):
        l = [s]
        if s.get('tag') in ('cones', 'courses', 'tip', 'double', 'cone', 'zarge', 'nestz', 'nest12') and not s.get('place'):
            m = n[s['tag']] = n.get(s['tag'], 0) + 1
            if m % (2 if tier == 'thorough' else 7) == 0:
                l.append(dict(s, place=THIRDS[m // 7 % 2]))
        for d in l:
            yield d
            if not d.get('order'):
                size = len(Vessel(d).names())
                os = [list(range(size - 1, -1, -1)), list(range(0, size, 2)) + list(range(1, size, 2))]
                for o in os if tier == 'thorough' else [os[k % 3 != 0]] if k % 3 < 2 else []:
                    yield dict(d, order=o)
                k += 1


def scenarios0(tier):
    """the vessels of the bound (descriptors)"""
    T = tier == 'thorough'
    P = itertools.product
    for n in (1, 2, 3) + ((4,) if T else ()):
        for f in P('fud', repeat=n + 1):
            hs = [[1.] * n, [2.] + [1.] * (n - 1), [1.] * (n - 1) + [2.]]
            if n == 1 or n == 4:
                hs = hs[:1]
            elif n == 3 and not T:
                hs = [hs[(sum(map(ord, f)) % 2) + 1]]
            for h in hs:
                yield {'stacks': [stack(''.join(f), h=h)], 'tag': 'row%d' % n}
    for n in (1, 2) + ((3,) if T else ()):                  # all kinds of ends, Korbbogen too, room ends
        for f in P('fudUDr', repeat=n + 1):
            if all(c in 'fud' for c in f):
                continue
            if n == 2 and not T and sum(map(ord, f)) % 2:
                continue
            yield {'stacks': [stack(''.join(f), h=[1.5, 1., 1.][:n])], 'tag': 'ends'}
    for f in P('fud', repeat=2):                            # cones, several courses, StandZarge
        for d in P((2., 4., 3.), repeat=2):
            yield {'stacks': [stack(''.join(f), d=d)], 'tag': 'cone'}
        for co in (2, 3, 5):
            yield {'stacks': [stack(''.join(f), courses=[co], h=[1.7])], 'tag': 'courses'}
        yield {'stacks': [stack('z' + ''.join(f), h=[2., 1.])], 'tag': 'zarge'}
    for c in 'fudUDr':                                      # tips
        for y in (1., 3.) + ((.2, 12.) if T else ()):
            yield {'stacks': [stack(c + 'p', d=[4., 0.], h=[y])], 'tag': 'tip'}
            yield {'stacks': [stack('p' + c, d=[0., 4.], h=[y])], 'tag': 'tip'}
            yield {'stacks': [stack('p' + c + 'f', d=[0., 4., 4.], h=[y, 1.], courses=[2, 1])], 'tag': 'tip'}
            yield {'stacks': [stack('d' + c + 'p', d=[4., 4., 0.], h=[1., y], courses=[1, 3])], 'tag': 'tip'}
    yield {'stacks': [stack('pfp', d=[0., 4., 0.], h=[2., 1.])], 'tag': 'tip'}
    for k, (e, f) in enumerate(P(('fu', 'df', 'du', 'fU', 'Df', 'dU'), 'fud')):     # two ends with a common rim
        yield {'stacks': [stack(e + f, h=[0., 1.], courses=[0, 1])], 'tag': 'double'}
        yield {'stacks': [stack(f + e, h=[1., 0.], courses=[2, 0])], 'tag': 'double'}
        if T or k % 3 == 0:
            yield {'stacks': [stack(f + e + 'u', h=[1., 0., 1.], courses=[1, 0, 1])], 'tag': 'double'}
            yield {'stacks': [stack('df', h=[5.]), stack(f + e, h=[1., 0.], d=3., y=1., courses=[1, 0], inside=[0, 0])], 'tag': 'double'}
            yield {'stacks': [stack(e + f + 'u', h=[0., 1., 2.], courses=[0, 1, 1])], 'tag': 'double'}
    for k, f in enumerate(P('fud', repeat=2)):              # open chambers at one or both ends, free shells
        f = ''.join(f)
        yield {'stacks': [stack(f + 'o', courses=[1, 1 + k % 3])], 'tag': 'open'}
        yield {'stacks': [stack('o' + f, h=[1.7, 1.], courses=[1 + k % 2, 1])], 'tag': 'open'}
        yield {'stacks': [stack('o' + f + 'o', d=(4., [4., 3., 3., 5.])[k % 2], h=[.5, 1., 2.])], 'tag': 'open', 'place': THIRDS[k % 2] if k % 3 == 0 else None}
        if T or k % 2 == 0:
            yield {'stacks': [stack(f, h=[4.]), stack('ofo'[k % 3 % 2:] if k % 4 else 'fo', d=3., y=1., inside=[0, 0])], 'tag': 'open'}
            yield {'stacks': [stack(f, h=[5.]), stack(f + 'o', d=3., y=1., inside=[0, 0])], 'tag': 'open'}
            yield {'stacks': [stack(f), stack('o' + f, d=3., x=10., y=.3)], 'tag': 'open'}
    for f in P('fud', repeat=3):
        for k, (d, co) in enumerate(P(((2., 4., 2.), (4., 2., 4.), (4., 3., 3.), (2., 4., 5.)), ((1, 1), (2, 1), (1, 3)))):
            if T or (k + sum(map(ord, f))) % 12 < 2:
                yield {'stacks': [stack(''.join(f), d=d, courses=co)], 'tag': 'cones'}
    PLACES = [[1, 10, -20], [1, -10, -20], [1, -100.7, 30.3], [1000, 0, 0], [1000, -5000, -777], [.5, 0, 0], [.25, 3, 3]] + THIRDS
    for f in ('ff', 'du', 'dfu', 'fff', 'dud', 'dufu', 'zdu') + (('ud', 'uf', 'ddd', 'udu', 'zfu') if T else ()):
        for p in PLACES:
            yield {'stacks': [stack(f)], 'place': p, 'tag': 'place'}
    # vessels in vessels
    for k, (f, g) in enumerate(P(P('fud', repeat=2), repeat=2)):
        yield {'stacks': [stack(''.join(f), h=[3.]), stack(''.join(g), d=3., y=1., inside=[0, 0])], 'tag': 'nest11',
               'order': [5, 4, 3, 2, 1, 0] if k % 2 else None, 'place': PLACES[k % 5] if k % 3 == 0 else None}
    for k, (f, g) in enumerate(P(('ff', 'du', 'ud'), ('zf', 'zu', 'zd', 'zfu', 'zdu', 'zff'))):     # skirts in vessels
        yield {'stacks': [stack(f, h=[6.]), stack(g, d=3., y=1., h=[2., 1.][:len(g) - 1], inside=[0, 0])], 'tag': 'nestz'}
    for k, (f, g) in enumerate(P(P('fud', repeat=2), P('fud', repeat=3))):
        if T or k % 9 == 0:
            yield {'stacks': [stack(''.join(f), h=[4.]), stack(''.join(g), d=3., y=1., inside=[0, 0])], 'tag': 'nest12'}
    for k, (g, g2, f) in enumerate(P(('ff', 'du', 'fu'), ('ff', 'du', 'uf'), ('ff', 'du', 'df'))):
        if T or k % 3 == 0:
            yield {'stacks': [stack(f, h=[5.]), stack(g, d=3., y=1., inside=[0, 0]), stack(g2, d=3., y=3., inside=[0, 0])], 'tag': 'nest111'}
            yield {'stacks': [stack(f, h=[5.]), stack(g, d=3., y=1., h=[3.], inside=[0, 0]), stack(g2, d=2., y=2., inside=[1, 0])], 'tag': 'nested'}
    for k, (g, g2, f) in enumerate(P(('ff', 'du', 'fu'), ('ff', 'du', 'uf'), ('fff', 'duu', 'dfu', 'dud', 'ufu'))):
        if T or k % 9 == 0:
            yield {'stacks': [stack(f, h=[3., 3.]), stack(g, d=3., y=1., inside=[0, 0]), stack(g2, d=3., y=4., inside=[0, 1])], 'tag': 'nest211'}
    for k, (g, f) in enumerate(P(('fff', 'fuf', 'dfu', 'fdd', 'dud'), ('fff', 'duu', 'dfu', 'dud', 'ufu'))):
        if T or k in (0, 7):
            yield {'stacks': [stack(f, h=[4., 1.]), stack(g, d=3., y=1., inside=[0, 0])], 'tag': 'nest22'}
    for k, (f, g) in enumerate(P(('ff', 'du'), ('ffff', 'dfuu', 'dddd', 'uuuu'))):
        if T or k % 3 == 0:
            yield {'stacks': [stack(f, h=[5.]), stack(g, d=3., y=1., inside=[0, 0])], 'tag': 'nest13'}
    # several vessels with several rooms each in one room
    for k, (g, g2) in enumerate((('fff', 'fff'), ('fuf', 'fff'), ('ffff', 'fff'), ('fff', 'dfu'), ('ffff', 'fdff'))):
        if T or k < 3:
            yield {'stacks': [stack('df', h=[9.], d=6.), stack(g, d=3., y=1., inside=[0, 0]), stack(g2, d=2., y=5., inside=[0, 0])], 'tag': 'nest1nn'}
            yield {'stacks': [stack('ff', h=[5.], d=9.), stack(g, d=2., x=-2., y=1., inside=[0, 0]), stack(g2, d=2., x=2., y=.7, inside=[0, 0])], 'tag': 'nest1nn'}
    # vessels off the axis of the one they float in, alone, side by side, at different heights
    for k, (f, g, e) in enumerate(P(('ff', 'du', 'ud'), ('ff', 'du', 'fu'), ('ff', 'dd', 'uf'))):
        yield {'stacks': [stack(f, h=[3.]), stack(g, d=1., x=(-1.3, 1.1)[k % 2], y=1. + .3 * (k % 3), inside=[0, 0])], 'tag': 'nestx'}
        yield {'stacks': [stack(f, h=[3.]), stack(g, d=1., x=-1., y=1., inside=[0, 0]), stack(e, d=1.4, x=.9, y=(1., .7, 1.25)[k % 3], inside=[0, 0])],
               'place': PLACES[k % 8] if k % 4 == 1 else None, 'tag': 'nestx'}
        if T or k % 5 == 0:
            yield {'stacks': [stack(f[0] + 'f' + f[1], h=[3., 3.]), stack(g, d=1., x=-1., y=1., inside=[0, 0]),
                              stack(e, d=1.4, x=.9, y=4.1, inside=[0, 1])], 'tag': 'nestx'}
            yield {'stacks': [stack(f, h=[3.], d=6.), stack(g, d=1., x=-2., y=1., inside=[0, 0]), stack(e, d=1., x=0., y=1.2, inside=[0, 0]),
                              stack(g, d=1., x=2., y=.9, courses=[2], inside=[0, 0])], 'tag': 'nestx'}
    # vessels beside each other, also beside a waist
    for k, (f, g) in enumerate(P(('ff', 'du', 'fd'), ('ff', 'du', 'uf'))):
        yield {'stacks': [stack(f), stack(g, d=3., x=10., y=.3)], 'tag': 'beside'}
        yield {'stacks': [stack(f), stack(g, d=3., x=-7.3, y=-8.)], 'tag': 'beside'}
        yield {'stacks': [stack(f[0] + 'f' + f[1], d=[6., 2., 6.], h=[4., 4.]), stack(g, d=1., x=2.4, y=3.5, h=[.5])], 'tag': 'waist'}
    # jackets
    k = 0
    for ib in 'dDfu':
        for ob in 'dfrD':
            for cap in 'fudr':
                for co in ([2.], [1., 2.], [.5, 1., 2.]):
                    for rz in (.3, .75, 1.5):
                        if T or k % 13 == 0:
                            yield {'jacket': jacket(ib, ob, cap, co, rz), 'place': ([None, [1, 0, 1], [1000, -3000, 500], [1, -7.5, -9.25]] + THIRDS)[k % 6],
                                   'order': None if k % 2 else list(range(len(co) + 4, -1, -1)), 'tag': 'jacket'}
                        k += 1
    for d in large(T):
        yield dict(d, tag='large')


def large(T):
    """vessels of many parts: many courses, many chambers, many vessels inside of or beside each other"""
    S = stack
    rev = lambda n: list(range(n - 1, -1, -1))
    yield {'stacks': [S('du', courses=[8], h=[8.])], 'order': rev(10)}
    yield {'stacks': [S('fu', courses=[12], h=[8.])], 'place': [1000, 0, 0]}
    yield {'stacks': [S('zf', h=[12.], courses=[11])]}
    yield {'stacks': [S('df', d=[4., 5.], courses=[20], h=[20.])], 'order': rev(22), 'place': THIRDS[0]}
    yield {'stacks': [S('dufdu')], 'order': rev(9)}
    yield {'stacks': [S('fffff', h=[1., 2., 3., 4.], d=[4., 4., 3., 3., 5.])]}
    yield {'stacks': [S('uddfu', h=[2., 1., 1.5, 1.])], 'place': THIRDS[1]}
    tower = [S('du', h=[11.], courses=[3])] + [S(f, d=3., y=1. + 2 * k, inside=[0, 0]) for k, f in enumerate(('ff', 'du', 'fd', 'uf', 'dd'))]
    for n in (4, 5, 6):
        yield {'stacks': tower[:n]}
    yield {'stacks': tower[:5], 'place': [1000, -500, 77], 'order': rev(17)}
    yield {'stacks': [S('ff', h=[9.], d=8.), S('fu', h=[7.], d=6., y=1., inside=[0, 0]), S('df', h=[5.], d=4., y=2., inside=[1, 0]),
                      S('ff', h=[3.], d=2., y=3., inside=[2, 0])]}
    yield {'stacks': [S('ff', h=[11.], d=10.), S('fu', h=[9.], d=8., y=1., inside=[0, 0]), S('ff', h=[7.], d=6., y=2., inside=[1, 0]),
                      S('df', h=[5.], d=4., y=3., inside=[2, 0]), S('ff', h=[3.], d=2., y=4., inside=[3, 0])], 'order': rev(15)}
    yield {'stacks': [S('dfu', h=[4., 4.]), S('ff', d=3., y=1., inside=[0, 0]), S('fd', d=3., y=5., inside=[0, 1])]}
    row = [S('du'), S('ff', x=10., courses=[4], h=[3.]), S('dfu', x=20.), S('zf', x=30., h=[2.]), S('fp', x=-10., d=[4., 0.])]
    for n in (3, 5):
        yield {'stacks': row[:n]}
        yield {'stacks': row[:n], 'place': THIRDS[n // 4], 'order': rev(sum(len(s['iface'].replace('z', '').replace('p', '')) + sum(s['courses']) for s in row[:n]))}
    if T:
        for f in ('dufduf', 'ffffff', 'fffffff', 'dfudfu'):
            yield {'stacks': [S(f)]}
        yield {'stacks': [S('dufdu', courses=[2, 1, 1, 2])]}
        yield {'stacks': [S('dufd', courses=[2, 3, 2])]}
        yield {'stacks': [S('dufd'), S('ffu', x=10.)]}
        yield {'stacks': [S('dfu', h=[4., 4.]), S('ff', d=3., y=1., inside=[0, 0]), S('fdu', d=3., y=5., inside=[0, 1])]}
