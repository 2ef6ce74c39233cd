# -*- coding: utf-8 -*-
"""Inside, outside or indifferent: the relation of every part to every room."""
from mc.lib import *
from mc import vessel as V
from SR_Vessel.SR_hauptteile import Behalter

PID = 'V02'
RULE = 'a case is a vessel described by its parts; for every part, the rooms in which pressure acts as internal, external ' \
       'or indifferent pressure as reported by the library are compared with the description (hollow side of heads, inner ' \
       'side of shells, both sides of flat bottoms, none for room ends); asking twice must give the same answer'
BOUNDS = {
    'quick': 'the vessels of V01 (quick), each asked twice',
    'thorough': 'the vessels of V01 (thorough), each asked twice with 2 random-ray variants'}
CHUNK = 1
ASSUMPTIONS = ['as V01']


def cases(tier):
    for d in V.scenarios(tier):
        yield d


KEYS = ('innenraum', 'aussenraum', 'indifferent')


def run(case, ctx):
    v = V.Vessel(case)
    parts = v.parts()
    b = Behalter([p for _, p in parts])
    r1 = b.raum_intex()
    ctx.equal(sorted(r1), sorted(n for n, _ in parts), 'parts in the answer')
    for n in r1:
        ctx.equal(sorted(r1[n]), sorted(KEYS), 'keys of %s' % n)
    ctx.step()
    ctx.state(case)
    ms = V.matchings(V.observe_rooms(b), v.own)
    ctx.check(ms, 'the rooms are not those of the vessel: %r', V.observe_rooms(b))
    want = dict((n, tuple(sorted(map(str, s)) for s in v.rel[n])) for n in v.rel)
    for m in ms:
        have = dict((n, tuple(sorted(str(m[r]) for r in r1[n][k]) for k in KEYS)) for n in r1)
        if have == want:
            break
    else:
        diff = dict((n, (have[n], want[n])) for n in want if have.get(n) != want[n])
        ctx.fail('part: (rooms inside, outside, indifferent) found, expected: %r' % diff)
    for k in range(1 if ctx.tier == 'quick' else 2):
        if k:
            rnd.reset(3)
        ctx.equal(b.raum_intex(), r1, 'answer when asked again')
        ctx.step()
    new = dict((r.name, 'room of %s' % r.name) for r in b.raume)
    for r in b.raume:
        r.set_name(new[r.name])
    ctx.equal(b.raum_intex(), dict((n, dict((k, set(new[x] for x in r1[n][k])) for k in KEYS)) for n in r1), 'answer after the rooms were renamed')
    ctx.step()
    for n in want:
        ctx.outcome((n[-1] if n[-2:-1].isdigit() or 'i' in n else n[0], [len(x) for x in want[n]]))


def post(tier, outcomes, counters, states):
    if len(outcomes) < 12:
        return 'only %d outcomes' % len(outcomes)
