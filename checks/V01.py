# -*- coding: utf-8 -*-
"""Rooms of a vessel: exactly its closed chambers, each with exactly the parts that bound it."""
from mc.lib import *
from mc import vessel as V
from SR_Vessel.SR_hauptteile import Behalter

PID = 'V01'
RULE = 'a case is a vessel described by its parts (rows of chambers, cones, courses, all kinds of ends, vessels floating ' \
       'in vessels, vessels side by side, jackets closed by a room end); the rooms found by the library, their outer and ' \
       'inner walls, outlines, common walls and containment are compared with the chambers of the description'
BOUNDS = {
    'quick': 'parts from bottom to top, and (two thirds) from top to bottom or every second part first: all rows of 1-3 chambers with flat/up/down ends and dividers (lengths incl. equal-area combinations), 1-2 '
             'chambers with Korbbogen and room ends (half), cones, 1-5 courses, StandZarge, 7 placements; nesting 1+1 (all '
             'ends), 1+2, 1+1+1, 2+1+1, 2+2, 1+3, three levels (subsets); side by side; 1-3 vessels off the axis inside of one; two vessels of 2-3 rooms inside of one; chambers open at the top, the bottom or both (alone, beside and inside of others); 24 jackets; 18 large vessels (up to 20 courses, 4 chambers '
             'in a row, 5 vessels inside of one, 5 levels, 5 side by side)',
    'thorough': 'as quick without the subsets, in all three orders, rows of 4 chambers, ends of 3 chambers, 576 jackets, rows of 5 '
                '(some) and 7 chambers'}
CHUNK = 1
ASSUMPTIONS = ['ends and dividers of different chambers do not touch or cross, as in the README examples',
               'a room end does not cut a shell exactly at the end of a course (documented: touching is no cut)',
               'jackets around a course from both ends (two room ends on one jacket) are outside: listed as to do in todo.md']


def cases(tier):
    for d in V.scenarios(tier):
        yield d


def run(case, ctx):
    v = V.Vessel(case)
    b = Behalter([p for _, p in v.parts()])
    got = V.observe_rooms(b)
    ctx.step()
    ctx.state(case)
    show = dict((k, (sorted(o), sorted(i))) for k, (o, i) in got.items())
    ctx.equal(len(got), len(b.raume), 'room names are unique')
    for r in b.raume:
        out, inn = list(r.aussere_wandung), list(r.innere_wandung)
        names = [p.name for p in out + inn]
        ctx.equal(len(names), len(set(names)), 'walls of %s %r are listed once', r.name, names)
        ctx.equal(sorted(p.name for p in r.ganze_wandung), sorted(names), 'all walls of %s', r.name)
        ctx.equal(edge_multiset(r.as_polygon), sorted(e for p in out + inn for e in edge_multiset(p.wall_segments)), 'polygon of the walls of %s', r.name)
        ctx.equal(edge_multiset(r.graph_as_polygon()), sorted(e for p in out + inn for e in edge_multiset(p.graph.segments)), 'graph of the walls of %s', r.name)
    ms = V.matchings(got, v.own)
    ctx.check(ms, 'rooms found (outer walls, inner walls): %r; expected %r', show,
              dict((str(k), (sorted(o), sorted(i))) for k, (o, i) in v.own.items()))
    m = None
    byroom = dict((r.name, r) for r in b.raume)
    cyc = b.graph.cycles
    for cand in ms:      # rooms with the same walls (if any) are told apart by their outline
        if all(abs(cyc[byroom[r].cycle[0]].area - v.areas[cand[r]]) < 1e-4 * max(1, v.areas[cand[r]]) for r in cand):
            m = cand
    ctx.check(m is not None, 'outline areas %r, expected %r', dict((r, cyc[byroom[r].cycle[0]].area) for r in got), v.areas)
    ids = dict((byroom[r].cycle[0], m[r]) for r in m)
    ctx.equal(sorted(ids), sorted(range(len(got))), 'room numbers')
    ctx.equal(len(b.cycles), len(got), 'number of cycles')
    # common walls of every two rooms
    ov = b.overlaps_in_cycles_named
    have = dict((frozenset(ids[c] for c in k), set(s)) for k, s in ov.items())
    want = {}
    for x in v.own:
        for y in v.own:
            if x != y and v.own[x][0] & v.own[y][0]:
                want[frozenset([x, y])] = set(v.own[x][0] & v.own[y][0])
    ctx.equal(have, want, 'common walls of the rooms')
    # containment: rooms of vessels that float inside
    have = dict((ids[c], set(ids[z] for z in l)) for c, l in b.contained_cycles.items())
    want = dict((r, set()) for r in v.own)
    if 'stacks' in case:
        up = dict((si, tuple(st['in'])) for si, st in enumerate(case['stacks']) if st['in'])
        for r in v.own:
            e = up.get(r[0])
            while e is not None:
                want[e].add(r)
                e = up.get(e[0])
    ctx.equal(have, want, 'rooms inside of rooms')
    ctx.outcome((case['tag'], len(got), len(have)))


def post(tier, outcomes, counters, states):
    if len(outcomes) < 20:
        return 'only %d outcomes' % len(outcomes)
