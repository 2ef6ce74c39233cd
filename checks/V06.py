# -*- coding: utf-8 -*-
"""Reference points of the graph of a part lie on the side they stand for."""
from mc.lib import *
from mc import ref, rnd
from checks import V05
from SR_Vessel import SR_hauptteile as H
import copy
import itertools
import math

PID = 'V06'
RULE = 'a case is a part of V05 (kind, sizes, position, orientation); every segment of its graph must carry the reference points of ' \
       'its kind, strictly inside / outside / on both sides of the part, close to it, attached to that segment; also after copying the part ' \
       'and renewing the graph, under several variants of the random source'
BOUNDS = {'quick': 'the parts of V05 (quick), 2 variants of the random source, 3 histories', 'thorough': 'the parts of V05 (thorough), 4 variants, 3 histories'}
CHUNK = 8
ASSUMPTIONS = ['parameters are positive decimals, magnitudes 0.1 to 10000']


def cases(tier):
    for c in V05.cases(tier):
        yield c


def run(c, ctx):
    segs, ring_, graph, typ, size = V05.contour(c)
    ctx.state(c)
    for var in range(2 if ctx.tier == 'quick' else 4):
        rnd.reset(var)
        part = V05.make(c)
        look(c, part, ring_, segs, 'of a new part', ctx)
        n = [len(l) for l in (part.graph.internal, part.graph.external, part.graph.indifferent)]
        if var == 0:
            look(c, copy.deepcopy(part), ring_, segs, 'of a copy', ctx)
            part.graph.renew()
            look(c, part, ring_, segs, 'after renewing the graph', ctx)
            part.graph.renew()
            look(c, copy.deepcopy(part), ring_, segs, 'of a copy after renewing twice', ctx)
            ctx.equal([len(l) for l in (part.graph.internal, part.graph.external, part.graph.indifferent)], n, 'number of reference points after renewing')
    ctx.outcome((c[0], len(part.graph.internal), len(part.graph.external), len(part.graph.indifferent)))


def look(c, part, ring_, segs, w, ctx):
    g = part.graph
    kinds = {'inside': list(g.internal), 'outside': list(g.external), 'indifferent': list(g.indifferent)}
    ctx.step()
    for k in kinds:
        for p in kinds[k]:
            ctx.check(len([s for s in g.segments if s == p.segment]) == 1, '%s point %r %s belongs to no segment of the graph: %r', k, xy(p), w, p.segment)
    if c[0] in ('Mantel', 'StandZarge'):
        ctx.check(not kinds['indifferent'], 'indifferent points %s', w)
        for s in g.segments:
            level = s.i.y == s.j.y
            for k in ('inside', 'outside'):
                ps = [xy(p) for p in kinds[k] if p.segment == s]
                ctx.check(ps or level, 'no %s point for %r %s', k, s, w)
                for p in ps:
                    ctx.check((ref.locate(p, ring_) > 0) == (k == 'inside'), '%s point %r %s lies on the wrong side', k, p, w)
                    d = V05.dist(p, xy(s.i), xy(s.j))
                    ctx.check(d < .01 * max(c[1], c[2], c[3]) and (d > 0 or level), '%s point %r %s is %r away from its wall', k, p, w, d)
    elif c[0] in ('Klopperboden', 'Korbbogenboden'):
        ctx.check(not kinds['indifferent'], 'indifferent points %s', w)
        _, d, h1, o, x, y = c
        hg = max(.1, d / 1000.)
        for s in g.segments:
            for k in ('inside', 'outside'):
                ps = [xy(p) for p in kinds[k] if p.segment == s]
                ctx.check(ps, 'no %s point for %r %s', k, s, w)
                for p in ps:
                    t = abs(p[0] - x) / (d / 2)             # 0 axis .. 1 rim
                    z = (p[1] - y) * o / hg                 # 0 rim line .. 1 crown of the simplified head
                    ctx.check(t < 1 and 0 < z < 1, '%s point %r %s is not beside the head', k, p, w)
                    ctx.check((z < 1 - t) == (k == 'inside'), '%s point %r %s lies on the wrong side', k, p, w)
                    ctx.check((p[0] > x) == ((s.i.x + s.j.x) / 2 > x), '%s point %r %s is not beside its segment %r', k, p, w, s)
    elif c[0] == 'Flachboden':
        ctx.check(not kinds['inside'] and not kinds['outside'], 'inside/outside points %s', w)
        _, d, x, y = c
        ps = [xy(p) for p in kinds['indifferent']]
        ctx.check(any(p[1] > y for p in ps) and any(p[1] < y for p in ps), 'indifferent points %r %s are not on both sides', ps, w)
        for p in ps:
            ctx.check(abs(p[0] - x) < d / 2 and 0 < abs(p[1] - y) < .1 * d, 'indifferent point %r %s is not beside the flat end', p, w)
    else:
        ctx.check(not any(kinds.values()), 'a room end has reference points %s: %r', w, kinds)


def post(tier, outcomes, counters, states):
    if len(outcomes) < 5:
        return 'only %r' % outcomes
