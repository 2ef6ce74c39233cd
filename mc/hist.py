# -*- coding: utf-8 -*-
"""Operation alphabet on polygon lines and its reference model (a list of directed edges)."""
import math
from mc import ref


def aff(op):
    """the exact map of a motion, or None"""
    k = op[0]
    if k == 'move':
        return lambda p: (p[0] + op[1], p[1] + op[2])
    if k == 'mirror':
        return lambda p: (2 * op[1] - p[0], p[1])
    if k == 'rot':
        c, s = math.cos(math.radians(op[1])), math.sin(math.radians(op[1]))
        return lambda p: (p[0] * c - p[1] * s, p[0] * s + p[1] * c)
    if k == 'rotxy':
        c, s = math.cos(math.radians(op[3])), math.sin(math.radians(op[3]))
        x0, y0 = op[1], op[2]
        return lambda p: (x0 + (p[0] - x0) * c - (p[1] - y0) * s, y0 + (p[0] - x0) * s + (p[1] - y0) * c)
    return None


def near(p, q):
    return abs(p[0] - q[0]) < 1e-6 and abs(p[1] - q[1]) < 1e-6


class Model(object):
    """edges: list of ((x, y), (x, y))"""

    def __init__(self, pts, closed):
        self.e = [(a, b) for a, b in zip(pts, pts[1:])]
        if closed:
            self.e.append((pts[-1], pts[0]))

    def first(self):
        return self.e[0][0]

    def last(self):
        return self.e[-1][1]

    def continuous(self):
        return all(near(x[1], y[0]) for x, y in zip(self.e, self.e[1:]))

    def closed(self):
        return self.continuous() and near(self.first(), self.last())

    def verts(self):
        return [x[0] for x in self.e] + [self.last()]

    def target(self, op):
        """coordinates of an appended point"""
        k = op[1]
        if k == 'new1':
            return (9.25, 7.5)
        if k == 'new2':
            return (-4.75, 5.125)
        if k == 'first':
            return self.first()
        if k == 'last':
            return self.last()
        if k == 'second':
            return self.e[0][1]
        raise ValueError(k)

    def enabled(self, op):
        if op[0] == 'append':
            t = self.target(op)
            # no null segments, no segment on top of the last one
            return not near(t, self.last()) and not near(t, self.e[-1][0])
        if op[0] == 'prepend':
            t = self.target(op)
            return not near(t, self.first()) and not near(t, self.e[0][1])
        if op[0] == 'close':
            return len(self.e) > 1
        if op[0] == 'ocopy':          # of a closed line without branches
            return len(self.e) > 2 and self.closed() and not any(near(a[0], b[0]) for i, a in enumerate(self.e) for b in self.e[:i])
        return True

    def apply(self, op):
        f = aff(op)
        if f:
            self.e = [(f(a), f(b)) for a, b in self.e]
        elif op[0] == 'append':
            self.e = self.e + [(self.last(), self.target(op))]
        elif op[0] == 'prepend':
            self.e = [(self.target(op), self.first())] + self.e
        elif op[0] == 'close':
            if not self.closed():
                self.e = self.e + [(self.last(), self.first())]
        # purge, copy, query: nothing changes

    def start_like(self, edges, tol=1e-6):
        """begin where the given edges begin, if these are the same ones; False if they are not"""
        for k in range(len(self.e)):
            e = self.e[k:] + self.e[:k]
            if len(e) == len(edges) and all(near(x, y) for a, b in zip(e, edges) for x, y in zip(a, b)):
                self.e = e
                return True
        return False

    def bbox(self):
        xs = [p[0] for e in self.e for p in e]
        ys = [p[1] for e in self.e for p in e]
        return (min(xs), max(xs)), (min(ys), max(ys))


def real(pl, op, model, Point, copy):
    """apply op to the real polygon line; returns the object to go on with.  `model` is the state *before* op"""
    k = op[0]
    if k == 'move':
        pl.move(x0=op[1], y0=op[2])
    elif k == 'mirror':
        pl.mirror_vertical(x0=op[1])
    elif k == 'rot':
        pl.rotate_about_origin(phi=op[1])
    elif k == 'rotxy':
        pl.rotate_about_xy(x0=op[1], y0=op[2], phi=op[3])
    elif k == 'append':
        pl.append_point_at_end(Point(model.target(op)))
    elif k == 'prepend':
        pl.append_point_at_beginning(Point(model.target(op)))
    elif k == 'close':
        pl.close()
    elif k == 'purge':
        pl.purge()
    elif k == 'copy':
        return copy.deepcopy(pl)
    elif k == 'ccopy':
        return pl.closed_copy()
    elif k == 'ocopy':
        return pl.ordered_copy()
    else:
        raise ValueError(op)
    return pl
