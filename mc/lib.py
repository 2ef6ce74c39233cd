# -*- coding: utf-8 -*-
"""the library under test and builders used by the checks"""
from geometry.SR_point import Point, IntexPoint, distance, EPS
from geometry.SR_line import LineSegment, point_on_line_at_ratio, divide_line, add_point_on_line
from geometry.SR_polygon import (PolygonLine, Triangle, Delaunay2d, segments_from_pointset, remove_collinear_points,
                                 simplify, remove_outlier_segments, polygon_from_nodes, square, arc,
                                 intersecting_lines, convex_hull, add, walk_segments)
from geometry.SR_polygon_group import PolygonGroup, BehalterGraph


def seg(a, b):
    return LineSegment(Point(a), Point(b))


def poly_shared(pts, closed=True):
    """neighbouring segments share their Point objects"""
    ps = [Point(p) for p in pts]
    ls = [LineSegment(a, b) for a, b in zip(ps, ps[1:])]
    if closed:
        ls.append(LineSegment(ps[-1], ps[0]))
    return PolygonLine(ls)


def poly_separate(pts, closed=True):
    """every segment has Point objects of its own"""
    pts = list(pts)
    if closed:
        pts = pts + pts[:1]
    return PolygonLine([seg(a, b) for a, b in zip(pts, pts[1:])])


def poly_alias(pts, mask, closed=True):
    """bit i of mask: vertex i is one Point object for both adjacent segments, else two"""
    n = len(pts)
    ls = []
    m = n if closed else n - 1
    ends = {}
    for v in range(n):
        a = Point(pts[v])
        ends[v] = (a, a) if mask >> v & 1 else (a, Point(pts[v]))
    for i in range(m):
        ls.append(LineSegment(ends[i][1], ends[(i + 1) % n][0]))
    return PolygonLine(ls)


def xy(p):
    return (p.x, p.y)


def ring(pl):
    """vertex sequence of a (continuous, closed) polygon as coordinates"""
    return [xy(s.i) for s in pl.segments]


def edge_multiset(pl_or_segs):
    segs = pl_or_segs.segments if hasattr(pl_or_segs, 'segments') else pl_or_segs
    return sorted(tuple(sorted((xy(s.i), xy(s.j)))) for s in segs)


def dir_edges(pl_or_segs):
    segs = pl_or_segs.segments if hasattr(pl_or_segs, 'segments') else pl_or_segs
    return [(xy(s.i), xy(s.j)) for s in segs]
