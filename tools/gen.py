#!/usr/bin/env python3
# -*- coding: utf-8 -*-
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing; output is committed)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(pid, title, statement, over, quant, why, files, mech, observe, technique, note):
    assert len(title) <= 80, title
    P.append(dict(id=pid, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note))


EXE = 'stateless exhaustive exploration of the real code against an exact reference model'
HIST = 'exhaustive operation-history exploration of the real objects in lock-step with a reference model'

p('G01', 'Points: value equality, hashing and coordinate rounding agree',
  'Two points compare equal exactly when their coordinates agree within the documented tolerance, coordinates are the given values rounded to the documented number of decimals, points with the same coordinates have the same hash, and vector addition, difference and distance are those of the plane. A point is valid exactly when it has two numeric coordinates.',
  ['inputs'], 'every pair of points of a coordinate menu that collides with both tolerances',
  'unit tests compare a dozen points; the tolerance boundaries of rounding and equality are never crossed from both sides',
  ['geometry/SR_point.py'], [('rounding and tolerance equality', 'SR_point.Point.__eq__/xy/x/y')],
  ['Point.__eq__', 'Point.__hash__', 'Point.dist/midpoint arithmetic', 'Point.isvalid'], EXE,
  'every pair of the coordinate grid is executed; the oracle is decimal/rational arithmetic')
p('G02', 'Measures of a segment agree with exact plane geometry',
  'For every non-degenerate segment, length, midpoint, bounding box, line equation, direction, unit vectors, relation of a point to the segment or its line, and the angle to any other segment equal the exact values (within rounding), for every orientation including vertical and horizontal ones. No measure raises for a valid segment.',
  ['inputs'], 'every directed segment of a grid, every probe point, every second segment, several coordinate transforms',
  'tests use a handful of nice segments; vertical/horizontal/near-parallel and decimal coordinates need all combinations',
  ['geometry/SR_line.py'], [('angle clipping and tolerances', 'SR_line.LineSegment.angle_between_lines'), ('line equation with vertical case', 'SR_line.LineSegment')],
  ['LineSegment measures'], EXE, 'all grid segments x probes x transforms; exact rational oracle')
p('G03', 'Relations of two segments agree with exact plane geometry',
  'For every two segments, equality up to direction, parallelism, collinearity, the intersection point of their lines, whether it lies on both segments or on an end point, touching and continuity are decided as exact geometry decides them, and symmetric relations do not depend on the order of the two.',
  ['inputs'], 'every ordered pair of directed segments of a grid under several coordinate transforms',
  'the pair space has dozens of degenerate configurations (T, L, collinear, overlapping, vertical) of which tests sample a few',
  ['geometry/SR_line.py'], [('pair predicates', 'SR_line.LineSegment.intersection_point/is_parallel/...')],
  ['LineSegment pair predicates'], EXE, 'all pairs, both argument orders; exact rational oracle')
p('G04', 'Common part and overlap of two segments',
  'The common part of two segments is exactly the intersection of the two point sets (nothing, a point, or the shared stretch), and overlap is reported exactly when they share a stretch of positive length; both are symmetric and independent of the direction of the segments.',
  ['inputs'], 'every ordered pair of directed grid segments, and all pairs on lattice lines in many directions',
  'collinear overlaps come in 13 interval relations times direction times orientation; tests sample some',
  ['geometry/SR_line.py'], [('overlap/common part', 'SR_line.LineSegment.common_part/overlap')], ['common_part', 'overlap'], EXE,
  'all pairs; exact oracle')
p('G05', 'Subdividing, reversing and moving a segment',
  'Dividing a segment into n parts gives n contiguous equal parts from start to end, the point at a ratio lies on the segment at that ratio, inserting a point on the segment gives two parts that join there, and reversing, moving, mirroring or rotating a segment in place does exactly that along every sequence of such operations.',
  ['inputs', 'histories'], 'every grid segment, division counts and ratios of the bound, every sequence of in-place operations up to the depth',
  'tests divide one or two segments; sequences of in-place operations are not tested',
  ['geometry/SR_line.py'], [('divide/insert/reverse', 'SR_line.LineSegment, point_on_line_at_ratio, divide_line')],
  ['LineSegment'], HIST, 'all segments and all operation sequences up to the depth; exact oracle')
p('G06', 'Rigid motions of polygon lines act on every point exactly once',
  'Moving, rotating and mirroring a polygon line transforms every vertex exactly once, whatever points the segments share and whatever was done before (copying, purging, appending, reversing, ordering), and copies are unaffected by motions of the original.',
  ['histories'], 'every sharing pattern of the points of 6-8 shapes, every sequence of 15-18 operations up to the depth',
  'aliasing of point objects between segments depends on history; tests move fresh objects once',
  ['geometry/SR_polygon.py', 'geometry/SR_line.py'], [('point identity kept by purge', 'SR_polygon.PolygonLine.purge/move/rotate')],
  ['vertex coordinates after every operation'], HIST, 'all histories up to the depth on all sharing patterns; affine reference model in lock-step')
p('G07', 'Ordering turns any arrangement of a closed ring into that ring',
  'If the segments of a polygon line, in any order and any direction, form one closed ring, ordering succeeds and yields a continuous closed line with exactly the same edges, for rings of any size, that starts at a corner nearest to the origin - at the same one for every arrangement of the ring; if they do not form one - free ends, branches, more than one ring - ordering reports failure. The segments keep their kind, and the ordered copy leaves the original alone.',
  ['inputs'], 'every permutation and flip pattern of the segments of all simple grid polygons up to 5-6 vertices, large rings in several orders',
  'n! 2^n arrangements; tests try one or two',
  ['geometry/SR_polygon.py'], [('order()', 'SR_polygon.PolygonLine.order')], ['order', 'ordered_copy'], EXE, 'all permutations x flips; edge multiset oracle')
p('G08', 'Joining open polygon lines',
  'Joining open polygon lines yields one continuous line that runs through the vertices of the arguments in order, bridging ends that do not meet with a straight segment, and leaves the arguments as they were.',
  ['inputs'], 'every pair and triple of small open grid lines',
  'the four ways ends can meet, bridges and shared objects are sampled by two tests',
  ['geometry/SR_polygon.py'], [('add', 'SR_polygon.add')], ['add'], EXE, 'all pairs/triples; concatenation oracle')
p('G09', 'Point-in-polygon is right wherever the polygon lies and whatever rays are drawn',
  'A point is reported internal exactly when it lies strictly inside the polygon, external exactly when it lies strictly outside, and on the boundary otherwise; the answer does not depend on position, size or orientation of the polygon nor on the random directions used to decide it.',
  ['inputs', 'schedules'], 'every simple polygon of the bound x placement x probe point x scripted answers of the random source, including rays through vertices',
  'the answer depends on random rays; a test sees one draw per run, polygons near the origin only',
  ['geometry/SR_polygon.py'], [('odd-even rule with retries', 'SR_polygon.PolygonLine.is_internal_point')],
  ['is_internal_point', 'is_external_point', 'is_on_boundary'], 'exhaustive exploration with a controlled random source (all adversarial ray choices up to a bound)',
  'the random source is replaced by a scripted environment; up to two of three rays are aimed at every vertex; exact location oracle')
p('G10', 'Triangulation partitions the polygon and area is exact after every history',
  'The triangles of a simple polygon use only its vertices, do not overlap, cover exactly its interior, and their areas add up to the area of the polygon. Area and triangulation always describe the current shape, whatever sequence of queries, motions and edits preceded.',
  ['inputs', 'histories'], 'every simple polygon of the bound at several placements; every history of queries and motions up to the depth',
  'caching of triangles and areas is visible only along histories; tests triangulate fresh polygons',
  ['geometry/SR_polygon.py'], [('triangulate caches triangles', 'SR_polygon.PolygonLine.triangulate/area')], ['triangles', 'area'], HIST,
  'all polygons and histories of the bound; exact shoelace and interior-disjointness oracle')
p('G11', 'Convexity and orientation of closed polygons',
  'A closed simple polygon is reported convex exactly when it has no reflex corner, and clockwise / counter-clockwise exactly as its signed area says; motions keep these answers, mirroring and reversing swap the orientation.',
  ['inputs', 'histories'], 'every simple polygon of the bound, placements, directions, motion sequences up to the depth',
  'concave polygons with many reflex corners and straight corners are untested', ['geometry/SR_polygon.py'],
  [('turn signs / signed area', 'SR_polygon.PolygonLine.isconvex/iscw/isccw')], ['isconvex', 'iscw', 'isccw'], HIST, 'all polygons of the bound; exact sign oracle')
p('G12', 'Convex hull',
  'The convex hull of any set of points is the smallest convex polygon containing them: exactly the extreme points, counter-clockwise, whatever the order, duplication, position and scale of the input.',
  ['inputs'], 'every subset of a grid x placement x order x duplication', 'collinear and duplicated inputs have many forms; tests use three sets',
  ['geometry/SR_polygon.py'], [('monotone chain', 'SR_polygon.convex_hull')], ['convex_hull'], EXE, 'all subsets; exact hull oracle')
p('G13', 'Relations between triangles and disjointness of polygons',
  'For every two triangles, congruence, overlap of interiors, touching (exactly one stretch of the boundaries in common), enclosure and disjointness are decided as exact geometry decides them and do not depend on the order of vertices or arguments; polygons are disjunct exactly when their interiors do not meet. Areas and angles of triangles are exact.',
  ['inputs'], 'every ordered pair of grid triangles and pairs of small polygons at several placements',
  'the pair space of triangles has many degenerate contacts; tests sample fewer than ten', ['geometry/SR_polygon.py'],
  [('separating sides', 'SR_polygon.Triangle.overlap'), ('disjunct', 'SR_polygon.PolygonLine.disjunct')], ['Triangle relations', 'disjunct'], EXE,
  'all pairs of the bound; exact rational oracle')
p('G14', 'Structural queries and equality of polygon lines',
  'Continuity, closedness, validity, end points, neighbours and lookups of a polygon line say what its list of segments says; equality, loose equality (any order and direction) and the subset relation hold exactly when the edge lists are the same / the same up to order and direction / included, and equal lines have equal hashes.',
  ['inputs'], 'every sequence of directed segments between five points up to the length, every one-step variant of each',
  'invalid, branching and discontinuous sequences are mostly untested', ['geometry/SR_polygon.py'],
  [('structural predicates', 'SR_polygon.PolygonLine.iscontinuous/isclosed/isvalid/neighbour'), ('equality', 'SR_polygon.PolygonLine.__eq__/loose_equal/loose_subset')],
  ['PolygonLine predicates'], EXE, 'all sequences of the bound; edge list oracle')
p('G15', 'Simplification and walking of segment sets',
  'Removing collinear points keeps the shape and exactly the real corners; removing outlier segments removes exactly the segments that hang at a free end, with their reference points; walking a set of segments finds the cycle when the set is one cycle and never returns anything that is not a cycle of the set, nor one that passes more than one branch.',
  ['inputs'], 'every simple polygon of the bound, every edge set on five points, every set of lattice positions',
  'edge sets are a power set; tests use a few', ['geometry/SR_polygon.py'],
  [('simplify', 'SR_polygon.simplify/remove_outlier_segments'), ('walk_segments', 'SR_polygon.walk_segments')], ['simplify', 'walk_segments', 'remove_outlier_segments'],
  EXE, 'all polygons / edge sets of the bound; exact oracle')
p('G16', 'Generators: lines through nodes, squares and arcs',
  'A line generated from nodes runs through exactly those nodes in order, a square has the given side and position, and an arc has the given number of equal chords on the circle from the start angle to the end angle, continuous in either direction.',
  ['inputs'], 'every node sequence, square and arc parameter combination of the bound', 'tests generate one arc and one square',
  ['geometry/SR_polygon.py', 'geometry/additional_stuff.py'], [('arc', 'SR_polygon.arc'), ('polygonline from nodes', 'SR_polygon')], ['arc', 'square', 'polygonline generators'], EXE,
  'all parameter combinations; exact/trigonometric oracle')
p('G19', 'Intersection of a line in space with a sphere',
  'A line meets a sphere in no, one or two points exactly as the discriminant says; every returned point lies on both, and the first one is the one further along the direction of the line.',
  ['inputs'], 'every lattice line, centre and radius of the bound', 'no test covers it', ['geometry/additional_stuff.py'],
  [('quadratic formula', 'additional_stuff')], ['sphere_line_intersection'], EXE, 'all lattice lines x spheres; exact integer discriminant')

exec(open(os.path.join(HERE, 'tools', 'gen_more.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'gen_more.py')) else None

NA = globals().get('NA', [])

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps({
            'id': x['id'], 'title': x['title'], 'statement': x['statement'],
            'quantifier': {'over': x['over'], 'text': x['quant']}, 'why_tests_cant': x['why'],
            'anchors': {'files': x['files'], 'mechanism': [{'name': a, 'where': b} for a, b in x['mech']],
                        'observe_at': x['observe'], 'hook_needed': None}}, sort_keys=False) + '\n')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': './setup.sh',
               'checks': [{'property': x['id'], 'quick_cmd': './check.sh %s' % x['id'],
                           'thorough_cmd': './check.sh %s thorough' % x['id'], 'evidence_file': 'evidence/%s.json' % x['id'],
                           'technique': x['technique'], 'level': 'model_checking', 'level_note': x['note'] +
                           '. Bounded: nothing is claimed beyond the bound printed in the evidence. Trusted: the harness, the reference model in mc/ref.py, PyPy.'}
                          for x in P if x['id'] not in [n['property'] for n in NA]],
               'not_applicable': NA,
               'notes': 'No hooks in /repo: the checks import the library from /repo and replace only the module random and time.sleep at run time.'}, f, indent=1)
    f.write('\n')
