HT = 'SR_Vessel/SR_hauptteile.py'
PG_ = 'geometry/SR_polygon_group.py'
VES = 'exhaustive enumeration of vessel configurations executed on the real code against an independent chamber model'

p('G17', 'Networks of walls: adjacency, loops, rooms and the walls of every room',
  'For walls that meet at their ends, grouped into parts in any way: points are numbered uniquely, the adjacency lists are exactly the connections, a network with free ends, with fewer than three plain nodes, an odd number of branches or nodes with more than three walls is not valid; the loops found are exactly all simple cycles of the network (each once, closed, ordered and valid, shortest first); in a network without free ends or bridges the rooms are exactly the areas the walls divide the plane into, and the parts of a room are exactly the parts with a wall on its outline - not parts that merely end at corners of it. Parts on given points are those with a wall between two of them; members are found and named by any equal polygon.',
  ['inputs'], 'every subset of the walls of five plane networks (up to ten walls), with several directions, orders, groupings and placements',
  'the number of cycles is combinatorial; the tests look at the networks of about twenty vessels',
  [PG_], [('cycle search', 'SR_polygon_group.BehalterGraph.find_loops'), ('base cycles', 'SR_polygon_group.BehalterGraph.keep_base_polygons'), ('parts of a cycle', 'SR_polygon_group.BehalterGraph.segments_in_cycles')],
  ['BehalterGraph.find_loops/cycles/segments_in_cycles', 'as_adjacency_list', 'points_numbered', 'isvalid', 'segments_from_points'], EXE,
  'all subsets of the networks on the real graph class against plain graph search')
p('G18', 'The Delaunay triangulation of points and ear clipping of polygons are sound',
  'The triangles of a Delaunay triangulation have their corners in the given points, use all of them, have an area, do not overlap, fill the convex hull and have no other point inside of their circumcircle, and its edges are exactly the sides of the triangles; the triangles of ear clipping lie in the polygon, do not overlap, and fill it whenever success is reported; polygon and points stay as they are.',
  ['inputs'], 'every point set and simple polygon of the bound, several orders, placements and draws of the random source',
  'collinear and cocircular points decide; the tests do not use these algorithms',
  ['geometry/SR_polygon.py'], [('incremental triangulation', 'SR_polygon.Delaunay2d'), ('ear clipping', 'SR_polygon.PolygonLine.ear_clipping')],
  ['Delaunay2d.triangulate/getTriangles/getEdges', 'PolygonLine.ear_clipping'], EXE, 'all lattice point sets and polygons of the bound, exact integer oracle')
p('V01', 'The rooms of a vessel are exactly its closed chambers, with the right walls',
  'For every vessel put together from shells, cones, flat and dished ends, room ends and skirts, with vessels floating in it, beside it or jacketed around it, exactly one room is found for every closed chamber; its outer walls are exactly the parts that bound the chamber, its inner walls exactly the parts that bound vessels floating directly in it, each listed once (open chambers are no rooms); rooms have unique names, the outlines enclose the right areas, walls common to two rooms and rooms inside of rooms are exactly those of the geometry.',
  ['inputs'], 'every vessel of the bound (rows of chambers, cones, courses, ends, nesting to three levels, side by side, jackets), at several placements',
  'the number of configurations is combinatorial; the tests hold about twenty fixed vessels',
  [HT, PG_], [('cycle search', 'SR_polygon_group.BehalterGraph.find_loops'), ('base cycles', 'SR_polygon_group.BehalterGraph.keep_base_polygons'), ('walls of a room', 'SR_hauptteile.Behalter.raum_erstellen'), ('containment', 'SR_polygon_group.contained_cycles')],
  ['Behalter.raume', 'Raum.aussere_wandung/innere_wandung', 'Behalter.cycles', 'overlaps_in_cycles_named', 'contained_cycles'], VES,
  'every vessel of the bound is built and compared with the chamber model')
p('V02', 'For every part, the rooms inside, outside and indifferent to it are right',
  'For every part of a vessel, the reported inner rooms are exactly the rooms whose pressure acts as internal pressure on it (the room on the concave side of a head, the room enclosed by a shell), the outer rooms exactly those whose pressure acts as external pressure, flat ends are indifferent to exactly the rooms they bound, and no other room is named. Asking again gives the same answer and changes nothing; rooms that were given new names are named by them.',
  ['inputs', 'histories'], 'every vessel of the bound, asked twice',
  'orientation, position in the vessel, and nesting decide the answer; the tests hold about twenty fixed vessels',
  [HT], [('sampling of reference points', 'SR_hauptteile.Behalter.raum_intex'), ('reference points', 'SR_hauptteile.*.intex_points')], ['Behalter.raum_intex()'], VES,
  'every vessel of the bound is built and compared with the chamber model')
p('V03', 'The analysis of a vessel does not depend on part order or earlier questions',
  'Rooms, walls and relations of a vessel are the same (up to the names of the rooms) for every order in which the parts are given, for every draw of the random source, and stay the same along every sequence of questions, copies and rebuilds from the same parts.',
  ['inputs', 'histories', 'schedules'], 'every permutation of the parts of small vessels (rotations and transpositions of larger ones), every sequence of queries, copies and rebuilds up to the depth',
  'n! orders and all interleavings of cached queries; the tests use one order and one query each',
  [HT, PG_], [('caching of cycles', 'SR_polygon_group.BehalterGraph.cycles/segments_in_cycles'), ('choice of base cycles', 'SR_polygon_group.BehalterGraph.keep_base_polygons')],
  ['Behalter.raume', 'Behalter.raum_intex()', 'copy.deepcopy(Behalter)'], HIST, 'all permutations and operation sequences of the bound; chamber model as oracle')
p('V04', 'Cutting a part divides exactly the walls that are crossed',
  'Cutting a part at a height, or with a room end, divides exactly the walls that the cutter crosses, at exactly the crossing points, keeps the kind and direction of the walls and everything else, and returns True exactly when something was divided; touching is not a cut, dished heads are never cut, a kept room end is left alone and one that is not kept becomes wall - non-wall - wall along its length. The graph of the part follows, with reference points inside and outside of the part, after every sequence of cuts.',
  ['inputs', 'histories'], 'every sequence of cuts up to the depth on every kind of part and placement',
  'the state of a part depends on all earlier cuts; the tests cut once or twice',
  [HT], [('split', 'SR_hauptteile.Hauptteil.split'), ('renewing the graph', 'SR_polygon_group.Graph.renew')], ['Hauptteil.split', 'segments', 'graph', 'graph.internal/external'], HIST,
  'all cut sequences of the bound on the real parts in lock-step with exact division')
p('V05', 'Every part has exactly the outline, walls and size its parameters define',
  'A shell, cone, skirt, flat end, room end, dished head (two kinds, two directions) made from its parameters has exactly the walls and non-walls of its contour at its position, is closed, continuous and valid, tells points inside from points outside, has the documented characteristic size, and its graph consists of exactly its walls; parts are equal to parts made from the same parameters.',
  ['inputs'], 'every part of a grid of kinds, diameters (straight, conical both ways), heights, orientations and positions, 25 to 81 probe points each',
  'the tests build one or two parts of every kind at round coordinates',
  [HT], [('contours', 'SR_hauptteile.*.make_segments'), ('validity', 'SR_hauptteile.Hauptteil.isvalid')], ['segments', 'isvalid', 'characteristic_size', 'is_internal_point', 'graph'], EXE,
  'every part of the grid is built and compared with the contour that its parameters define')
p('V06', 'Every wall carries reference points on its inside and its outside',
  'Every segment of the graph of a part carries the reference points of its kind: inner points strictly inside the part, outer points strictly outside, indifferent points on both sides of flat ends, close to the segment they belong to; this holds for every draw of the random source, for copies, and after renewing the graph.',
  ['inputs', 'schedules', 'histories'], 'every part of the grid, under several variants of the random source, after copying and renewing',
  'points are drawn at random: the tests see one draw',
  [HT, PG_], [('drawing of points', 'SR_hauptteile.*.intex_points'), ('graph of a part', 'SR_polygon_group.Graph.add_intex_points')], ['graph.internal/external/indifferent'], EXE,
  'every part, variant and history of the bound; positions decided exactly against the contour')
p('V07', 'Dictionaries make the same parts as constructors, accepted iff complete',
  'A dictionary is accepted by from_dict exactly when its keys are the required ones of the kind, and then gives the same part as the constructor with the same values - of the same kind, every value in its place - and leaves the dictionary unchanged; otherwise it is refused.',
  ['inputs'], 'every subset of the required keys, with and without a foreign key, and every assignment of a menu of values',
  'all subsets and value combinations; the tests use a few complete dictionaries',
  [HT], [('from_dict', 'SR_hauptteile.Hauptteil.from_dict')], ['*.from_dict'], EXE, 'all subsets of keys and all value assignments of the bound')
p('V08', 'Cone knuckles are tangent to both walls, trim their neighbours, keep the rooms',
  'The knuckle between a cone and the part above it is the arc with the given radius tangent to both walls, with straight extensions to the given heights where these reach beyond the arc (two straight pieces if the radius is zero), symmetric; the cone, the part above and a part below end exactly where the knuckle begins; a vessel with a knuckle has exactly the rooms, outline areas and relations of its contour.',
  ['inputs'], 'all feasible combinations of cones, upper parts, radii, lengths, undersides and placements of the bound, and vessels with them',
  'the tests hold a handful of fixed knuckles',
  [HT], [('contour of the knuckle', 'SR_hauptteile.KegelKrempe.make_segments'), ('points on a wall', 'SR_line.LineSegment.is_point_on_line/is_internal_point')], ['KegelKrempe.segments', 'graph', 'Behalter.raume', 'Behalter.raum_intex()'], VES,
  'all feasible knuckles of the bound against an independent construction; one known finding (r=0)')
p('V09', 'A pattern of relations is accepted exactly when one renaming of rooms fits',
  'raum_dict_checker returns True exactly when one and only one renaming of the rooms turns the given relations into the pattern; a missing, additional or exchanged room anywhere is refused, and neither dictionary is changed.',
  ['inputs'], 'all pairs of dictionaries over up to 3 parts, 3 relations and 3 rooms of the bound, with shared, overlapping and disjoint names',
  'the tests of vessels rely on the checker, nothing tests the checker',
  [HT], [('renaming', 'SR_hauptteile.raum_dict_checker')], ['raum_dict_checker'], EXE, 'all pairs of dictionaries of the bound against counting of bijections')
