# The geometric building blocks, C14..C22 (executed by meta.py).
POLY = 'src/elements/polyline.rs'
PR = 'src/properties/'
TG = 'TLA+ trace validation (GeomTrace.tla over Geometry.tla/Measure.tla/Domain.tla) of recorded calls with TLC'
GN = ('Every recorded call is checked by TLC against the TLA+ operators, evaluated exactly; generated calls concentrate on degenerate positions. '
      'Covers the generated arguments, not all of them; trusts TLC, the Java overrides (cross-checked against the pure TLA+ definitions) and the recorder in driver/.')
GOVER = ' Coordinates on dyadic grids of up to 1000 steps, at several scales and offsets.'
GWHY = ('Each unit test fixes one configuration, mostly in general position; the defects are in the configurations where vertices, edges and circles touch, '
        'and in coordinates that are not small integers.')


def geom(id, title, statement, text, files, mech, observe):
    prop(id, title, statement, ['inputs'], text, GWHY, files, mech, (), observe, None, TG, 'model_checking', GN)


geom('C14', 'Points are located exactly: inside, outside or on the boundary',
     'Polyline::contains tells for a closed polyline without self-intersections whether a point is strictly inside, strictly outside or on the boundary, whatever '
     'the direction of the polyline, the position of the point relative to its vertices and the shape, and nothing for an opened one; Edge::contains '
     'holds exactly for the points of the closed edge.',
     'For every simple polyline and every edge, and every point.' + GOVER, [POLY, 'src/elements/edge.rs'],
     [M('Polyline::contains', POLY), M('Edge::contains', 'src/elements/edge.rs')], ['return value'])
geom('C15', 'Geometric predicates decide correctly, also in degenerate positions',
     'orientation, continence (the in-circle test), Triangle::encircles (for ghost triangles: the half plane), encroach, parallel and intersection '
     'give the answer of exact arithmetic: the sign of the determinant or product, zero included; two non-parallel segments are reported to intersect iff '
     'they have a common point, and the reported point is on both.',
     'For all arguments on a grid, and arbitrary doubles whose answer is clear of rounding.' + GOVER,
     [PR + f for f in ('orientation.rs', 'continence.rs', 'encroachment.rs', 'parallel.rs', 'intersection.rs')] + ['src/elements/triangle.rs'],
     [M('orientation', PR + 'orientation.rs'), M('continence', PR + 'continence.rs'), M('intersection', PR + 'intersection.rs')], ['return value'])
geom('C16', 'Measures of vertices, edges, triangles and polylines are right',
     'midpoint, dot, distance, circumcenter, area, area_segments, segments_orientation, angle, and Triangle/Edge measures (area, quality = '
     'circumradius over shortest edge, center, circumcenter, midpoint, length) are the exact value up to rounding of a few operations; the parts of a '
     'triangle (inner, outer edges, opposite vertices and edges, polyline) are consistent, and ghosts have no measures.',
     'For all arguments where the measure is defined, including degenerate triangles and ghosts.' + GOVER,
     [PR + f for f in ('midpoint.rs', 'dot.rs', 'distance.rs', 'circumcenter.rs', 'area.rs', 'angle.rs')] + ['src/elements/triangle.rs', 'src/elements/edge.rs', POLY],
     [M('circumcenter', PR + 'circumcenter.rs'), M('angle', PR + 'angle.rs'), M('Triangle::quality', 'src/elements/triangle.rs')], ['return value'])
geom('C17', 'The relative position of two polylines is told correctly',
     'Polyline::continence(a, b) of a closed polyline a and a closed or opened b, neither with self-intersections, is nothing iff b has points on both sides of a (or a is opened); '
     'otherwise it is the side b is on, boundary if all of b is on a, and Closed iff b touches a.',
     'For every pair of simple polylines, overlapping, touching and nested ones included.' + GOVER, [POLY],
     [M('Polyline::continence', POLY)], ['return value'])
geom('C18', 'Boolean operations on polylines yield exactly the right loops',
     'For simple counterclockwise polylines, union is the single outer loop of the union of the two regions (none if there is no single one), intersection '
     'the loops of the common region, subtraction the loops of the remaining region (none if the second is strictly inside); the pieces of the two boundaries which the result doesn\'t '
     'use are reported. Results are closed and their edges are pieces of the operands, cut where they meet. Where the result would touch itself at a vertex nothing is claimed.',
     'For every pair of simple counterclockwise polylines, touching, overlapping, nested and equal ones included.' + GOVER, [POLY],
     [M('Polyline::union', POLY), M('Polyline::intersection', POLY), M('Polyline::subtraction', POLY), M('split_mutually', POLY)], ['return value'])
geom('C19', 'Segments are split exactly where they meet',
     'split_intersections replaces a set of segments, no two sharing more than a point, by the pieces into which their crossings and ends on each other cut them: each '
     'piece once, none missing, none invented. Polyline::intersection_vertices has a common point of the two polylines for every pair of edges that meet, and nothing else.',
     'For every set of segments without overlaps and every pair of simple polylines.' + GOVER, [POLY, PR + 'intersection.rs'],
     [M('split_intersections', POLY), M('Polyline::intersection_vertices', POLY)], ['return value'])
geom('C20', 'Edges are assembled into polylines and hulls, and taken apart, faithfully',
     'Polyline::arrange returns the loop of a set of edges iff they form exactly one cycle, triangles_hull the boundary of a set of triangles iff it is one cycle; '
     'minify drops exactly the vertices in the middle of straight runs; Edge::arrange joins exactly the straight runs, Edge::decompose finds the chain of edges along an edge iff '
     'there is one; conversions between edges, vertex pairs and polylines keep every edge, direction and end, and reject too few vertices.',
     'For every set of edges and triangles and every simple polyline.' + GOVER, [POLY, 'src/elements/edge.rs'],
     [M('Polyline::arrange', POLY), M('Polyline::triangles_hull', POLY), M('Polyline::minify', POLY), M('Edge::arrange', 'src/elements/edge.rs')], ['return value'])
geom('C21', 'Equality, hashing and ordering of elements are lawful',
     'Vertices, edges and polylines are equal iff their coordinates are (-0.0 equals 0.0, a ghost only equals a ghost), triangles iff they are rotations of each other; equal elements have '
     'equal hashes; vertices are ordered by abscissa, then ordinate, and sorting keeps exactly the given ones.',
     'For all pairs of elements on a grid, ghosts, signed zeros and all rotations included.', ['src/elements/vertex.rs', 'src/elements/edge.rs', 'src/elements/triangle.rs', POLY],
     [M('impl PartialEq, Hash', 'src/elements/vertex.rs'), M('impl Hash', 'src/elements/triangle.rs')], ['return value', 'hash'])
geom('C22', 'Bounding boxes are tight and compose',
     'The bounding box of vertices is the smallest box that contains them (none without vertices); it contains exactly the points between its corners; the intersection of two boxes is their common '
     'part (none if they are apart), the union the smallest box around both, boxes are equal iff their corners are.',
     'For all sets of vertices, degenerate boxes included.' + GOVER, ['src/elements/bounding_box.rs'],
     [M('BoundingBox::from_vertices', 'src/elements/bounding_box.rs'), M('BoundingBox::intersection', 'src/elements/bounding_box.rs')], ['return value'])

# The triangulation as a container, and the procedures, C23..C25
TM = 'TLA+ trace validation (MeshTrace.tla over Refine.tla/Mesh.tla/Domain.tla) of recorded call sequences with TLC'
MN = ('Every recorded sequence of calls is a behaviour of the TLA+ specification, checked call by call by TLC with exact arithmetic. '
      'Covers the generated sequences, not all of them; trusts TLC, the Java overrides (cross-checked against the pure TLA+ definitions) and the recorder in driver/.')
MWHY = ('The unit tests call each procedure once or twice on one fixed mesh and look at selected triangles; the procedures rely on what the calls before '
        'them left behind, in every order, and on hash iteration order.')
TG1 = 'src/planar/triangulation.rs'


def mesh(id, title, statement, over, text, files, mech, observe):
    prop(id, title, statement, over, text, MWHY, files, mech, MESH_STATE, observe, None, TM, 'model_checking', MN)


mesh('C23', 'A triangulation is a faithful set of triangles with edge adjacency',
     'Triangulation::include_triangle adds a triangle unless a rotation of it is present and says so, remove_triangle removes it if it is present and says so; the '
     'adjacency maps every directed edge of a present triangle to the triangle included last with it, no removal leaves an entry behind for an edge of the removed triangle; '
     'from_initial_segment has the two ghost triangles of the segment; vertices() are those of the present triangles, edges likewise.',
     ['inputs', 'histories'], 'For every sequence of inclusions and removals of any triangles, ghosts, rotations and inconsistent sets included.',
     [TG1, 'src/elements/triangle.rs', 'src/elements/edge.rs'],
     [M('Triangulation::include_triangle', TG1), M('Triangulation::remove_triangle', TG1), M('from_initial_segment', TG1)],
     ['return value', 'Triangulation.triangles', 'Triangulation.adjacency', 'Triangulation::vertices'])
mesh('C24', 'Every construction step leaves a constrained Delaunay triangulation',
     'Each of the construction procedures (boundary::include, vertices::include with or without a domain, hole::include, segment::include), called in any order the '
     'triangulator may use, leaves a consistent mesh which is the constrained Delaunay triangulation of exactly the domain included so far (the convex hull of the vertices if there is no '
     'boundary), and vertices::include reports included and removed triangles which account for the difference of the mesh before and after.',
     ['inputs', 'histories', 'schedules'], 'For every valid domain, every order of the calls and every hash iteration order. ' + STRONG,
     TRI_FILES, [M('vertices::include', PROC + 'vertices.rs'), M('boundary::include', PROC + 'boundary.rs'), M('hole::include', PROC + 'hole.rs'), M('segment::include', PROC + 'segment.rs')],
     ['Triangulation after every call', 'returned triangles'])
mesh('C25', 'Refinement steps split as needed and report every split',
     'distribute_encroachments finds exactly the vertices strictly inside the diametral circle of each segment. unencroach bisects segments which are encroached, and only those, until '
     'none is encroached (unless segments meet at less than 60 degrees), unencroach_segment until no piece is encroached by the given vertices, split_irregular until no triangle is bad. Each keeps a '
     'conforming constrained Delaunay mesh of the domain; the returned maps relate exactly the present subsegments to the input segments they replace, and the returned triangles '
     'account for the change of the mesh.',
     ['inputs', 'histories', 'schedules'], 'For every valid domain whose mesh is built, every hash iteration order, and for split_irregular every allowed quality ratio and area; domains with segments at '
     'less than 60 degrees only as said. ' + STRONG,
     REF_FILES, [M('distribute_encroachments', REF + 'encroachment.rs'), M('unencroach', REF + 'encroachment.rs'), M('unencroach_segment', REF + 'encroachment.rs'),
                 M('split_irregular', REF + 'triangle_split.rs')],
     ['Triangulation after every call', 'returned maps and triangles'])

# The command line program, C26 and C27
TP = 'TLA+ trace validation (ProgTrace.tla over Program.tla/Geometry.tla/Refine.tla) of runs of the command line program with TLC'
PN = ('Every recorded run (input document, outcome, output document) is a behaviour of the TLA+ specification, in which the domain is computed from the actions by exact arithmetic. '
      'Covers the generated documents, not all of them; outcomes the specification leaves open (DESIGN.md) are not judged; trusts TLC, the Java overrides (cross-checked against the pure TLA+ '
      'definitions) and the recorder vt/fam_prog.py.')
TI = 'src/triangulator_interface/'
JS = 'src/json_serializar/'
PF = ['src/main.rs', TI + 'mod.rs', TI + 'domain_evaluator.rs'] + [TI + 'interpreter/' + f + '.rs' for f in ('mod', 'circle_parser', 'polyline_parser', 'refine_params_parser', 'segments_parser', 'vertices_parser')]
PWHY = ('The unit tests parse single actions and evaluate two or three hand-made combinations of loops; the outcome depends on how all loops and constraints of a document lie to each other, '
        'on their order and on hash iteration order, and nothing tests the program as a whole.')


def prog(id, title, statement, text, files, mech, observe):
    prop(id, title, statement, ['inputs', 'schedules'], text, PWHY, files, mech, (), observe, None, TP, 'model_checking', PN)


prog('C26', 'The program meshes exactly the domain its actions describe, or rejects it',
     'For an input document the program meshes the region that is in some included loop and in no removed one (polylines and circles alike, in any order), with every constraint segment as chain of mesh '
     'edges, split where they cross, and every constraint vertex. It writes nothing and exits with an error if the document is malformed (unknown geometry or intent, missing fields, too few '
     'or crossing points, odd segment lists), if that region is empty or not connected, or if a constraint is not strictly inside of it. It always terminates.',
     'For every document and every hash iteration order; loops counterclockwise; regions that touch themselves in a vertex, removed parts with islands, overlapping constraint segments and domains with angles '
     'below 60 degrees are left open.',
     PF + ['src/elements/polyline.rs', TRI],
     [M('domain_evaluator::boundary', TI + 'domain_evaluator.rs'), M('domain_evaluator::holes', TI + 'domain_evaluator.rs'), M('parse', TI + 'mod.rs'), M('parse', TI + 'interpreter/mod.rs')],
     ['exit status', 'output document'])
prog('C27', 'The output document is the refined mesh, faithfully',
     'For an accepted document the output (on stdout, or in the file given, not both) has the name, the given or a new uuid, the given or current date, each mesh vertex exactly once, and triangles that index them: a consistent '
     'counterclockwise mesh, which is constrained Delaunay, has no encroached boundary edge, and meets the requested quality and maximum area.',
     'For every document of C26 that is accepted.', [JS + 'io.rs'] + [JS + 'models/' + f + '.rs' for f in ('action', 'input', 'output', 'point', 'tesselations')] + ['src/main.rs'],
     [M('TriangulationOutput::from_triangulator', JS + 'models/output.rs'), M('io::write', JS + 'io.rs'), M('main', 'src/main.rs')], ['output document'])

# Text and drawings, C28
TD = 'src/planar/triangulation_data.rs'
GL = 'src/glium_interface/vertex.rs'
geom('C28', 'What is printed or drawn is exactly the mesh',
     'The text of a vertex, edge, triangle, triangulation or TriangulationData names exactly its parts, in order, with coordinates that read back as the same doubles: a triangulation lists each of its '
     'triangles once, then each directed edge with the triangle on its left; a TriangulationData keeps the lists it is given and lists each point and each triangle on a line of its own. The data drawn for a '
     'triangulation has every solid triangle once, and every edge of a solid triangle once (whichever way it is passed), and nothing of the ghost triangles.',
     'For every element and every mesh, ghosts included; drawn coordinates exact in single precision.', ['src/elements/' + f + '.rs' for f in ('vertex', 'edge', 'triangle')] + ['src/planar/triangulation.rs', TD, GL],
     [M('fmt::Display', 'src/elements/vertex.rs'), M('fmt::Display', 'src/planar/triangulation.rs'), M('fmt::Display', TD), M('edges_from_triangulation', GL), M('triangles_from_triangulation', GL)],
     ['Display text', 'vertex data'])
