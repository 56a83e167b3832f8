"""Writes properties.jsonl and MANIFEST.json (one source for both).  Usage: python3 vt/meta.py"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRI = 'src/planar/triangulator.rs'
PROC = 'src/planar/triangulation_procedures/'
REF = 'src/planar/refine_procedures/'
STRONG = ('Valid domain: any simple counterclockwise boundary polygon with any accepted holes, segments and vertices, no two of the segments '
          'overlapping in more than a point; coordinates on a dyadic grid of at most 2^10 steps.')


def S(name, meaning, where):
    return dict(name=name, meaning=meaning, where=where)


def M(name, where):
    return dict(name=name, where=where)


MESH_STATE = [S('Triangulation.triangles', 'set of solid and ghost triangles', 'src/planar/triangulation.rs'),
              S('Triangulation.adjacency', 'directed edge -> triangle on its left', 'src/planar/triangulation.rs')]
DOM_STATE = [S('Triangulator.boundary/holes/segments/vertices', 'the domain', TRI)]
TRI_MECH = [M('Triangulator::triangulate', TRI), M('Bowyer-Watson insertion', PROC + 'vertices.rs'),
            M('boundary recovery and ghost ring', PROC + 'boundary.rs'), M('holes', PROC + 'hole.rs'), M('segments', PROC + 'segment.rs')]
REF_MECH = [M('Triangulator::refine', TRI), M('unencroach', REF + 'encroachment.rs'), M('split_irregular', REF + 'triangle_split.rs')]
TRI_FILES = [TRI, 'src/planar/triangulation.rs', PROC + 'vertices.rs', PROC + 'boundary.rs', PROC + 'hole.rs', PROC + 'segment.rs',
             'src/elements/triangle.rs', 'src/elements/edge.rs', 'src/elements/vertex.rs', 'src/properties/continence.rs',
             'src/properties/orientation.rs']
REF_FILES = TRI_FILES + [REF + 'encroachment.rs', REF + 'triangle_split.rs', 'src/properties/encroachment.rs', 'src/properties/circumcenter.rs']

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None, technique=None, level='model_checking', note=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, state=list(state), mechanism=mech, observe_at=list(observe), hook_needed=hook))
    d['_t'] = technique
    d['_l'] = level
    d['_n'] = note
    PROPS.append(d)


TT = 'TLA+ trace validation (TriTrace.tla over Mesh.tla/Domain.tla) of recorded Triangulator histories with TLC'
TN = ('Every recorded history is a behaviour of the TLA+ specification, checked step by step by TLC with exact arithmetic; '
      'the design itself is model checked exhaustively on small lattices. Covers the generated histories, not all of them; '
      'trusts TLC, java/Exact.java (cross-checked against the pure TLA+ predicates) and the recorder in driver/.')
WHY = ('The unit tests triangulate a handful of fixed domains with assertions on selected triangles; the property quantifies over every '
       'domain, every insertion history and every hash iteration order (the order vertices and triangles are processed in).')

prop('C01', 'Triangulating yields a consistent, counterclockwise, closed mesh',
     'Triangulating a valid domain terminates without a panic and leaves a mesh in which every solid triangle is counterclockwise with '
     'three distinct vertices, every directed edge has exactly one triangle on its left and exactly one (possibly ghost) triangle on its '
     'right, and the adjacency map lists exactly the directed edges of the triangles, each with its triangle.',
     ['inputs', 'histories', 'schedules'], 'For every valid domain, every order of insertions and every hash iteration order. ' + STRONG,
     WHY, TRI_FILES, TRI_MECH, MESH_STATE + DOM_STATE, ['Triangulator.triangulation after triangulate()'], None, TT, 'model_checking', TN)
prop('C02', 'The triangles tile exactly the domain: boundary minus holes',
     'After triangulating a valid domain the solid triangles cover every point inside the boundary and outside all holes exactly once and '
     'nothing else: their area is the area of the boundary minus that of the holes, and the ghost triangles are exactly one per edge of the '
     'boundary and of the holes, on their outer side.',
     ['inputs', 'histories', 'schedules'], 'For every valid domain, every order of insertions and every hash iteration order. ' + STRONG,
     WHY, TRI_FILES, TRI_MECH, MESH_STATE + DOM_STATE, ['Triangulator.triangulation after triangulate()'], None, TT, 'model_checking', TN)
prop('C03', 'Every input vertex and no other becomes a vertex of the mesh',
     'After triangulating a valid domain the vertices of the solid triangles are exactly the vertices of the boundary, of the holes, of the '
     'segments and the inserted vertices: none is lost and none is invented.',
     ['inputs', 'histories', 'schedules'], 'For every valid domain, every order of insertions and every hash iteration order. ' + STRONG,
     WHY, TRI_FILES, TRI_MECH, MESH_STATE + DOM_STATE, ['Triangulator.triangulation after triangulate()'], None, TT, 'model_checking', TN)
prop('C04', 'Boundary, hole and segment edges are edges of the mesh',
     'After triangulating a valid domain every edge of the boundary, of every hole and every inserted segment is an edge of the mesh, in both '
     'directions.',
     ['inputs', 'histories', 'schedules'], 'For every valid domain, every order of insertions and every hash iteration order. ' + STRONG,
     WHY, TRI_FILES, TRI_MECH, MESH_STATE + DOM_STATE, ['Triangulator.triangulation after triangulate()'], None, TT, 'model_checking', TN)
prop('C05', 'The triangulation is constrained Delaunay',
     'After triangulating a valid domain the circumcircle of every solid triangle contains no vertex across any of its unconstrained edges '
     '(so no vertex visible to it).',
     ['inputs', 'histories', 'schedules'], 'For every valid domain, every order of insertions and every hash iteration order. ' + STRONG,
     WHY, TRI_FILES, TRI_MECH, MESH_STATE + DOM_STATE, ['Triangulator.triangulation after triangulate()'], None, TT, 'model_checking', TN)
NOSHARP = STRONG + ' Additionally no two constraint edges meet at less than 60 degrees and the required ratio is at least sqrt 2.'
WHYR = ('The unit tests refine a few fixed shapes and mostly check that nothing crashes; the property quantifies over every domain, every '
        'quality ratio and area bound, and every hash order, which decides the order of the splits.')
prop('C06', 'Refinement keeps the domain: vertices, constraints and covered region',
     'Refining a triangulated valid domain only adds vertices inside the domain or on its constraints: every earlier vertex remains, every '
     'boundary edge, hole edge and segment remains as a chain of mesh edges between its ends, and the mesh is still closed, counterclockwise and tiles exactly '
     'the same region.',
     ['inputs', 'histories', 'schedules'], 'For every valid domain, refinement parameters and hash iteration order. ' + NOSHARP,
     WHYR, REF_FILES, REF_MECH, MESH_STATE + DOM_STATE, ['Triangulator.triangulation after refine()'], None, TT, 'model_checking', TN)
prop('C07', 'Refinement delivers the requested quality and area',
     'After refining a triangulated valid domain no solid triangle has a ratio of circumradius to shortest edge above the requested quality, '
     'and, if a maximum area was requested, none has a larger area.',
     ['inputs', 'histories', 'schedules'], 'For every valid domain, refinement parameters and hash iteration order. ' + NOSHARP,
     WHYR, REF_FILES, REF_MECH, MESH_STATE + DOM_STATE, ['Triangulator.triangulation after refine()'], None, TT, 'model_checking', TN)
prop('C08', 'After refinement nothing is encroached and the mesh is Delaunay',
     'After refining a triangulated valid domain no vertex of the mesh lies strictly inside the diametral circle of a boundary, hole or '
     'segment subsegment, and no unconstrained mesh edge violates the Delaunay condition.',
     ['inputs', 'histories', 'schedules'], 'For every valid domain, refinement parameters and hash iteration order. ' + NOSHARP,
     WHYR, REF_FILES, REF_MECH, MESH_STATE + DOM_STATE, ['Triangulator.triangulation after refine()'], None, TT, 'model_checking', TN)
prop('C09', 'Every operation on a valid domain terminates without a panic',
     'Inserting vertices, segments and holes, triangulating and refining a valid domain always return: none panics, overflows the stack or '
     'runs forever, whatever was inserted, rejected or triangulated before.',
     ['inputs', 'histories', 'schedules'], 'For every history of operations and every hash iteration order; insertions: any arguments, also conflicting ones; '
     'triangulation and refinement: ' + NOSHARP,
     'Tests run a fixed set of inputs under whatever hash order the run happens to have; loops over conflict maps, cavities and encroached '
     'segments terminate only by geometric arguments that depend on the input.', REF_FILES, TRI_MECH + REF_MECH, MESH_STATE + DOM_STATE,
     ['return of every Triangulator method'], None, TT, 'model_checking', TN)
prop('C10', 'The result depends only on the domain, not on history or hash order',
     'Triangulating equal domains gives equal meshes whenever the domain has a unique constrained Delaunay triangulation, whatever the order '
     'and grouping of the insertions, earlier triangulations and hash iteration order; and neither triangulating nor refining changes the domain.',
     ['inputs', 'histories', 'schedules'], 'For every pair of histories that build the same domain. ' + STRONG,
     'Each test runs one history under one random hash order.', TRI_FILES, TRI_MECH, MESH_STATE + DOM_STATE,
     ['Triangulator.triangulation and the domain after triangulate()/refine()'], None, TT, 'model_checking', TN)
INS = 'For every reachable domain and every argument, at coordinates on a dyadic grid (up to 2^10 steps).'
WHYI = ('Tests insert one or two hand-made shapes; acceptance, the reported conflicts and the resulting state depend on the position of the '
        'argument relative to everything inserted before.')
prop('C11', 'Vertex insertion accepts exactly the vertices inside, atomically',
     'Inserting a set of vertices succeeds iff each lies strictly inside the boundary and strictly outside every hole; otherwise exactly the '
     'offending vertices are reported and the domain is unchanged. On success the domain gains these vertices without duplicates, '
     'and a segment that a new vertex lies on is split there instead.',
     ['inputs', 'histories'], INS, WHYI, [TRI, 'src/elements/polyline.rs', 'src/elements/edge.rs'], [M('Triangulator::insert_vertices', TRI), M('Polyline::contains', 'src/elements/polyline.rs')],
     DOM_STATE, ['result and domain after insert_vertices()'], None, TT, 'model_checking', TN)
prop('C12', 'Segment insertion accepts exactly the segments inside, and splits crossings',
     'Inserting a set of segments succeeds iff each lies strictly inside the boundary and strictly outside every hole, touching neither; otherwise exactly the '
     'offending segments are reported and the domain is unchanged. On success the domain holds the arrangement of old and new segments: cut at mutual '
     'crossings, at each other\'s ends and at inserted vertices, which are no longer free vertices.',
     ['inputs', 'histories'], INS + ' Segments share at most one point pairwise (no collinear overlap).', WHYI, [TRI, 'src/elements/polyline.rs', 'src/properties/intersection.rs'],
     [M('Triangulator::insert_segments', TRI), M('split_intersections', 'src/elements/polyline.rs'), M('Polyline::continence', 'src/elements/polyline.rs')],
     DOM_STATE, ['result and domain after insert_segments()'], None, TT, 'model_checking', TN)
prop('C13', 'Hole insertion accepts exactly the holes that are clear of everything',
     'Inserting a hole succeeds iff its closed region is strictly inside the boundary, disjoint from every other hole and from every segment; otherwise '
     'the vertices of exactly the conflicting boundary and holes (or else the ends of exactly the conflicting segments) are reported and the domain is '
     'unchanged. On success the hole is added and vertices in or on it are dropped.',
     ['inputs', 'histories'], INS, WHYI, [TRI, 'src/elements/polyline.rs'], [M('Triangulator::insert_hole', TRI), M('Polyline::continence', 'src/elements/polyline.rs')],
     DOM_STATE, ['result and domain after insert_hole()'], None, TT, 'model_checking', TN)
exec(open(os.path.join(ROOT, 'vt', 'meta_more.py')).read()) if os.path.exists(os.path.join(ROOT, 'vt', 'meta_more.py')) else None

NOT_APPLICABLE = []


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    man = dict(version=1, setup_cmd='python3-vt vt/setup.py',
               checks=[dict(property=p['id'], quick_cmd='python3-vt vt/check.py %s quick' % p['id'],
                            thorough_cmd='python3-vt vt/check.py %s thorough' % p['id'],
                            technique=p['_t'], level=p['_l'], level_note=p['_n']) for p in PROPS if p['_t']],
               not_applicable=NOT_APPLICABLE,
               notes='No hooks in /repo: the public API already exposes the abstract state. See DESIGN.md; fixed defects and findings: known-findings.json.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
