"""Which families and clauses decide which property."""
import json, os
import core, fam_tri, fam_geom, fam_mesh, fam_prog, mc

ASSUMPTIONS = [
    'TLC evaluates the specification; exact predicates are replaced by java/Exact.java (cross-checked by ExactCross.tla)',
    'coordinates are dyadic, so that the recorded doubles are the exact input',
]


def modules():
    return [fam_tri, fam_geom, fam_mesh, fam_prog]


def known():
    with open(os.path.join(core.ROOT, 'known-findings.json')) as f:
        return [k for k in json.load(f)['findings'] if 'case' in k]


def models(P, tier):
    return [mc.run(n) for n in P.get('models', ((), ()))[tier != 'quick']]


# per property, the model checking runs of the quick and of the thorough check
BUILD = ['build-live-2', 'build-live-3', 'build-loops-2', 'build-loops-3', 'build-holes-3', 'build-holes-4']
MODELS = {p: ((), BUILD) for p in ('C01', 'C02', 'C03', 'C04', 'C09', 'C10')}
MODELS.update({p: (('domain-1',), ('domain-1', 'domain-2')) for p in ('C11', 'C12', 'C13')})
MODELS.update({p: (('refine-2',), ('refine-2', 'refine-3')) for p in ('C06', 'C07', 'C08', 'C25')})
MODELS['C05'] = (('build-live-2',), BUILD)
MODELS['C24'] = (('build-loops-2', 'build-holes-3'), BUILD)
MODELS['C15'] = MODELS['C16'] = (('cross-2',), ('cross-3', 'cross-4'))

TRI = [('large', 150, 4000), ('general', 2500, 40000), ('carve', 1000, 10000), ('convex', 1000, 10000), ('mc.loops', 600, 600), ('mc.holes', 1200, 10000)]
TRIRULE = ('random histories of a Triangulator (nonconvex domains with holes, segments, free vertices, arbitrary or made of Delaunay edges; lattice '
           'domains), and all domains of BuildMC instances; non-trivial: distinct history in which the premise held where the property is evaluated')

REFRULE = 'random domains without sharp angles, triangulated and refined with random parameters; non-trivial: distinct history whose refinement meets the premise'
INSRULE = 'random insertions into random lattice domains, about half of them conflicting, and behaviours of DomainMC generated by TLC; non-trivial: distinct history with at least one such insertion'
REFINE = [('refine', 1500, 15000), ('mc.refine', 400, 20000)]
INS = [('insertions', 4000, 50000), ('related', 4000, 60000), ('mc.domain', 2000, 20000), ('mc.pairs', 0, 60000)]

PROPS = {
    'C01': dict(families=TRI, clauses=['tri.total', 'tri.structure'], tags=['tri.held'], rule=TRIRULE),
    'C02': dict(families=TRI, clauses=['tri.total', 'tri.tiling'], tags=['tri.held'], rule=TRIRULE),
    'C03': dict(families=TRI, clauses=['tri.total', 'tri.vertices'], tags=['tri.held'], rule=TRIRULE),
    'C04': dict(families=TRI, clauses=['tri.total', 'tri.constraints'], tags=['tri.held'], rule=TRIRULE),
    'C05': dict(families=TRI, clauses=['tri.total', 'tri.delaunay'], tags=['tri.held'], rule=TRIRULE),
    'C06': dict(families=REFINE, clauses=['ref.total', 'ref.structure', 'ref.vertices', 'ref.constraints', 'ref.tiling'], tags=['ref.held'], rule=REFRULE),
    'C07': dict(families=REFINE, clauses=['ref.total', 'ref.quality', 'ref.area'], tags=['ref.held'], rule=REFRULE),
    'C08': dict(families=REFINE, clauses=['ref.total', 'ref.encroached', 'ref.delaunay'], tags=['ref.held'], rule=REFRULE),
    'C09': dict(families=TRI + REFINE + [('insertions', 1500, 25000), ('related', 1500, 25000)], clauses=['*.total'], tags=['*'],
                rule='all families of histories; non-trivial: distinct history with an operation that has to return'),
    'C10': dict(families=TRI + [('refine', 500, 5000)], clauses=['tri.unique', 'tri.domain', 'ref.domain'], tags=['tri.held'], rule=TRIRULE),
    'C11': dict(families=INS, clauses=['verts.*'], tags=['verts.*'], rule=INSRULE),
    'C12': dict(families=INS, clauses=['segs.*'], tags=['segs.*'], rule=INSRULE),
    'C13': dict(families=INS, clauses=['hole.*'], tags=['hole.*'], rule=INSRULE),
}


def geom(fams, ops, quick=1500, thorough=40000):
    return dict(families=[('g.' + f, quick, thorough) for f in fams.split()], clauses=[x for o in ops.split() for x in (o, o + '.*')], tags=ops.split(),
                rule='random calls, concentrated on degenerate positions; non-trivial: distinct group of 12 calls with at least one of %s whose arguments meet the premise' % ops)


PROPS.update({
    'C14': geom('locate', 'pcontains econtains', 3000),
    'C15': geom('predicate segments_meeting', 'orient incircle encircles encroach parallel isect'),
    'C16': geom('measure', 'mid dot dist ccenter area areas sorient angle triangle', 3000),
    'C17': geom('position', 'continence', 3000),
    'C18': geom('boolean', 'union inter minus', 3000),
    'C19': geom('crossings', 'split ivs', 3000),
    'C20': geom('assemble', 'arrange hull minify earrange decompose hashmap polyline make edge', 3000),
    'C21': geom('equality', 'veq eeq teq peq sort', 3000),
    'C22': geom('box', 'bbox bcontains binter bunion bunions beq', 3000),
})

PROPS.update({
    'C23': dict(families=[('m.container', 6000, 60000)], clauses=['include.*', 'remove.*', 'initial.*'], tags=['include', 'remove', 'initial'],
                rule='random sequences of inclusions and removals of triangles, shared edges, rotations, ghosts and repetitions included; non-trivial: distinct sequence'),
    'C24': dict(families=[('m.free', 2500, 25000), ('m.build', 2500, 25000)], clauses=[o + '.*' for o in ('initial', 'free', 'bnd', 'verts', 'hole', 'seg')],
                tags=['free', 'bnd', 'verts', 'hole', 'seg'],
                rule='the construction procedures called one after the other on random domains, in random orders; non-trivial: distinct sequence with a call whose premise held'),
    'C25': dict(families=[('m.refine', 3000, 30000), ('g.encroaching', 1500, 20000)], clauses=['unencroach.*', 'uns.*', 'split.*', 'encs', 'encs.*'],
                tags=['unencroach', 'uns', 'split', 'encs'],
                rule='random domains built by the procedures, then refinement procedures called one after the other; non-trivial: distinct sequence with a refinement call whose premise held'),
})

PROGRULE = ('random input documents (included and removed loops and circles, segments, vertices, in random order) run through the command line program under a controlled hash order; '
            'non-trivial: distinct document whose outcome is specified')
PROG = [('p.domain', 2000, 40000), ('p.circles', 200, 2000), ('p.malformed', 700, 7000)]
PROPS.update({
    'C26': dict(families=PROG, clauses=['run.*'], tags=['run.accepted', 'run.rejected', 'run.sharp'], rule=PROGRULE),
    'C27': dict(families=PROG[:2], clauses=['out.*'], tags=['run.accepted'], rule=PROGRULE),
})

PROPS['C28'] = dict(geom('shown', 'vtext etext ttext mtext dtext drawn', 3000), draw=True)

for p, m in MODELS.items():
    PROPS[p]['models'] = m
