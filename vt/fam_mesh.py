"""Families of calls of the triangulation's container and procedures (spec/MeshTrace.tla)."""
import random
import gens, fam_tri
from fam_geom import Place

MODULE = 'MeshTrace'


def case(R, ops):
    return dict(kind='mesh', seed=R.randrange(1 << 30), ops=ops)


def container(R, n):
    """Arbitrary triangles go in and out, in any rotation, again and again."""
    for _ in range(n):
        pl = Place(R)
        vs = list({(R.randint(0, 3), R.randint(0, 3)) for _ in range(R.randint(4, 6))})
        if len(vs) < 4:
            continue
        pool = []
        for _ in range(R.randint(2, 6)):
            t = R.sample(vs, 3)
            if R.random() < .3:
                t[R.randrange(3)] = None
            pool.append(t)
            if R.random() < .3:
                pool.append([t[1], t[0], R.choice(vs + [None])])
        pool = [t for t in pool if len(set(t)) == 3]
        ops = []
        if R.random() < .5:
            a, b = R.sample(vs, 2)
            ops.append(['initial', pl.ps([a, b])])
            pool += [[a, b, None], [b, a, None]]
        for _ in range(R.randint(4, 14)):
            t = R.choice(pool)
            i = R.randrange(3)
            t = t[i:] + t[:i]
            ops.append([R.choice(['include', 'include', 'remove']), pl.ps(t)])
        yield case(R, ops)


def free(R, n):
    """Vertices only: triangulations of their convex hull."""
    for _ in range(n):
        pl = Place(R)
        N = R.choice([2, 3, 4, 6, 10, 50])
        vs = list({(R.randint(0, N), R.randint(0, N)) for _ in range(R.choice([4, 6, 9, 15, 25]))})
        R.shuffle(vs)
        if len(vs) < 3 or not gens.hull(vs) or len(gens.hull(vs)) < 3:
            continue
        ops = [['initial', pl.ps(vs[:2])]]
        rest = vs[2:]
        if all(gens.orient(vs[0], vs[1], v) == 0 for v in rest):
            continue
        first = True
        while rest:
            k = R.choice([1, 1, 2, len(rest)])
            if first:
                while all(gens.orient(vs[0], vs[1], v) == 0 for v in rest[:k]):
                    k += 1
                first = False
            g = rest[:k]
            if R.random() < .2:
                g = g + [R.choice(vs[:2])]          # an existing vertex is ignored
            ops.append(['free', pl.ps(g)])
            rest = rest[k:]
        yield case(R, ops)


def domain(R):
    r = R.random()
    if r < .6:
        return gens.general(R, (4, 6, 8, 12, 20, 40), (3, 4, 6, 8, 12), (0, 3, 8))
    N, k = R.choice([(3, 6), (4, 8), (6, 8), (6, 12), (10, 12), (20, 16), (30, 24)])
    return gens.carved(R, N, k, holes=R.choice([0, 0, 1, 2]), segs=R.choice([0, 1, 2, 4]), keep=R.choice([.6, .8, .95]))


def steps(R, D, pl):
    """The procedures in an order the triangulator uses, one at a time."""
    outer = D['outer']
    i = R.randrange(len(outer))
    ops = [['bnd', pl.loop(outer[i:] + outer[:i])]]
    hs = list(D['holes'])
    R.shuffle(hs)
    for h in hs:
        ops.append(['verts', pl.loop(h)])
        ops.append(['hole', pl.loop(h)])
    rest = [('seg', s if R.random() < .5 else (s[1], s[0])) for s in D['segs']]
    vs = list(D['verts'])
    R.shuffle(vs)
    while vs:
        k = R.choice([1, 2, len(vs)])
        rest.append(('verts', vs[:k]))
        vs = vs[k:]
    R.shuffle(rest)
    for op, a in rest:
        if op == 'seg':
            ops.append(['verts', pl.ps(a)])
        ops.append([op, pl.ps(a)])
    return ops


def build(R, n):
    for _ in range(n):
        D = domain(R)
        if D is None:
            continue
        yield case(R, steps(R, D, Place(R)))


def refine(R, n):
    """Domains, built, then refined step by step."""
    made = 0
    src = fam_tri.sharp_free(R, n)
    while made < n:
        made += 1
        if R.random() < .35:                   # any domain, also with sharp angles: only unencroached
            D = gens.general(R, (4, 6, 8, 12), (3, 4, 6), (0, 3))
            pl = Place(R)
            ops = steps(R, D, pl)
        else:
            c = next(src)
            D = dict(outer=[tuple(v) for v in c['boundary']], holes=[], segs=[], verts=[])
            for op, a in c['ops']:
                if op == 'hole':
                    D['holes'].append([tuple(v) for v in a])
                elif op == 'segs':
                    D['segs'] += [tuple(tuple(v) for v in s) for s in a]
                elif op == 'verts':
                    D['verts'] += [tuple(v) for v in a]
                elif op == 'refine':
                    params = a
            pl = Place(random.Random(0))
            pl.k, pl.dx, pl.dy, pl.mx, pl.my, pl.swap, pl.flips = 1, 0, 0, 1, 1, False, False
            ops = steps(R, D, pl)
            if R.random() < .8:
                yield case(R, ops + [['unencroach', None], ['split', params]])
                continue
        V, C = gens.pslg(D)
        if R.random() < .5:
            yield case(R, ops + [['unencroach', None]])
            continue
        C = list(C)
        own = [e for l in [D['outer']] + D['holes'] for e in gens.loop_edges(l)] + list(D['segs'])
        s = R.choice(own)
        W = [v for v in V if v not in s]
        W = R.sample(W, min(len(W), R.choice([0, 1, 2, 3, 8])))
        (a, b), m = s, R.randint(1, 6)         # vertices near the segment
        for _ in range(R.choice([0, 1, 2, 3])):
            t, h = R.randint(1, 31) / 32, R.choice([-1, 1]) * R.choice([1, 2, 4, 8, 16]) / 32
            W.append((a[0] + t * (b[0] - a[0]) - h * (b[1] - a[1]), a[1] + t * (b[1] - a[1]) + h * (b[0] - a[0])))
        # the direction in which the procedures know the segment
        last = [op for op in ops if op[0] == 'seg' and set(map(tuple, op[1])) == set(map(tuple, pl.ps(s)))]
        q = last[-1][1] if last else pl.ps(s)
        if not last and pl.flips:
            q = q[::-1]
        yield case(R, ops + [['uns', [q, pl.ps(W)]]])


FAMILIES = {'m.' + f.__name__: f for f in [container, free, build, refine]}


def encode(c, r):
    return dict(id=c['id'], pts=r['pts'], events=r['events'])
