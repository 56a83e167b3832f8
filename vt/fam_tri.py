"""Families of Triangulator histories (spec/TriTrace.tla)."""
import math, random
import gens, core, mc

MODULE = 'TriTrace'
SCALES = [1, 1, 1, 2, 0.5, 0.25, 8]


def placed(R, outer, ops):
    """The history at a random dyadic scale and offset (exact in doubles)."""
    s = R.choice(SCALES)
    dx, dy = (R.choice([0, 0, -7, 100.5, -1000]) for _ in range(2))
    if R.random() < .25:
        mx = R.choice([(1, -1), (-1, 1), (-1, -1)])
    else:
        mx = (1, 1)

    def f(v):
        if isinstance(v, tuple) and not isinstance(v[0], tuple):
            return (v[0] * s * mx[0] + dx, v[1] * s * mx[1] + dy)
        if isinstance(v, (list, tuple)):
            return [f(x) for x in v]
        return v

    def loop(l):
        l = f(l)
        return l[::-1] if mx[0] * mx[1] < 0 else l
    new = []
    for op, a in ops:
        if op == 'hole':
            new.append([op, loop(a)])
        elif op == 'refine':
            new.append([op, [a[0], None if a[1] is None else [a[1][0] * s * s, a[1][1]]]])
        else:
            new.append([op, f(a)])
    return loop(outer), new


def case(R, outer, ops):
    outer, ops = placed(R, list(outer), ops)
    return dict(kind='tri', seed=R.randrange(1 << 30), boundary=outer, ops=ops)


def carve(R, n):
    """Nonconvex domains made of Delaunay edges, with holes, segments and free vertices."""
    for _ in range(n):
        N, k = R.choice([(3, 6), (4, 8), (6, 8), (6, 12), (10, 12), (20, 16), (30, 24), (60, 40), (100, 60)])
        D = gens.carved(R, N, k, holes=R.choice([0, 0, 1, 2, 3]), segs=R.choice([0, 0, 1, 2, 4]), keep=R.choice([.6, .8, .95]))
        if D is None:
            continue
        yield case(R, D['outer'], histories(R, D))


def histories(R, D):
    """Histories that build the domain once or, in different ways, several times."""
    h = gens.history(D, R)
    r = R.random()
    if r < .5:
        ops = h + [['triangulate', None]]
    elif r < .8:
        # the same domain by other histories: the result may not depend on it
        ops = h + [['triangulate', None]]
        for _ in range(2):
            ops += [['new', None]] + gens.history(D, R) + [['triangulate', None]]
    elif r < .9:
        ops = h + [['triangulate', None], ['triangulate', None]]
    else:
        i = R.randint(0, len(h))
        ops = h[:i] + [['triangulate', None]] + h[i:] + [['triangulate', None]]
    return ops


def general(R, n):
    """Any domain: nonconvex boundaries, holes, segments that share ends, free vertices."""
    for _ in range(n):
        D = gens.general(R)
        yield case(R, D['outer'], histories(R, D))


def large(R, n):
    """Domains with many vertices."""
    for _ in range(n):
        D = gens.large(R)
        yield case(R, D['outer'], gens.history(D, R) + [['triangulate', None]])


def convex(R, n):
    """Convex boundaries (lattice hulls and rectangles) with many cocircular vertices."""
    for _ in range(n):
        N = R.choice([2, 3, 4, 5, 8])
        if R.random() < .5:
            outer = [(0, 0), (N, 0), (N, N), (0, N)]
            if R.random() < .5:
                outer = gens.hull([(R.randint(0, N), R.randint(0, N)) for _ in range(8)])
                if len(outer) < 3:
                    continue
        else:
            outer = gens.rpoly(R, N, 3)
            if R.random() < .5:
                outer = gens.hull([(R.randint(0, N), R.randint(0, N)) for _ in range(5)])
            if len(outer) < 3:
                continue
        ins = [(x, y) for x in range(N + 1) for y in range(N + 1) if gens.pip(outer, (x, y)) > 0]
        R.shuffle(ins)
        vs = ins[:R.randint(0, len(ins))]
        i = R.randrange(len(outer))
        outer = outer[i:] + outer[:i]
        parts, rest = [], vs
        while rest:
            j = R.randint(1, len(rest))
            parts.append(['verts', rest[:j]])
            rest = rest[j:]
        ops = parts + [['triangulate', None]]
        if R.random() < .3:
            R.shuffle(vs)
            ops += [['new', None]] + ([['verts', vs]] if vs else []) + [['triangulate', None]]
        yield case(R, outer, ops)


def rhole(R, N):
    m = R.choice([1, 2, 2, 3, max(1, N // 2)])
    x, y = R.randint(-1, N), R.randint(-1, N)
    if R.random() < .4:
        w, h = R.randint(1, m), R.randint(1, m)
        return [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]
    return gens.rpoly(R, m, R.choice([3, 3, 4, 5]), x, y)


def insertions(R, n):
    """Histories of arbitrary insertions on a small lattice, many of them conflicting."""
    for _ in range(n):
        N = R.choice([4, 5, 6, 8])
        outer = gens.rpoly(R, N, R.choice([3, 4, 5, 6, 8])) if R.random() < .5 else [(0, 0), (N, 0), (N, N), (0, N)]
        lo, hi = (1, N - 1) if R.random() < .6 else (-1, N + 1)

        def p():
            return (R.randint(lo, hi), R.randint(lo, hi))
        ops, used, segs, holes = [], [], [], []

        def q():
            return R.choice(used) if used and R.random() < .35 else p()
        for _ in range(R.randint(2, 7)):
            r = R.random()
            if r < .3:
                vs = list({q() for _ in range(R.randint(1, 4))})
                used += vs
                ops.append(['verts', vs])
            elif r < .7:
                ss = []
                for _ in range(R.choice([1, 1, 2, 3])):
                    a, b = q(), q()
                    if a != b and (b, a) not in ss and (a, b) not in ss and not any(overlap(a, b, c, d) for c, d in segs + ss):
                        ss.append((a, b))
                if ss:
                    segs += ss
                    used += [v for s in ss for v in s]
                    ops.append(['segs', ss])
            else:
                h = rhole(R, N)
                used += h
                ops.append(['hole', h])
        # what was accepted can be triangulated
        yield case(R, outer, ops + ([['triangulate', None]] if R.random() < .4 else []))


def related(R, n):
    """Histories of insertions, each chosen by its position relative to what is there: nested and surrounding loops,
    shared edges and vertices, segments through, along, within and between holes, vertices on everything."""
    for _ in range(n):
        N = R.choice([8, 12, 12, 20])
        outer = gens.rpoly(R, N, R.choice([4, 6, 9])) if R.random() < .4 else [(0, 0), (N, 0), (N, N), (0, N)]
        loops, segs, verts, ops = [outer], [], [], []

        def free():
            return (R.randint(1, N - 1), R.randint(1, N - 1))

        def on(a, b):
            g = math.gcd(a[0] - b[0], a[1] - b[1])
            k = R.randint(0, g) if g else 0
            return (a[0] + (b[0] - a[0]) // g * k, a[1] + (b[1] - a[1]) // g * k) if g else a

        def near(p):
            return (p[0] + R.choice([-1, 0, 0, 1]), p[1] + R.choice([-1, 0, 0, 1]))

        def at():
            """A vertex related to something."""
            r = R.random()
            l = R.choice(loops)
            i = R.randrange(len(l))
            if r < .2:
                return free()
            if r < .35:
                return l[i]
            if r < .5:
                return on(l[i], l[i - 1])
            if r < .6:
                return near(l[i])
            if r < .7 and segs:
                return on(*R.choice(segs))
            if r < .8 and segs:
                return R.choice(R.choice(segs))
            if r < .9 and verts:
                return R.choice(verts)
            a, b = R.sample(l, 2)
            return ((a[0] + b[0]) // 2, (a[1] + b[1]) // 2)

        def loop():
            """A loop related to another one."""
            l = R.choice(loops[1:] or loops) if R.random() < .8 else outer
            r = R.random()
            xs, ys = [p[0] for p in l], [p[1] for p in l]
            if r < .35:
                m = R.choice([2, 3, 4, N // 3, N // 2])
                if R.random() < .5:
                    x, y = free()
                    return [(x, y), (x + m, y), (x + m, y + R.choice([m, 1, 2])), (x, y + m)]
                return gens.rpoly(R, m, R.choice([3, 4, 6]), *free())
            if r < .5:                             # within or around, maybe touching
                d = R.choice([1, 1, 2, -1, -1, -2, 0])
                x0, x1, y0, y1 = min(xs) - d, max(xs) + d, min(ys) - d, max(ys) + d
                return [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
            if r < .6:                             # the same loop, started elsewhere
                i = R.randrange(len(l))
                return l[i:] + l[:i]
            if r < .75:                            # an edge shared
                i = R.randrange(len(l))
                return [l[i], l[i - 1], at()]
            if r < .85:                            # one vertex shared
                return [R.choice(l), at(), free()]
            q = [at(), at(), free()] + ([free()] if R.random() < .5 else [])
            return q
        for _ in range(R.randint(2, 8)):
            r = R.random()
            if r < .4:
                h = list(loop())
                if len(set(h)) < len(h) or not gens.simple(h):
                    continue
                if gens.area2(h) < 0:
                    h = h[::-1]
                loops.append(h)
                ops.append(['hole', h])
            elif r < .7:
                ss = []
                for _ in range(R.choice([1, 1, 2, 4])):
                    a, b = at(), at()
                    if R.random() < .2 and segs:   # across another one
                        c, d = R.choice(segs)
                        a = free()
                        b = (c[0] + d[0] - a[0], c[1] + d[1] - a[1])
                    if a != b and (b, a) not in ss and (a, b) not in ss and not any(overlap(a, b, c, d) for c, d in segs + ss):
                        ss.append((a, b))
                if ss:
                    segs += ss
                    ops.append(['segs', ss])
            else:
                vs = list(dict.fromkeys(at() for _ in range(R.choice([1, 1, 2, 5]))))
                verts += vs
                ops.append(['verts', vs])
        if ops:
            yield case(R, outer, ops + ([['triangulate', None]] if R.random() < .4 else []))


def overlap(a, b, c, d):
    return (gens.orient(a, b, c) == 0 and gens.orient(a, b, d) == 0
            and len({q for q in (a, b, c, d) if gens.onseg(a, b, q) and gens.onseg(c, d, q)}) > 1)


def sharp_free(R, n):
    """Domains without sharp angles, to be refined."""
    made = 0
    while made < n:
        r = R.random()
        D = None
        if r < .3:
            D = gens.general(R, (4, 6, 8, 12, 20), (3, 4, 6, 8), (0, 3, 10))
            if gens.sharp(gens.pslg(D)[1]):
                D = None
        elif r < .55:
            N, k = R.choice([(6, 8), (10, 10), (16, 12), (30, 12)])
            for _ in range(60):
                D = gens.carved(R, N, k, holes=R.choice([0, 0, 1]), segs=R.choice([0, 0, 1, 2]), keep=R.choice([.8, .95]))
                if D and not gens.sharp(gens.pslg(D)[1]):
                    break
                D = None
        elif r < .8:
            N = R.choice([6, 8, 12])
            W, H = R.randint(4, N), R.randint(4, N)
            outer = [(0, 0), (W, 0), (W, H), (0, H)]
            if R.random() < .5 and W > 4 and H > 4:
                a, b = R.randint(2, W - 2), R.randint(2, H - 2)
                outer = [(0, 0), (W, 0), (W, b), (a, b), (a, H), (0, H)]
            hs = []
            if R.random() < .5:
                x, y = R.randint(1, W - 2), R.randint(1, H - 2)
                w, h = R.randint(1, 3), R.randint(1, 3)
                hs = [[(x, y), (x + w, y), (x + w, y + h), (x, y + h)]]
                if not all(gens.pip(outer, v) > 0 for v in hs[0]):
                    hs = []
                if hs and any(gens.pip(hs[0], v) >= 0 for v in outer):
                    hs = []
            free = [(x, y) for x in range(1, W) for y in range(1, H) if gens.pip(outer, (x, y)) > 0 and all(gens.pip(l, (x, y)) < 0 for l in hs)]
            R.shuffle(free)
            vs = free[:R.choice([0, 0, 1, 2, 4])]
            D = dict(outer=outer, holes=hs, segs=[], verts=vs)
            V, C = gens.pslg(D)
            if R.random() < .5 and len(free) > 6:
                a, b = free[5], free[6]
                D['segs'] = [(a, b)]
                if any(gens.meet(a, b, *e) for e in C) or any(gens.onseg(a, b, v) for v in vs):
                    D['segs'] = []
            V, C = gens.pslg(D)
            if gens.sharp(C):
                D = None
        else:
            N = R.choice([4, 6, 10, 20])
            outer = gens.hull([(R.randint(0, N), R.randint(0, N)) for _ in range(7)])
            if len(outer) > 2 and not gens.sharp(gens.loop_edges(outer)):
                vs = [p for p in {(R.randint(0, N), R.randint(0, N)) for _ in range(R.choice([0, 2, 5]))} if gens.pip(outer, p) > 0]
                D = dict(outer=outer, holes=[], segs=[], verts=vs)
        if D is None:
            continue
        made += 1
        A = abs(gens.area2(D['outer'])) / 2
        ratio = R.choice([[3, 2], [3, 2], [2, 1], [29, 20], [10, 1]])
        area = R.choice([None, None, [A / 8, 1], [A / 32, 1], [A / 64, 1]])
        i = R.randrange(len(D['outer']))
        outer = D['outer'][i:] + D['outer'][:i]
        ops = gens.history(D, R) + [['triangulate', None]]
        yield case(R, outer, ops + [['refine', [ratio, area]]])


def replay(R, behaviours):
    """Behaviours of the specification, each completed by a triangulation (or two)."""
    for outer, ops in behaviours:
        ops = [list(o) for o in ops]
        if R.random() < .3:
            ops.insert(R.randint(0, len(ops)), ['triangulate', None])
        yield case(R, outer, ops + [['triangulate', None]])


def simulated(R, n):
    yield from replay(R, mc.simulate(R, n, R.choice([3, 4, 5])))


def exhaustive(R, n):
    bs = mc.pairs()
    yield from replay(R, R.sample(bs, n) if n < len(bs) else bs)


def small(R, n, **const):
    """The domains of a model that TLC explores all schedules of."""
    gs = mc.goals(const)
    for D in gs if n >= len(gs) else R.sample(gs, n):
        i = R.randrange(len(D['outer']))
        yield case(R, D['outer'][i:] + D['outer'][:i], gens.history(D, R) + [['triangulate', None]])


def loops(R, n):
    yield from small(R, n, N=2, Size=5)


def holes(R, n):
    yield from small(R, n, N=4, Mode='"holes"', Size=3)


def refined(R, n):
    """The domains without sharp angles of a model, refined."""
    large = mc.goals(dict(N=3, Size=5)) + mc.goals(dict(N=4, Mode='"holes"', Size=4)) if n > 1000 else mc.goals(dict(N=3, Size=4))
    gs = [D for D in large if not gens.sharp(gens.pslg(D)[1])]
    for D in gs if n >= len(gs) else R.sample(gs, n):
        A = abs(gens.area2(D['outer'])) / 2
        i = R.randrange(len(D['outer']))
        yield case(R, D['outer'][i:] + D['outer'][:i], gens.history(D, R) + [['triangulate', None], [
            'refine', [R.choice([[3, 2], [3, 2], [2, 1], [29, 20]]), R.choice([None, None, [A / 8, 1], [A / 64, 1]])]]])


SHARDS = {'mc.refine': 1, 'mc.domain': 2, 'mc.pairs': 1, 'mc.loops': 1, 'mc.holes': 1}
FAMILIES = dict(general=general, carve=carve, large=large, convex=convex, insertions=insertions, related=related, refine=sharp_free,
                **{'mc.domain': simulated, 'mc.pairs': exhaustive, 'mc.loops': loops, 'mc.holes': holes, 'mc.refine': refined})


def encode(c, r):
    out = dict(id=c['id'], pts=r['pts'], boundary=list(range(1, len(c['boundary']) + 1)), events=r['events'])
    if c.get('force'):
        out['force'] = True
    return out
