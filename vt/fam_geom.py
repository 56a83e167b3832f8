"""Families of single calls of the geometric building blocks (spec/GeomTrace.tla)."""
import math, random
import gens

MODULE = 'GeomTrace'
PER = 12            # calls per case


class Place:
    """A random dyadic scale, offset and reflection; exact in doubles."""
    def __init__(s, R):
        s.k = R.choice([1, 1, 1, 2, 0.5, 0.25, 8])
        s.dx, s.dy = (R.choice([0, 0, 0, -7, 100.5, -1000]) for _ in range(2))
        s.mx, s.my = R.choice([(1, 1), (1, 1), (1, 1), (1, -1), (-1, 1), (-1, -1)])
        s.swap = R.random() < .2
        s.flips = (s.mx * s.my < 0) != s.swap

    def p(s, v):
        if v is None:
            return None
        x, y = v[0] * s.k * s.mx + s.dx, v[1] * s.k * s.my + s.dy
        return [y, x] if s.swap else [x, y]

    def ps(s, l):
        return [s.p(v) for v in l]

    def loop(s, l):
        """keeps a counterclockwise loop counterclockwise"""
        l = s.ps(l)
        return l[::-1] if s.flips else l

    def poly(s, l, o=False):
        return dict(o=o, v=s.loop(l))


def point(R, N):
    return (R.randint(0, N), R.randint(0, N))


def points(R, N, n):
    return [point(R, N) for _ in range(n)]


def special(R, N, ps):
    """A point in a special position relative to ps."""
    r = R.random()
    if r < .15:
        return R.choice(ps)
    a, b = R.choice(ps), R.choice(ps)
    if r < .5:
        k = R.choice([0, 1, 2, 3, 4, -1, 6])
        q = (a[0] + (b[0] - a[0]) * k / 4, a[1] + (b[1] - a[1]) * k / 4)
        return (int(q[0]), int(q[1])) if q[0] == int(q[0]) and q[1] == int(q[1]) else q
    if r < .7:
        return (a[0] + a[1] - b[1], a[1] + b[0] - a[0]) if R.random() < .5 else (a[0], b[1])
    return point(R, N)


def cases(R, n, make):
    for _ in range(n):
        ops = []
        while len(ops) < PER:
            ops += make(R)
        yield dict(kind='geom', seed=R.randrange(1 << 30), ops=ops[:PER])


def grid(R):
    return R.choice([2, 3, 4, 6, 10, 20, 100, 1000])


# ---------------------------------------------------------------- predicates and measures

def wild(R):
    """Doubles of any kind; the specification decides which outcomes are plain."""
    m = R.choice([1e-3, 1, 1, 50, 1e4])
    return lambda: [R.uniform(-m, m), R.uniform(-m, m)]


def predicate(R):
    op = R.choice(['orient', 'incircle', 'encircles', 'encroach', 'parallel', 'isect', 'isect', 'incircle', 'encircles'])
    k = {'orient': 3, 'encroach': 3}.get(op, 4)
    if R.random() < .12 and op not in ('parallel', 'isect'):
        w = wild(R)
        q = [w() for _ in range(k)]
        if op == 'encircles' and R.random() < .4:
            q[2] = None
        elif op in ('incircle', 'encircles') and gens.orient(*q[:3]) < 0:
            q[0], q[1] = q[1], q[0]
        return [[op, q]]
    pl, N = Place(R), grid(R)
    ps = points(R, N, 2)
    while len(ps) < k:
        ps.append(special(R, N, ps))
    if op == 'encircles' and R.random() < .4:
        ps[2] = None
    elif op in ('incircle', 'encircles'):
        if R.random() < .4:                   # a cocircular fourth point
            a, b = point(R, N), (R.randint(1, N), R.randint(0, N))
            o = point(R, N)
            dirs = [(b[0], b[1]), (-b[1], b[0]), (b[1], b[0]), (-b[0], b[1]), (b[0], -b[1]), (-b[0], -b[1]), (b[1], -b[0]), (-b[1], -b[0])]
            ps = [(o[0] + d[0], o[1] + d[1]) for d in R.sample(dirs, 4)]
            if R.random() < .3:
                ps[3] = (ps[3][0] + R.choice([-1, 0, 1]), ps[3][1] + R.choice([-1, 0, 1]))
        if gens.orient(*ps[:3]) < 0:
            ps[0], ps[1] = ps[1], ps[0]
        q = pl.ps(ps)
        if pl.flips:
            q[0], q[1] = q[1], q[0]
        return [[op, q]]
    return [[op, pl.ps(ps)]]


def segments_meeting(R):
    """isect over touching, crossing, overlapping and disjoint segments of all sizes"""
    pl, N = Place(R), grid(R)
    a, b = points(R, N, 2)
    q = [a, b, special(R, N, [a, b]), special(R, N, [a, b])]
    R.shuffle(q) if R.random() < .2 else None
    return [['isect', pl.ps(q)]]


def measure(R):
    op = R.choice(['mid', 'dot', 'dist', 'ccenter', 'area', 'areas', 'sorient', 'angle', 'angle', 'triangle', 'triangle'])
    pl, N = Place(R), grid(R)
    k = {'mid': 2, 'dist': 2, 'dot': 4}.get(op, 3)
    if R.random() < .2 and op in ('mid', 'dist', 'dot', 'area', 'areas'):
        w = wild(R)
        return [[op, [w() for _ in range(k)]]]
    if op in ('areas', 'sorient'):
        l = gens.rpoly(R, min(N, 100), R.choice([3, 4, 5, 8]))
        return [[op, pl.ps(l)]]
    ps = points(R, N, 2)
    while len(ps) < k:
        ps.append(special(R, N, ps))
    if op == 'mid' and R.random() < .2:
        ps[R.randrange(2)] = None
    q = pl.ps(ps)
    if op == 'triangle':
        if R.random() < .2:
            q[2] = None
        elif gens.orient(*q) < 0:
            q[0], q[1] = q[1], q[0]
    return [[op, q]]


# ---------------------------------------------------------------- polylines

def chain(R, N, k):
    """An opened polyline: part of a simple loop."""
    l = gens.rpoly(R, N, k)
    i = R.randrange(len(l))
    l = l[i:] + l[:i]
    return l[:R.randint(2, len(l))]


def lpoly(R, lo=3, hi=8):
    N = R.choice([2, 3, 4, 6, 10, 20])
    return N, gens.rpoly(R, N, R.randint(lo, hi), R.choice([0, 0, -2, 1]), R.choice([0, 0, -1]))


def locate(R):
    pl = Place(R)
    if R.random() < .35:
        N = grid(R)
        a, b = points(R, N, 2)
        return [['econtains', pl.ps([a, b, special(R, N, [a, b])])]]
    N, l = lpoly(R, 3, 12)
    o = R.random() < .05
    out = []
    for _ in range(4):
        v = special(R, N, l)
        l2 = l[::-1] if R.random() < .15 else l
        out.append(['pcontains', [pl.poly(l2, o), pl.p(v)]])
    return out


def second(R, N, l):
    """A polyline in an interesting position relative to l."""
    r = R.random()
    if r < .12:                    # a shifted copy
        dx, dy = R.randint(-2, 2), R.randint(-2, 2)
        return [(x + dx, y + dy) for x, y in l]
    if r < .2:                     # its vertices, fewer of them
        q = [v for v in l if R.random() < .7]
        return q if gens.simple(q) and gens.area2(q) > 0 else list(l)
    if r < .28:                    # the same, rotated
        i = R.randrange(len(l))
        return l[i:] + l[:i]
    m = R.choice([2, 3, 4, max(2, N // 2), N])
    return gens.rpoly(R, m, R.randint(3, 6), R.randint(-1, N), R.randint(-1, N))


def position(R):
    pl = Place(R)
    N, l = lpoly(R)
    q = second(R, N, l)
    r = R.random()
    o = False
    if r < .4:
        i = R.randrange(len(q))
        q = (q[i:] + q[:i])[:R.randint(2, len(q))]
        o = True
    if R.random() < .1:
        q = q[::-1]
    return [['continence', [pl.poly(l, R.random() < .03), pl.poly(q, o)]]]


def boolean(R):
    pl = Place(R)
    N, l = lpoly(R)
    q = second(R, N, l)
    a = [pl.poly(l, R.random() < .02), pl.poly(q, R.random() < .02)]
    if R.random() < .5:
        a.reverse()
    return [[op, a] for op in R.sample(['union', 'inter', 'minus'], 3)]


def overlap(a, b, c, d):
    """collinear segments with more than one common point"""
    i = 0 if a[0] != b[0] else 1
    return min(max(a[i], b[i]), max(c[i], d[i])) > max(min(a[i], b[i]), min(c[i], d[i]))


def crossings(R):
    pl = Place(R)
    if R.random() < .5:
        N, l = lpoly(R)
        q = second(R, N, l)
        return [['ivs', [pl.poly(l, R.random() < .2), pl.poly(q, R.random() < .2)]]]
    N = R.choice([3, 4, 6, 10, 20, 50])
    s = []
    for _ in range(R.randint(1, 7)):
        a = R.choice(R.choice(s)) if s and R.random() < .35 else point(R, N)
        b = special(R, N, [v for e in s for v in e]) if s and R.random() < .35 else point(R, N)
        if a != b and not any(gens.orient(a, b, c) == 0 == gens.orient(a, b, d) and overlap(a, b, c, d) for c, d in s):
            s.append((a, b))
    return [['split', [pl.ps(e) for e in s]]]


# ---------------------------------------------------------------- edges and polylines as sets

def assemble(R):
    op = R.choice(['arrange', 'arrange', 'hull', 'hull', 'minify', 'minify', 'earrange', 'earrange', 'decompose', 'decompose', 'hashmap', 'polyline',
                   'make', 'edge'])
    pl = Place(R)
    N = R.choice([2, 3, 4, 6, 10])
    if op in ('arrange', 'hashmap'):
        E = []
        for _ in range(R.choice([1, 1, 1, 2])):
            l = gens.rpoly(R, N, R.randint(3, 8), R.randint(0, 3), 0)
            E += gens.loop_edges(l)
        r = R.random()
        if r < .15:
            E.pop(R.randrange(len(E)))
        elif r < .3:
            E.append((R.choice(E)[1], R.choice(E)[0]))
        elif r < .4:
            i = R.randrange(len(E))
            E[i] = E[i][::-1]
        elif r < .45:
            E = [E[0], E[0][::-1]]
        elif r < .5:
            E = []
        R.shuffle(E)
        E = [e for e in dict.fromkeys(E) if e[0] != e[1]]
        return [[op, [pl.ps(e) for e in E]]]
    if op == 'hull':
        T = gens.delaunay(list({point(R, N) for _ in range(R.randint(4, 14))}))
        if not T:
            return []
        if R.random() < .6:
            T = [t for t in T if R.random() < .8] or T[:1]
        R.shuffle(T)
        return [[op, [pl.loop(t) for t in T]]]
    if op == 'minify':
        N = R.choice([2, 3, 4, 6])
        l = gens.rpoly(R, N, R.randint(3, 9))
        l2 = []
        for a, b in gens.loop_edges(l):
            l2.append(a)
            if R.random() < .4:
                k = R.randint(1, 3)
                l2 += [(a[0] + (b[0] - a[0]) * i / 4, a[1] + (b[1] - a[1]) * i / 4) for i in sorted(R.sample([1, 2, 3], k))]
        i = R.randrange(len(l2))
        l2 = l2[i:] + l2[:i]
        o = R.random() < .4
        if o:
            l2 = l2[:R.randint(2, len(l2))]
        return [[op, [pl.poly(l2, o)]]]
    if op in ('earrange', 'decompose'):
        E, runs = [], []
        for _ in range(R.randint(1, 4)):
            a = point(R, N)
            d = R.choice([(1, 0), (0, 1), (1, 1), (1, -1), (2, 1), (1, 2), (-1, 0), (0, -1), (-2, 1)])
            p, run = a, [a]
            for _ in range(R.randint(1, 4)):
                k = R.randint(1, 3)
                p = (p[0] + k * d[0], p[1] + k * d[1])
                run.append(p)
            runs.append(run)
            E += [(run[i], run[i + 1]) for i in range(len(run) - 1) if R.random() < .9]
        if R.random() < .3:
            E += [e[::-1] for e in E if R.random() < .5]
        E = list(dict.fromkeys(E))
        R.shuffle(E)
        if op == 'earrange':
            return [[op, [pl.ps(e) for e in E]]]
        run = R.choice(runs)
        i = R.randrange(len(run) - 1)
        j = R.randint(i + 1, len(run) - 1)
        e = (run[i], run[j])
        if R.random() < .15:
            e = e[::-1]
        if R.random() < .1:
            e = (e[0], point(R, N))
        if e[0] == e[1]:
            return []
        return [[op, [[pl.ps(x) for x in E], pl.ps(e)]]]
    if op == 'polyline':
        l = gens.rpoly(R, N, R.randint(3, 8))
        return [[op, [pl.poly(l, R.random() < .5)]]]
    if op == 'make':
        q = pl.ps(points(R, N, R.randint(0, 5)))
        if len(q) == 2 and R.random() < .3:
            q[R.randrange(2)] = None
        return [[op, q]]
    return [[op, pl.ps(points(R, N, 2))]]


def zero(v, R):
    """the other zero, sometimes"""
    return None if v is None else ['-0.0' if x == 0 and R.random() < .5 else x for x in v]


def equality(R):
    op = R.choice(['veq', 'eeq', 'teq', 'peq', 'sort'])
    pl, N = Place(R), R.choice([1, 1, 2, 3])
    if R.random() < .5:
        pl.dx = pl.dy = 0

    def pt():
        return None if R.random() < .08 else point(R, N)
    if op == 'veq':
        return [[op, [zero(pl.p(pt()), R), zero(pl.p(pt()), R)]]]
    if op == 'sort':
        return [[op, [zero(pl.p(point(R, N)), R) for _ in range(R.randint(0, 9))]]]
    if op == 'peq':
        n = R.randint(2, 4)
        a = points(R, N, n)
        b = list(a) if R.random() < .6 else points(R, N, n)
        if R.random() < .2:
            b = b[1:] + b[:1]
        o = n == 2 or R.random() < .5
        return [[op, [dict(o=o, v=[zero(pl.p(v), R) for v in a]), dict(o=o if R.random() < .8 or n == 2 else not o, v=[zero(pl.p(v), R) for v in b])]]]
    n = {'eeq': 2, 'teq': 3}[op]
    a = [pt() for _ in range(n)]
    b = list(a)
    r = R.random()
    if r < .5:
        i = R.randrange(n)
        b = b[i:] + b[:i]
    elif r < .7:
        b = b[::-1]
    else:
        b = [pt() for _ in range(n)]
    return [[op, [[zero(pl.p(v), R) for v in a], [zero(pl.p(v), R) for v in b]]]]


def box(R):
    op = R.choice(['bbox', 'bcontains', 'bcontains', 'binter', 'binter', 'bunion', 'bunions', 'beq'])
    pl, N = Place(R), R.choice([1, 2, 3, 6, 20])

    def some(lo=1):
        return pl.ps(points(R, N, R.randint(lo, 4)))
    if op == 'bbox':
        return [[op, some(0)]]
    if op == 'bcontains':
        return [[op, [some(), pl.p(point(R, N))]]]
    if op == 'bunions':
        return [[op, [some() for _ in range(R.randint(0, 4))]]]
    return [[op, [some(), some()]]]


def family(make):
    return lambda R, n: cases(R, n, make)


# ---------------------------------------------------------------- encroachments

def encroaching(R):
    """Segments and vertices, many of them on the diametral circles or at an end."""
    pl, N = Place(R), R.choice([2, 3, 4, 6, 10, 20])
    E = []
    for _ in range(R.choice([1, 1, 2, 3, 6])):
        a, b = points(R, N, 2)
        if a != b and (b, a) not in E and (a, b) not in E:
            E.append((a, b))
    V = points(R, N, R.choice([0, 1, 3, 6]))
    for a, b in E:
        if R.random() < .5:
            V.append(special(R, N, [a, b]))
        if R.random() < .3:                    # on the circle
            V.append(R.choice([(a[0], b[1]), (b[0], a[1])]))
    V = list(dict.fromkeys(V))
    return [['encs', [[pl.ps(e) for e in E], pl.ps(V)]]] if E else []


# ---------------------------------------------------------------- text and drawings

def shown(R):
    """Elements and meshes to be printed or drawn, ghosts included."""
    op = R.choice(['vtext', 'etext', 'ttext', 'mtext', 'mtext', 'dtext', 'dtext', 'drawn', 'drawn'])
    if op in ('vtext', 'etext', 'ttext'):
        w = wild(R)
        pl, N = Place(R), grid(R)
        n = dict(vtext=1, etext=2, ttext=3)[op]
        return [[op, [None if R.random() < .15 else w() if R.random() < .3 else pl.p(point(R, N)) for _ in range(n)]]]
    pl, N = Place(R), R.choice([2, 3, 4, 10, 100])
    V = list(dict.fromkeys(points(R, N, R.choice([3, 4, 6, 10, 25]))))
    if op == 'dtext':
        w = wild(R)
        C = [w() if R.random() < .2 else pl.p(v) for v in V]
        return [[op, [C, [[R.randrange(len(V)) for _ in range(3)] for _ in range(R.choice([0, 1, 2, 5, 12]))]]]]
    T = [list(t) for t in gens.delaunay(V)]
    if R.random() < .4:
        T = R.sample(T, R.randint(0, len(T)))
    if R.random() < .6:
        E = {(t[i], t[(i + 1) % 3]) for t in T for i in range(3)}
        T += [[b, a, None] for a, b in sorted(E) if (b, a) not in E]
    T = [t[i:] + t[:i] for t in T for i in [R.randrange(3)]]
    R.shuffle(T)
    return [[op, [pl.ps(t) for t in T]]]


FAMILIES = {'g.' + f.__name__: family(f) for f in
            [predicate, segments_meeting, measure, locate, position, boolean, crossings, assemble, equality, box, encroaching, shown]}


def encode(c, r):
    return dict(id=c['id'], pts=r['pts'], events=r['events'])
